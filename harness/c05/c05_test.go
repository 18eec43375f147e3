// Package c05 decides: stored vectors read back bit for bit, last write wins.
package c05

import (
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C05") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Op of a history.
type Op struct {
	Op   string    `json:"op"` // add, run, read, dist, build, save, load, other, close
	ID   uint64    `json:"id,omitempty"`
	ID2  uint64    `json:"id2,omitempty"`
	V    []float64 `json:"v,omitempty"`
	Seed uint64    `json:"seed,omitempty"`
	N    int       `json:"n,omitempty"`
	W    int       `json:"w,omitempty"`
}

// Case of C05.
type Case struct {
	Config core.Config `json:"config"`
	Ops    []Op        `json:"ops"`
}

var vals = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 3, -0.1, 1e-3, 1000, 1.0 / 3}

// extreme values are stored as faithfully as others; only never searched or measured
var extreme = []float64{3.4e38, -3.4e38, 1e-45, 1.2e-38, -1e-45, 16777217, 0.1, -3.0000002}

var _ = core.Sub("history", core.Spec[Case]{
	Quick: 16000, Thorough: 400000,
	Rule: "histories of add, overwrite, runs of adds, reads, distances, build, save, load, load elsewhere, close against a map; " +
		"non-trivial: an overwrite or an id out of order, then a build or growth, then a read",
	Gen: func(t *rapid.T) Case {
		c := Case{Config: core.DrawConfig(t, core.Opt{
			Metrics: []string{"angular", "angular", "dot"}, MaxDim: 70,
			Builder: true, Multi: true, GCMem: true, Hint: true, Rnd: true, Verbose: true,
		})}
		n := rapid.IntRange(1, 40).Draw(t, "len")
		maxID := rapid.SampledFrom([]int{3, 10, 40, 300}).Draw(t, "maxid")
		ext := rapid.IntRange(0, 3).Draw(t, "extreme") == 0
		for i := 0; i < n; i++ {
			var op Op
			switch k := rapid.IntRange(0, 15).Draw(t, "op"); {
			case k < 7:
				op = Op{Op: "add", ID: uint64(rapid.IntRange(0, maxID).Draw(t, "id"))}
				if c.Config.Dim <= 8 && rapid.Bool().Draw(t, "explicit") {
					op.V = make([]float64, c.Config.Dim)
					for z := range op.V {
						if ext && rapid.IntRange(0, 2).Draw(t, "e") == 0 {
							op.V[z] = rapid.SampledFrom(extreme).Draw(t, "x")
						} else {
							op.V[z] = rapid.SampledFrom(vals).Draw(t, "x")
						}
						op.V[z] = c.Config.Round(op.V[z])
					}
				} else {
					op.Seed = rapid.Uint64().Draw(t, "vseed")
				}
			case k < 9:
				op = Op{Op: "run", ID: uint64(rapid.IntRange(0, maxID).Draw(t, "id")), N: rapid.IntRange(1, 60).Draw(t, "n"),
					Seed: rapid.Uint64().Draw(t, "vseed")}
			case k < 10:
				op = Op{Op: "read"}
			case k < 12:
				op = Op{Op: "dist", ID: rapid.Uint64Range(0, 1000).Draw(t, "i"), ID2: rapid.Uint64Range(0, 1000).Draw(t, "j")}
			case k < 13:
				op = Op{Op: "build", N: rapid.SampledFrom([]int{1, 2, 3, 8, -1}).Draw(t, "trees"), W: core.DrawWorkers(t, c.Config)}
			case k < 14:
				op = Op{Op: "save"}
			case k < 15:
				op = Op{Op: rapid.SampledFrom([]string{"load", "other"}).Draw(t, "load")}
			default:
				op = Op{Op: "close"}
			}
			c.Ops = append(c.Ops, op)
		}
		// most histories end with a build and a save
		if rapid.IntRange(0, 3).Draw(t, "end") > 0 {
			c.Ops = append(c.Ops, Op{Op: "build", N: rapid.IntRange(1, 5).Draw(t, "trees"), W: core.DrawWorkers(t, c.Config)},
				Op{Op: "save"}, Op{Op: "other"})
		}
		return c
	},
	Run: run,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 48, Thorough: 1200,
	Rule: "histories as above, with ids up to 200 000 and thousands of additions, or of dimensions up to 70 000; non-trivial: as above",
	Gen: func(t *rapid.T) Case {
		s := core.DrawLarge(t, core.Opt{Metrics: []string{"angular", "angular", "dot"}, Builder: true, Multi: true, GCMem: true, Hint: true, Rnd: true})
		c := Case{Config: s.Config}
		maxID, most := rapid.SampledFrom([]int{5000, 65540, 200000}).Draw(t, "maxid"), 60000
		if s.Config.Dim > 100 {
			maxID, most = 30, 20
		}
		for i, n := 0, rapid.IntRange(2, 8).Draw(t, "len"); i < n; i++ {
			id := uint64(rapid.IntRange(0, maxID).Draw(t, "id"))
			seed := rapid.Uint64().Draw(t, "vseed")
			switch rapid.IntRange(0, 5).Draw(t, "op") {
			case 0:
				c.Ops = append(c.Ops, Op{Op: "add", ID: id, Seed: seed})
			case 1:
				c.Ops = append(c.Ops, Op{Op: "dist", ID: rapid.Uint64().Draw(t, "i") >> 1, ID2: rapid.Uint64().Draw(t, "j") >> 1})
			default:
				c.Ops = append(c.Ops, Op{Op: "run", ID: id, N: rapid.IntRange(1, most).Draw(t, "n"), Seed: seed})
			}
		}
		c.Ops = append(c.Ops, Op{Op: "build", N: rapid.IntRange(1, 2).Draw(t, "trees"), W: core.DrawWorkers(t, c.Config)},
			Op{Op: "save"}, Op{Op: rapid.SampledFrom([]string{"load", "other"}).Draw(t, "load")})
		return c
	},
	Run: run,
})

func vec(c core.Config, seed uint64) []float64 {
	p := core.NewPrng(seed)
	v := make([]float64, c.Dim)
	s := []float64{1, 1, 1e-3, 300}[p.Intn(4)]
	if p.Intn(12) == 0 {
		// any finite number
		for z := range v {
			for {
				if v[z] = math.Float64frombits(p.U64()); !c.F64 {
					v[z] = float64(math.Float32frombits(uint32(p.U64())))
				}
				if !math.IsNaN(v[z]) && !math.IsInf(v[z], 0) {
					break
				}
			}
		}
		return v
	}
	zeros := p.Intn(4) == 0 // of both signs
	for z := range v {
		if v[z] = c.Round(p.Norm() * s); zeros && p.Intn(3) == 0 {
			v[z] = math.Copysign(0, v[z])
		}
	}
	return v
}

func ordinary(v []float64) bool {
	for _, x := range v {
		if x != 0 && (x > 1e6 || x < -1e6 || (x < 1e-6 && x > -1e-6)) {
			return false
		}
	}
	return true
}

func run(c *core.Ctx, cs Case) error {
	ix := core.Open(cs.Config, nil)
	c.Cleanup(func() { ix.Close() })
	m := core.MetricOf(cs.Config)
	mod := core.Model{}
	var saved core.Model
	state := "adding"
	mixed, grown := false, false

	check := func(when string, ix core.Index, mod core.Model) error {
		for id, v := range mod {
			if got := ix.Item(id); !core.SameVec(got, v) {
				return fmt.Errorf("%s: item %d reads %v, last added was %v", when, id, got, v)
			}
		}
		if len(mod) > 0 && mixed && grown {
			c.NonTrivial()
		}
		return nil
	}
	add := func(id uint64, v []float64) {
		if _, ok := mod[id]; ok {
			mixed = true
			c.Class("overwrite")
		}
		for x := range mod {
			if x > id {
				mixed = true
			}
			break
		}
		if len(mod) > 2 {
			grown = true
		}
		scribble := ix.AddKeep(id, v)
		mod[id] = v
		scribble()
	}
	for i, op := range cs.Ops {
		when := fmt.Sprintf("after op %d (%s)", i, op.Op)
		switch op.Op {
		case "add":
			if state != "adding" {
				continue
			}
			v := op.V
			if v == nil {
				v = vec(cs.Config, op.Seed)
			}
			add(op.ID, v)
			if err := check(when, ix, core.Model{op.ID: v}); err != nil {
				return err
			}
		case "run":
			if state != "adding" {
				continue
			}
			for k := 0; k < op.N; k++ {
				add(op.ID+uint64(k), vec(cs.Config, op.Seed+uint64(k)))
			}
		case "read":
		case "dist":
			ids := mod.IDs()
			if len(ids) == 0 {
				continue
			}
			a, b := ids[int(op.ID)%len(ids)], ids[int(op.ID2)%len(ids)]
			if !ordinary(mod[a]) || !ordinary(mod[b]) {
				continue
			}
			d, tol := m.D(mod[a], mod[b])
			if got := ix.Dist(a, b); !m.SameReported(got, d, tol) {
				return fmt.Errorf("%s: distance between %d and %d is given as %v, it is %v", when, a, b, got, m.Reported(d))
			}
			c.Class("distance read (%s)", state)
			continue
		case "build":
			if state != "adding" || len(mod) == 0 {
				continue
			}
			ix.Build(op.N, op.W)
			state = "built"
			c.Class("built")
		case "save":
			if state == "adding" {
				continue
			}
			if err := ix.Save(c.File("x.ann")); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
			saved = core.Model{}
			for k, v := range mod {
				saved[k] = v
			}
			state = "loaded"
			c.Class("saved")
		case "load":
			if saved == nil {
				continue
			}
			if err := ix.Load(c.File("x.ann")); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
			mod = core.Model{}
			for k, v := range saved {
				mod[k] = v
			}
			state = "loaded"
			c.Class("loaded")
		case "other":
			if saved == nil {
				continue
			}
			cf := cs.Config
			cf.GCMem = !cf.GCMem
			cf.Multi = false
			o := core.Open(cf, nil)
			if err := o.Load(c.File("x.ann")); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
			err := check(when+", in another index", o, saved)
			o.Close()
			if err != nil {
				return err
			}
			continue
		case "close":
			if err := ix.Close(); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
			mod = core.Model{}
			state = "adding"
			c.Class("closed")
			continue
		}
		if op.Op == "add" && len(mod) > 40 && i%4 != 0 {
			continue
		}
		if err := check(when, ix, mod); err != nil {
			return err
		}
	}
	return check("at the end", ix, mod)
}
