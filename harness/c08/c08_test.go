// Package c08 decides: operations out of order are rejected without side effects.
package c08

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C08") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Op of a history.
type Op struct {
	Op   string `json:"op"`
	ID   uint64 `json:"id,omitempty"`
	N    int    `json:"n,omitempty"`
	Len  int    `json:"len,omitempty"` // wrong length
	Seed uint64 `json:"seed,omitempty"`
	W    int    `json:"w,omitempty"`
	File string `json:"file,omitempty"`
}

// Case of C08.
type Case struct {
	Config core.Config `json:"config"`
	Ops    []Op        `json:"ops"`
}

var _ = core.Sub("lifecycle", core.Spec[Case]{
	Quick: 12000, Thorough: 300000,
	Rule: "histories of valid and invalid calls on one object against a model of its life cycle (filling, built, loaded); after every refused call " +
		"vectors, answers, files and directory are compared; every forest built is compared with that of a fresh object given the valid calls only; " +
		"non-trivial: at least two refused calls, one of them followed by a build, save or load, or a use after Close",
	Gen: gen, Run: run,
})

var _ = core.Sub("cycles", core.Spec[Case]{
	Quick: 160, Thorough: 5000,
	Rule: "one object taken through a drawn history of up to six calls 60 to 300 times, checked as above; non-trivial: as above",
	Gen: func(t *rapid.T) Case {
		c := gen(t)
		c.Ops = c.Ops[:min(len(c.Ops), 6)]
		ops := c.Ops
		for i, n := 0, rapid.IntRange(60, 300).Draw(t, "cycles"); i < n; i++ {
			c.Ops = append(c.Ops, ops...)
			if rapid.IntRange(0, 2).Draw(t, "closed") > 0 {
				c.Ops = append(c.Ops, Op{Op: "close"})
			}
		}
		return c
	},
	Run: run,
})

func wrongLen(t *rapid.T, dim int) int {
	l := rapid.SampledFrom([]int{0, 1, dim - 1, dim + 1, 2 * dim, dim + 7, dim + 128, dim + 256, dim + 65536, dim + 1<<32}).Draw(t, "len")
	if l == dim || l < 0 {
		l = dim + 1
	}
	return l
}

func gen(t *rapid.T) Case {
	c := Case{Config: core.DrawConfig(t, core.Opt{
		Metrics: []string{"angular", "angular", "angular", "dot"}, MaxDim: 40,
		Builder: true, Multi: true, GCMem: true, Hint: true, Rnd: true,
	})}
	maxID := rapid.SampledFrom([]int{3, 30, 120}).Draw(t, "maxid")
	n := rapid.IntRange(3, 30).Draw(t, "len")
	for i := 0; i < n; i++ {
		var op Op
		switch k := rapid.IntRange(0, 19).Draw(t, "op"); {
		case k < 3:
			op = Op{Op: "add", ID: uint64(rapid.IntRange(0, maxID).Draw(t, "id")), Seed: rapid.Uint64().Draw(t, "vseed")}
		case k < 6:
			op = Op{Op: "run", ID: uint64(rapid.IntRange(0, maxID).Draw(t, "id")), N: rapid.IntRange(1, 80).Draw(t, "n"),
				Seed: rapid.Uint64().Draw(t, "vseed")}
		case k < 8:
			op = Op{Op: "addwrong", ID: uint64(rapid.IntRange(0, 3*maxID).Draw(t, "id")), Len: wrongLen(t, c.Config.Dim)}
		case k < 12:
			op = Op{Op: "build", N: rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 3, 5, 5, -1, -1, 0}).Draw(t, "trees"), W: core.DrawWorkers(t, c.Config)}
		case k < 15:
			op = Op{Op: "save", File: rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "file")}
		case k < 17:
			op = Op{Op: "load", File: rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "file")}
		case k < 18:
			op = Op{Op: "querywrong", Len: wrongLen(t, c.Config.Dim), N: rapid.IntRange(0, 5).Draw(t, "n")}
		case k < 19:
			op = Op{Op: "close"}
		default:
			op = Op{Op: "loadmissing"}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func vec(c core.Config, seed uint64) []float64 {
	p := core.NewPrng(seed)
	v := make([]float64, c.Dim)
	for z := range v {
		v[z] = c.Round(p.Norm())
	}
	return v
}

type added struct {
	id uint64
	v  []float64
}

// content of a file or of an index that can be queried
type content struct {
	mod   core.Model
	bytes []byte
}

type machine struct {
	c      *core.Ctx
	cs     Case
	ix     core.Index
	state  string // filling, built, loaded
	mod    core.Model
	adds   []added // since the object was fresh or closed
	trees  int
	work   int
	files  map[string]*content
	oldCtx core.QCtx
	probes []probe
	fresh  int // saves of the fresh objects
}

type probe struct {
	v   []float64
	ids []uint64
	ds  []float64
}

func (m *machine) ask(v []float64, k int, ctx core.QCtx) ([]uint64, []float64) {
	return m.ix.ByVector(v, 4, 2+7*k, ctx)
}

// settled is called when the object got into a state in which it can be queried.
func (m *machine) settled() {
	m.probes = nil
	m.oldCtx = m.ix.Ctx()
	for k := 0; k < 3; k++ {
		v := vec(m.cs.Config, uint64(1000+k))
		ids, ds := m.ask(v, k, m.ix.Ctx())
		m.probes = append(m.probes, probe{v, ids, ds})
	}
}

// observe compares everything that can be seen with the model.
func (m *machine) observe() error {
	for id, v := range m.mod {
		if got := m.ix.Item(id); !core.SameVec(got, v) {
			return fmt.Errorf("item %d reads %v, it is %v", id, got, v)
		}
	}
	if m.ix.VectorLength() != m.cs.Config.Dim {
		return fmt.Errorf("vector length %d, it is %d", m.ix.VectorLength(), m.cs.Config.Dim)
	}
	if m.state != "filling" {
		for k, p := range m.probes {
			for _, ctx := range []core.QCtx{m.oldCtx, m.ix.Ctx()} {
				ids, ds := m.ask(p.v, k, ctx)
				if err := core.SameAnswer(p.ids, p.ds, ids, ds); err != nil {
					return fmt.Errorf("query %d is answered otherwise: %w", k, err)
				}
			}
		}
	}
	return m.directory()
}

func (m *machine) directory() error {
	l, err := os.ReadDir(m.c.Dir)
	core.Must(err)
	var got []string
	for _, e := range l {
		if e.Name() != "fresh" {
			got = append(got, e.Name())
		}
	}
	var want []string
	for n, f := range m.files {
		want = append(want, n)
		b, err := os.ReadFile(m.c.File(n))
		if err != nil {
			return fmt.Errorf("file %s: %w", n, err)
		}
		if !bytes.Equal(b, f.bytes) {
			return fmt.Errorf("file %s changed", n)
		}
	}
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("the directory holds %v, it should hold %v", got, want)
	}
	return nil
}

// likeFresh compares a saved file with the one of a fresh object that saw the valid calls only.
func (m *machine) likeFresh(saved []byte) error {
	if m.cs.Config.Multi && m.trees == -1 {
		return nil // the number of trees depends on the schedule
	}
	os.MkdirAll(m.c.File("fresh"), 0o755)
	ix := core.Open(m.cs.Config, nil)
	defer ix.Close()
	for _, a := range m.adds {
		ix.Add(a.id, a.v)
	}
	ix.Build(m.trees, m.work)
	path := filepath.Join(m.c.File("fresh"), "x")
	if err := ix.Save(path); err != nil {
		return fmt.Errorf("a fresh object cannot be saved: %w", err)
	}
	want, err := os.ReadFile(path)
	core.Must(err)
	m.fresh++
	if !m.cs.Config.Multi {
		if !bytes.Equal(want, saved) {
			return fmt.Errorf("the forest differs from that of a fresh object with the same items (%d and %d bytes)", len(saved), len(want))
		}
		return nil
	}
	if len(m.mod) == 0 {
		return nil
	}
	l := m.cs.Config.Layout()
	a, err := core.ParseForest(saved, l)
	if err != nil {
		return err
	}
	b, err := core.ParseForest(want, l)
	if err != nil {
		return fmt.Errorf("fresh object: %w", err)
	}
	x, y := a.Canonical(), b.Canonical()
	sort.Strings(x)
	sort.Strings(y)
	if fmt.Sprint(x) != fmt.Sprint(y) {
		return fmt.Errorf("the trees differ from those of a fresh object with the same items")
	}
	return nil
}

func run(c *core.Ctx, cs Case) error {
	m := &machine{c: c, cs: cs, ix: core.Open(cs.Config, nil), state: "filling", mod: core.Model{}, files: map[string]*content{}}
	c.Cleanup(func() { m.ix.Close() })
	refused, after, closed := 0, 0, 0
	refusal := func(what string) error {
		refused++
		c.Class("refused: %s (%s)", what, m.state)
		if err := m.observe(); err != nil {
			return fmt.Errorf("after the refused call: %w", err)
		}
		return nil
	}
	must := func(what string, f func()) error {
		if p, _ := core.Panics(f); !p {
			return fmt.Errorf("%s on an index in state %s is not refused", what, m.state)
		}
		return refusal(what)
	}
	add := func(op Op) error {
		for k := 0; k < op.N; k++ {
			a := added{op.ID + uint64(k), vec(cs.Config, op.Seed+uint64(k))}
			m.ix.Add(a.id, a.v)
			m.adds = append(m.adds, a)
			m.mod[a.id] = a.v
		}
		return nil
	}
	step := func(op Op) error {
		switch op.Op {
		case "add", "run":
			if op.Op == "add" {
				op.N = 1
			}
			if m.state != "filling" {
				return must("add", func() { m.ix.Add(op.ID, vec(cs.Config, op.Seed)) })
			}
			return add(op)
		case "addwrong":
			return must("add of a wrong length", func() { m.ix.AddLen(op.ID, op.Len) })
		case "querywrong":
			return must("query of a wrong length", func() { m.ix.QueryLen(op.Len, op.N, m.ix.Ctx()) })
		case "build":
			if m.state != "filling" {
				return must("build", func() { m.ix.Build(op.N, op.W) })
			}
			m.ix.Build(op.N, op.W)
			m.state, m.trees, m.work = "built", op.N, op.W
			m.settled()
			c.ClassIf(len(m.mod) == 0, "built without items")
		case "save":
			treeless := m.state == "built" && (m.trees == 0 || m.trees == -1 && len(m.mod) == 0)
			if m.state == "filling" || treeless {
				if err := m.ix.Save(c.File(op.File)); err == nil {
					return fmt.Errorf("an index that is not built or has no trees was saved")
				}
				c.ClassIf(treeless, "refused: save without trees")
				return refusal("save")
			}
			if err := m.ix.Save(c.File(op.File)); err != nil {
				return err
			}
			b, err := os.ReadFile(c.File(op.File))
			if err != nil {
				return err
			}
			f := &content{core.Model{}, b}
			for k, v := range m.mod {
				f.mod[k] = v
			}
			m.files[op.File] = f
			if m.state == "built" {
				if err := m.likeFresh(b); err != nil {
					return err
				}
			}
			m.state = "loaded"
			m.oldCtx = m.ix.Ctx()
		case "load":
			f := m.files[op.File]
			if f == nil {
				return nil
			}
			if err := m.ix.Load(c.File(op.File)); err != nil {
				return err
			}
			m.mod = core.Model{}
			for k, v := range f.mod {
				m.mod[k] = v
			}
			m.adds = nil
			m.state = "loaded"
			m.settled()
			// the answers are those of any other object
			o := core.Open(cs.Config, nil)
			defer o.Close()
			if err := o.Load(c.File(op.File)); err != nil {
				return fmt.Errorf("loading into a fresh object: %w", err)
			}
			for k, p := range m.probes {
				ids, ds := o.ByVector(p.v, 4, 2+7*k, o.Ctx())
				if err := core.SameAnswer(p.ids, p.ds, ids, ds); err != nil {
					return fmt.Errorf("query %d is answered otherwise than by a fresh object that loaded the same file: %w", k, err)
				}
			}
		case "close", "loadmissing":
			if op.Op == "close" {
				if err := m.ix.Close(); err != nil {
					return err
				}
			} else if err := m.ix.Load(c.File("missing")); err == nil {
				return fmt.Errorf("a missing file was loaded")
			}
			if m.state != "filling" || len(m.adds) > 0 {
				closed++
				c.Class("closed when %s", m.state)
			}
			m.state, m.mod, m.adds = "filling", core.Model{}, nil
		}
		return nil
	}
	for i, op := range cs.Ops {
		before := refused
		if err := step(op); err != nil {
			return fmt.Errorf("op %d %+v: %w", i, op, err)
		}
		if err := m.observe(); err != nil {
			return fmt.Errorf("after op %d %+v: %w", i, op, err)
		}
		if refused == before && (refused > 0 || closed > 0) && (op.Op == "build" || op.Op == "save" || op.Op == "load") {
			after++
		}
	}
	// however it ended, the object can be closed and used like a fresh one
	for i, op := range []Op{{Op: "close"}, {Op: "close"}, {Op: "run", N: 30, Seed: 7}, {Op: "build", N: 2, W: 2}, {Op: "save", File: "z"}} {
		if err := step(op); err != nil {
			return fmt.Errorf("closing op %d %+v: %w", i, op, err)
		}
		if err := m.observe(); err != nil {
			return fmt.Errorf("after closing op %d %+v: %w", i, op, err)
		}
	}
	if refused > 1 && after > 0 {
		c.NonTrivial()
	}
	return nil
}
