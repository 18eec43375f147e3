// Package c12 decides: the angular distance is a sound distance.
package c12

import (
	"fmt"
	"math"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C12") }
func TestCheck(t *testing.T) { core.RunAll(t) }

var _ = core.Sub("index", core.Spec[core.PairwiseCase]{
	Quick: 14000, Thorough: 400000,
	Rule: "two to nine related vectors (parallel, opposite, orthogonal, zero, near, of norms 1e-18 to 1e18 or, for float64, 1e-150 to 1e150): all pairwise distances and the distances of " +
		"queries, before and after building, saving and loading, against compensated float64 arithmetic; every case is non-trivial",
	Gen: func(t *rapid.T) core.PairwiseCase { return core.DrawPairwise(t, "angular", 9, 70000) },
	Run: core.RunPairwise,
})

// ObjectCase looks at the distance object.
type ObjectCase struct {
	Config core.Config    `json:"config"`
	Vecs   []core.VecSpec `json:"vecs"` // the first is the normal of the split
	Init   []bool         `json:"init"`
	Seed   uint64         `json:"seed"`
}

var _ = core.Sub("object", core.Spec[ObjectCase]{
	Quick: 30000, Thorough: 1000000,
	Rule: "the distance object on nodes in memory: distance with and without cached norms, scaling, margin, side, normalization, split; non-trivial: " +
		"neither vector is zero and the margin is decided",
	Gen: func(t *rapid.T) ObjectCase {
		c := ObjectCase{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"angular"}, MaxDim: 70000})}
		c.Config.Builder = false
		c.Vecs = core.DrawVecs(t, c.Config, 2, 6)
		for range c.Vecs {
			c.Init = append(c.Init, rapid.Bool().Draw(t, "init"))
		}
		c.Seed = core.DrawSeed(t, c.Config)
		return c
	},
	Run: runObject,
})

func runObject(c *core.Ctx, cs ObjectCase) error {
	switch {
	case cs.Config.F64 && cs.Config.U64:
		return object[float64, uint64](c, cs)
	case cs.Config.F64:
		return object[float64, uint32](c, cs)
	case cs.Config.U64:
		return object[float32, uint64](c, cs)
	}
	return object[float32, uint32](c, cs)
}

func object[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs ObjectCase) error {
	cfg := cs.Config
	d := core.MakeDistance[TV, TIX](cfg)
	l := cfg.Layout()
	if int(d.NodeSize()) != l.NodeSize || int(d.MaxNumChildren()) != l.K || int(d.VectorLength()) != cfg.Dim {
		return fmt.Errorf("node size %d, room for %d children, dimension %d; expected %d, %d, %d", d.NodeSize(), d.MaxNumChildren(),
			d.VectorLength(), l.NodeSize, l.K, cfg.Dim)
	}
	vecs := cfg.Vecs(cs.Vecs)
	mem := make([]uint64, (len(vecs)+2)*l.NodeSize/8+2)
	ptr := unsafe.Pointer(&mem[0])
	node := func(i int) interfaces.Node[TV, TIX] { return d.MapNodeToMemory(ptr, TIX(i)) }
	for i, v := range vecs {
		n := node(i)
		if at := unsafe.Pointer(n.GetRawVector()); at != unsafe.Add(ptr, i*l.NodeSize+l.OffV) {
			return fmt.Errorf("vector of node %d lies %d bytes from the start, expected %d", i, uintptr(at)-uintptr(ptr), i*l.NodeSize+l.OffV)
		}
		n.SetVector(core.Conv[TV](v))
		n.SetNumberOfDescendants(1)
		if cs.Init[i] {
			d.InitNode(n)
		}
	}
	m := core.MetricOf(cfg)
	u := cfg.U()
	for i := range vecs {
		for j := range vecs {
			raw := d.Distance(node(i), node(j))
			got := float64(d.NormalizedDistance(raw))
			want, tol := m.D(vecs[i], vecs[j])
			if !m.SameReported(got, want, tol) {
				return fmt.Errorf("distance of vectors %d and %d is %v (raw %v), expected %v", i, j, got, raw, m.Reported(want))
			}
			// the raw value decides the order
			if math.Abs(float64(raw)-want) > tol+8*u*want || math.IsNaN(float64(raw)) {
				return fmt.Errorf("raw distance of vectors %d and %d is %v, expected %v", i, j, raw, want)
			}
		}
	}
	// margin and side against the first vector as normal
	rnd := core.MakeRandom[TIX](cfg)
	n := node(0)
	for i := 1; i < len(vecs); i++ {
		v := core.Conv[TV](vecs[i])
		want, abs := core.Dot(vecs[0], vecs[i])
		tol := (float64(cfg.Dim)+4)*u*abs*1.1 + 2*float64(cfg.Dim)*cfg.Tiny()
		got := float64(d.Margin(n, v))
		if math.IsNaN(got) || math.Abs(got-want) > tol {
			return fmt.Errorf("margin of vector %d is %v, the inner product with the normal is %v", i, got, want)
		}
		if math.Abs(want) > tol {
			side := interfaces.SideLeft
			if want > 0 {
				side = interfaces.SideRight
			}
			for k := 0; k < 3; k++ {
				if s := d.Side(n, v, rnd); s != side {
					return fmt.Errorf("vector %d is put on side %d, the inner product with the normal is %v", i, s, want)
				}
			}
			c.NonTrivial()
			c.Class("side %d decided", side)
		} else if s := d.Side(n, v, rnd); s != interfaces.SideLeft && s != interfaces.SideRight {
			return fmt.Errorf("vector %d is put on side %d", i, s)
		} else {
			c.Class("side is open")
		}
	}
	if len(vecs) >= 3 {
		// a split of the others: normal of length one, or zero when there is no direction
		k := len(vecs)
		at := node(k)
		at.SetNumberOfDescendants(7)
		before := append([]uint64{}, mem...)
		var children []interfaces.Node[TV, TIX]
		for i := 1; i < k; i++ {
			d.InitNode(node(i))
			children = append(children, node(i))
		}
		copy(before, mem)
		d.CreateSplit(children, d.NodeSize(), rnd, at)
		for z := 0; z < k*l.NodeSize; z++ {
			if *(*byte)(unsafe.Add(ptr, z)) != *(*byte)(unsafe.Add(unsafe.Pointer(&before[0]), z)) {
				return fmt.Errorf("the split changed byte %d, which belongs to node %d of its input", z, z/l.NodeSize)
			}
		}
		for z := (k + 1) * l.NodeSize; z < len(mem)*8; z++ {
			if *(*byte)(unsafe.Add(ptr, z)) != 0 {
				return fmt.Errorf("the split wrote %d bytes behind its node", z-(k+1)*l.NodeSize)
			}
		}
		var norm float64
		for _, x := range at.GetVector(TIX(cfg.Dim)) {
			if math.IsNaN(float64(x)) {
				return fmt.Errorf("the normal of a split has an element that is not a number")
			}
			norm += float64(x) * float64(x)
		}
		if norm != 0 && math.Abs(norm-1) > 4*(float64(cfg.Dim)+16)*u {
			return fmt.Errorf("the normal of a split has the squared length %v", norm)
		}
	}
	// normalization keeps the direction
	for i := range vecs {
		x := node(i)
		d.Normalize(x)
		var norm float64
		w := make([]float64, cfg.Dim)
		for z, e := range x.GetVector(TIX(cfg.Dim)) {
			w[z] = float64(e)
			norm += w[z] * w[z]
		}
		zero, _ := core.Dot(vecs[i], vecs[i])
		if zero == 0 {
			if norm != 0 {
				return fmt.Errorf("normalizing the zero vector gives %v", w)
			}
			continue
		}
		if math.Abs(norm-1) > 4*(float64(cfg.Dim)+16)*u {
			return fmt.Errorf("normalized vector %d has the squared length %v", i, norm)
		}
		for z := range w {
			want := vecs[i][z] / math.Sqrt(zero)
			if math.Abs(w[z]-want) > (float64(cfg.Dim)+16)*u*math.Abs(want)+0x1p-140 {
				return fmt.Errorf("normalized vector %d has the element %v, expected %v", i, w[z], want)
			}
		}
	}
	c.Class(cfg.Types())
	return nil
}

// RawCase is a pair for the laws of the distance.
type RawCase struct {
	Config core.Config    `json:"config"`
	Pair   []core.VecSpec `json:"pair"`
	Exp    int            `json:"exp"`
}

var _ = core.Sub("laws", core.Spec[RawCase]{
	Quick: 30000, Thorough: 1000000,
	Rule: "a pair of vectors and a factor: symmetry, range, scaling by a positive and a negative factor, distance to itself; compared with each other " +
		"only, no reference; non-trivial: neither vector is zero",
	Gen: func(t *rapid.T) RawCase {
		c := RawCase{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"angular"}, MaxDim: 70000})}
		c.Pair = core.DrawVecs(t, c.Config, 2, 2)
		c.Exp = rapid.IntRange(-60, 60).Draw(t, "exp")
		return c
	},
	Run: runLaws,
})

func runLaws(c *core.Ctx, cs RawCase) error {
	cfg := cs.Config
	v := cfg.Vecs(cs.Pair)
	a, b := v[0], v[1]
	aa, _ := core.Dot(a, a)
	bb, _ := core.Dot(b, b)
	f := math.Ldexp(1, cs.Exp)
	limit := 1e36
	if cfg.F64 {
		limit = 1e300
	}
	if aa*f*f > limit || aa*f*f < 1/limit {
		f = 1
	}
	scaled, minus := make([]float64, len(a)), make([]float64, len(a))
	for z := range a {
		scaled[z] = cfg.Round(a[z] * f)
		minus[z] = -a[z]
	}
	ix := core.Open(cfg, nil)
	c.Cleanup(func() { ix.Close() })
	for i, x := range [][]float64{a, b, scaled, minus} {
		ix.Add(uint64(i), x)
	}
	tol := (8*float64(cfg.Dim) + 40) * cfg.U()
	sq := func(i, j uint64) float64 { d := ix.Dist(i, j); return d * d }
	near := func(x, y float64) bool { return math.Abs(x-y) <= tol }
	for i := uint64(0); i < 4; i++ {
		for j := uint64(0); j < 4; j++ {
			d := ix.Dist(i, j)
			if !(d >= 0 && d*d <= 4+tol) {
				return fmt.Errorf("the distance of %d and %d is %v", i, j, d)
			}
			if !near(sq(i, j), sq(j, i)) {
				return fmt.Errorf("distance %v from %d to %d, %v back", d, i, j, ix.Dist(j, i))
			}
		}
	}
	if aa == 0 || bb == 0 {
		if !near(sq(0, 1), 2) {
			return fmt.Errorf("distance %v from or to the zero vector", ix.Dist(0, 1))
		}
	}
	if aa == 0 {
		return nil
	}
	if !near(sq(0, 0), 0) || !near(sq(0, 2), 0) {
		return fmt.Errorf("distance %v to itself, %v to itself times %v", ix.Dist(0, 0), ix.Dist(0, 2), f)
	}
	if !near(sq(0, 3), 4) {
		return fmt.Errorf("distance %v to the opposite vector", ix.Dist(0, 3))
	}
	if !near(sq(0, 1), sq(2, 1)) {
		return fmt.Errorf("distance %v, but %v when the vector is scaled by %v", ix.Dist(0, 1), ix.Dist(2, 1), f)
	}
	if bb != 0 {
		if !near(sq(0, 1)+sq(3, 1), 4) {
			return fmt.Errorf("distances %v and %v to a vector and its opposite", ix.Dist(0, 1), ix.Dist(3, 1))
		}
		c.NonTrivial()
	}
	c.Class(cfg.Types())
	return nil
}
