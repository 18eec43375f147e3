// Package c13 decides: dot product indexes rank by inner product.
package c13

import (
	"fmt"
	"math"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C13") }
func TestCheck(t *testing.T) { core.RunAll(t) }

var _ = core.Sub("pairs", core.Spec[core.PairwiseCase]{
	Quick: 14000, Thorough: 400000,
	Rule: "two to nine related vectors (parallel, opposite, orthogonal, zero, near, of norms 1e-6 to 1e6): all pairwise distances and complete and " +
		"half searches, before and after building, saving and loading, against compensated float64 arithmetic; every case is non-trivial",
	Gen: func(t *rapid.T) core.PairwiseCase { return core.DrawPairwise(t, "dot", 9, 70000) },
	Run: core.RunPairwise,
})

// Case is an item set to search.
type Case struct {
	core.Setup
	Save    bool             `json:"save"`
	Reload  string           `json:"reload"` // "", same, other
	Queries []core.QuerySpec `json:"queries"`
}

var _ = core.Sub("search", core.Spec[Case]{
	Quick: 9000, Thorough: 250000,
	Rule: "item sets of all kinds, ids with gaps, forests of any number of trees and workers; unrestricted searches against brute force, built, saved " +
		"and loaded; non-trivial: the forest has at least one split and fewer results than items were asked for",
	Gen: genSearch(core.DrawSetup, 4), Run: runSearch,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 48, Thorough: 1200, Rule: core.LargeRule + "otherwise as search", Gen: genSearch(core.DrawLarge, 2), Run: runSearch,
})

func genSearch(setup func(*rapid.T, core.Opt) core.Setup, queries int) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Setup: setup(t, core.Opt{
			Metrics: []string{"dot"}, MaxDim: 300, MaxN: 2000, Multi: true, GCMem: true, Rnd: true, Sorter: true, Hint: true,
		})}
		if c.Data.Kind != "explicit" && c.Data.N <= 2000 && rapid.IntRange(0, 7).Draw(t, "beyond") == 0 {
			c.Data.Kind, c.Data.Amp = "beyond", 0
		}
		c.Save = rapid.Bool().Draw(t, "save")
		if c.Save {
			c.Reload = rapid.SampledFrom([]string{"", "same", "other"}).Draw(t, "reload")
		}
		for i, k := 0, rapid.IntRange(1, queries).Draw(t, "queries"); i < k; i++ {
			c.Queries = append(c.Queries, core.DrawQuery(t, c.Data.N, c.Trees))
		}
		return c
	}
}

func runSearch(c *core.Ctx, cs Case) error {
	ix, items, mod := cs.Setup.Built(c, nil)
	m := core.MetricOf(cs.Config)
	all := 1 << 40
	ask := func(when string) error {
		ctx := ix.Ctx()
		for i, q := range cs.Queries {
			q.Budget = all
			v := q.Vector(cs.Setup, items)
			ids, ds := q.Ask(ix, cs.Setup, items, ctx)
			if !representable(cs, v, mod) {
				c.Class("inner products beyond the range")
				continue
			}
			if err := m.Exact(mod, v, q.N, ids, ds); err != nil {
				return fmt.Errorf("%s, query %d (n=%d): %w", when, i, q.N, err)
			}
			if len(items) > cs.Config.Layout().K && len(ids) < len(items) && len(ids) > 0 {
				c.NonTrivial()
			}
		}
		for i := 0; i+1 < len(items) && i < 40; i++ {
			a, b := items[i], items[len(items)-1-i]
			d, tol := m.D(a.V, b.V)
			if _, abs := core.Dot(a.V, b.V); !(abs < largest(cs)/4) {
				continue
			}
			if got := ix.Dist(a.ID, b.ID); !m.SameReported(got, d, tol) {
				return fmt.Errorf("%s: the distance of items %d and %d is %v, their inner product %v", when, a.ID, b.ID, got, -d)
			}
		}
		return nil
	}
	cs.Setup.Classes(c, len(items))
	if err := ask("built"); err != nil || !cs.Save {
		return err
	}
	if err := ix.Save(c.File("a")); err != nil {
		return err
	}
	if err := ask("saved"); err != nil {
		return err
	}
	if err := completed(cs, c.File("a"), mod); err != nil {
		return err
	}
	switch cs.Reload {
	case "":
		return nil
	case "other":
		cf := cs.Config
		cf.GCMem = !cf.GCMem
		other := core.Open(cf, nil)
		c.Cleanup(func() { other.Close() })
		ix = other
	}
	if err := ix.Load(c.File("a")); err != nil {
		return err
	}
	c.Class("loaded %s", cs.Reload)
	return ask("loaded")
}

// largest number of the element type.
func largest(cs Case) float64 {
	if cs.Config.F64 {
		return math.MaxFloat64
	}
	return math.MaxFloat32
}

// representable: all inner products with v are numbers of the element type.
func representable(cs Case, v []float64, mod core.Model) bool {
	for _, w := range mod {
		if _, abs := core.Dot(v, w); !(abs < largest(cs)/4) {
			return false
		}
	}
	return true
}

// completed: the extra dimension of each item makes it as long as the longest one.
func completed(cs Case, file string, mod core.Model) error {
	f, err := core.ReadForest(file, cs.Config.Layout())
	if err != nil {
		return err
	}
	eps, tiny := math.Ldexp(1, -23), math.Ldexp(1, -126)
	if cs.Config.F64 {
		eps, tiny = math.Ldexp(1, -52), math.Ldexp(1, -1022)
	}
	square := func(v []float64) (s float64) {
		for _, x := range v {
			s += x * x
		}
		return s
	}
	longest := 0.0
	for _, v := range mod {
		longest = math.Max(longest, square(v))
	}
	if longest > largest(cs)/4 {
		return nil
	}
	dim := float64(cs.Config.Dim)
	for id, v := range mod {
		x := f.ExtraOf(id)
		if got := x*x + square(v); !(x >= 0) || math.Abs(got-longest) > longest*eps*4*(dim+16)+2*tiny*dim {
			return fmt.Errorf("the extra dimension of item %d is %v, its squared length with it %v, that of the longest %v", id, x, got, longest)
		}
	}
	return nil
}

// ObjectCase looks at the distance object.
type ObjectCase struct {
	Config core.Config    `json:"config"`
	Vecs   []core.VecSpec `json:"vecs"`
	Init   bool           `json:"init"`
	Pre    bool           `json:"pre"`
}

var _ = core.Sub("object", core.Spec[ObjectCase]{
	Quick: 30000, Thorough: 1000000,
	Rule: "the distance object on nodes in memory, before and after the preprocessing: distance, layout, vectors kept; non-trivial: an inner product " +
		"that is not zero",
	Gen: func(t *rapid.T) ObjectCase {
		c := ObjectCase{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"dot"}, MaxDim: 70000})}
		c.Vecs = core.DrawVecs(t, c.Config, 1, 6)
		c.Init = rapid.Bool().Draw(t, "init")
		c.Pre = rapid.Bool().Draw(t, "pre")
		return c
	},
	Run: func(c *core.Ctx, cs ObjectCase) error {
		switch {
		case cs.Config.F64 && cs.Config.U64:
			return object[float64, uint64](c, cs)
		case cs.Config.F64:
			return object[float64, uint32](c, cs)
		case cs.Config.U64:
			return object[float32, uint64](c, cs)
		}
		return object[float32, uint32](c, cs)
	},
})

func object[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs ObjectCase) error {
	cfg := cs.Config
	d := core.MakeDistance[TV, TIX](cfg)
	l := cfg.Layout()
	if int(d.NodeSize()) != l.NodeSize || int(d.MaxNumChildren()) != l.K || int(d.VectorLength()) != cfg.Dim {
		return fmt.Errorf("node size %d, room for %d children, dimension %d; expected %d, %d, %d", d.NodeSize(), d.MaxNumChildren(),
			d.VectorLength(), l.NodeSize, l.K, cfg.Dim)
	}
	vecs := cfg.Vecs(cs.Vecs)
	mem := make([]uint64, (len(vecs)+1)*l.NodeSize/8+2)
	ptr := unsafe.Pointer(&mem[0])
	node := func(i int) interfaces.Node[TV, TIX] { return d.MapNodeToMemory(ptr, TIX(i)) }
	for i, v := range vecs {
		n := node(i)
		if at := unsafe.Pointer(n.GetRawVector()); at != unsafe.Add(ptr, i*l.NodeSize+l.OffV) {
			return fmt.Errorf("vector of node %d lies %d bytes from the start, expected %d", i, uintptr(at)-uintptr(ptr), i*l.NodeSize+l.OffV)
		}
		n.SetVector(core.Conv[TV](v))
		n.SetNumberOfDescendants(1)
		if cs.Init {
			d.InitNode(n)
		}
	}
	if cs.Pre {
		d.PreProcess(ptr, TIX(len(vecs)))
	}
	m := core.MetricOf(cfg)
	for i := range vecs {
		for z, x := range node(i).GetVector(TIX(cfg.Dim)) {
			if float64(x) != vecs[i][z] {
				return fmt.Errorf("element %d of vector %d is %v, was %v", z, i, x, vecs[i][z])
			}
		}
		for j := range vecs {
			raw := d.Distance(node(i), node(j))
			want, tol := m.D(vecs[i], vecs[j])
			if got := float64(d.NormalizedDistance(raw)); !m.SameReported(got, want, tol) || math.Abs(float64(raw)-want) > tol {
				return fmt.Errorf("distance of vectors %d and %d is %v (raw %v), the inner product is %v", i, j, got, raw, -want)
			}
			if want != 0 {
				c.NonTrivial()
			}
		}
	}
	for z := len(vecs) * l.NodeSize; z < len(mem)*8; z++ {
		if *(*byte)(unsafe.Add(ptr, z)) != 0 {
			return fmt.Errorf("a byte behind the last node was written")
		}
	}
	c.Class(cfg.Types())
	c.ClassIf(cs.Pre, "preprocessed")
	return nil
}
