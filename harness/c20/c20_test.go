// Package c20 decides: any conforming custom distance, sorter, random or policy just works.
package c20

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C20") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Plugs says which plug-ins an index is made of: plain data.
type Plugs struct {
	Random string `json:"random"`
	Sorter string `json:"sorter"`
	Policy string `json:"policy"` // single, multi, seq, threads, exclusive, sched
	Alloc  string `json:"alloc"`  // lib, guard, buf
	Files  string `json:"files"`  // mmap, gcmem, guard, read
}

// Case of C20.
type Case struct {
	Config   core.Config      `json:"config"`
	Data     core.Data        `json:"data"`
	Dist     Spec             `json:"dist"`
	Plugs    Plugs            `json:"plugs"`
	Loader   Plugs            `json:"loader"` // what the index that loads the file is made of
	Again    int              `json:"again,omitempty"`
	Shares   []int            `json:"shares"`
	IDs      []int            `json:"ids"`
	Schedule core.Schedule    `json:"schedule"`
	Queries  []core.QuerySpec `json:"queries"`
}

func drawPlugs(t *rapid.T) Plugs {
	return Plugs{
		Random: rapid.SampledFrom([]string{"kiss", "go", "xorshift", "counter", "biased", "short", "first", "last"}).Draw(t, "random"),
		Sorter: rapid.SampledFrom([]string{"", "values", "select", "user", "std", "lib2", "lib3"}).Draw(t, "sorter"),
		Policy: rapid.SampledFrom([]string{"single", "multi", "seq", "seq", "threads", "exclusive", "sched"}).Draw(t, "policy"),
		Alloc:  rapid.SampledFrom([]string{"lib", "guard", "buf"}).Draw(t, "alloc"),
		Files:  rapid.SampledFrom([]string{"mmap", "gcmem", "guard", "read"}).Draw(t, "files"),
	}
}

var _ = core.Sub("plugins", core.Spec[Case]{
	Quick: 30000, Thorough: 600000,
	Rule: "distance (6 functions, 5 ways to split, 3 priorities, 3 reported scales, 3 node layouts, any node capacity from 2) x generator (8) x sorter (7) x " +
		"policy (6) x allocators, all checking how they are called, x item set; queried when built, saved and loaded by an index of other plug-ins; " +
		"the oracle is the distance itself, bit for bit; non-trivial: at least one split, a distance or policy that is not of the library",
	Gen: func(t *rapid.T) Case {
		c := Case{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"euclid"}, MaxDim: 40, Hint: true, Verbose: true})}
		c.Config.Metric = "custom"
		c.Dist = Spec{
			Fn:    rapid.SampledFrom([]string{"l1", "l2sq", "linf", "hamming", "weighted", "discrete"}).Draw(t, "fn"),
			Norm:  rapid.SampledFrom([]string{"id", "sqrt", "affine"}).Draw(t, "norm"),
			Split: rapid.SampledFrom([]string{"twomeans", "axis", "proj", "lopsided", "blind"}).Draw(t, "split"),
			PQ:    rapid.SampledFrom([]string{"min", "min", "level", "flat"}).Draw(t, "pq"),
			Init:  rapid.SampledFrom([]string{"inf", "inf", "max", "zero"}).Draw(t, "init"),
			Head:  rapid.IntRange(0, 2).Draw(t, "head"),
			K:     rapid.SampledFrom([]int{0, 0, 2, 2, 3, 5, 9}).Draw(t, "k"),
			Tie:   rapid.SampledFrom([]string{"random", "left"}).Draw(t, "tie"),
		}
		c.Data = core.DrawData(t, c.Config, core.Opt{MaxN: 400, MaxCells: 6000})
		if c.Config.Verbose && c.Data.N > 60 {
			c.Config.Verbose = false
		}
		c.Plugs, c.Loader = drawPlugs(t), drawPlugs(t)
		if rapid.IntRange(0, 2).Draw(t, "overwrite") == 0 {
			c.Again = rapid.IntRange(1, 20).Draw(t, "again")
		}
		w := rapid.SampledFrom([]int{1, 1, 2, 3, 4}).Draw(t, "nworkers")
		auto := rapid.IntRange(0, 9).Draw(t, "auto") == 0
		for i := 0; i < w; i++ {
			n := -1
			if !auto {
				n = rapid.IntRange(0, 3).Draw(t, "share")
			}
			c.Shares = append(c.Shares, n)
			// any numbering of the workers
			c.IDs = append(c.IDs, i*rapid.IntRange(1, 3).Draw(t, "step")+rapid.IntRange(0, 1).Draw(t, "from"))
		}
		if !auto && c.Shares[w-1] == 0 {
			c.Shares[w-1] = 1
		}
		c.Schedule = core.Schedule{
			Kind: rapid.SampledFrom([]string{"random", "pct", "robin"}).Draw(t, "schedule"),
			Seed: rapid.Uint64().Draw(t, "schedseed"), P: rapid.IntRange(1, 40).Draw(t, "p"), WriterFirst: rapid.Bool().Draw(t, "writerfirst"),
		}
		for i, k := 0, rapid.IntRange(1, 4).Draw(t, "queries"); i < k; i++ {
			c.Queries = append(c.Queries, core.DrawQuery(t, c.Data.N, 3))
		}
		return c
	},
	Run: func(c *core.Ctx, cs Case) error {
		switch {
		case cs.Config.F64 && cs.Config.U64:
			return run[float64, uint64](c, cs)
		case cs.Config.F64:
			return run[float64, uint32](c, cs)
		case cs.Config.U64:
			return run[float32, uint64](c, cs)
		}
		return run[float32, uint32](c, cs)
	},
})

// world is an index with its plug-ins.
type world[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	cs    Case
	ix    core.Index
	b     *broken
	d     tested
	count int
	items []core.ItemT
	mod   core.Model
	vecs  map[uint64][]TV
	trees int
	own   *seqPolicy
}

func open[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs Case, p Plugs, items []core.ItemT) *world[TV, TIX] {
	w := &world[TV, TIX]{cs: cs, b: &broken{}, items: items, mod: core.ModelOf(items), vecs: map[uint64][]TV{}}
	for id, v := range w.mod {
		w.vecs[id] = conv[TV](v)
	}
	for _, n := range cs.Shares {
		if n == -1 {
			w.trees = -1
			break
		}
		w.trees += n
	}
	w.count = len(w.mod)
	if w.count < cs.Config.Dim {
		w.count = cs.Config.Dim // the distance of this check draws axes
	}
	plug := &core.Plug{
		Distance: makeDist[TV, TIX](cs.Dist, cs.Config.Dim, w.b),
		Random:   makeGen[TIX](p.Random, cs.Config, w.b, &w.count),
		Sorter:   makeSorter[TV, TIX](p.Sorter, w.b),
	}
	w.d = plug.Distance.(tested)
	w.d.expect(len(w.mod), 0)
	cf := cs.Config
	seq := seqPolicy{b: w.b, shares: cs.Shares, ids: cs.IDs, trees: w.trees}
	switch p.Policy {
	case "multi":
		cf.Multi = true
	case "seq":
		w.own = &seq
		plug.Policy = w.own
	case "threads", "exclusive":
		t := &threadPolicy{exclusive: p.Policy == "exclusive"}
		t.b, t.shares, t.ids, t.trees = seq.b, seq.shares, seq.ids, seq.trees
		w.own = &t.seqPolicy
		plug.Policy = t
	case "sched":
		s := core.NewSched(cs.Schedule)
		s.Shares = cs.Shares
		plug.Policy = s
	}
	switch p.Alloc {
	case "guard":
		g := &core.GuardAllocator{AtStart: cs.Data.Seed%2 == 0}
		c.Cleanup(g.Release)
		plug.BuildAlloc = g
	case "buf":
		plug.BuildAlloc = &bufAlloc{b: w.b}
	}
	switch p.Files {
	case "gcmem":
		cf.GCMem = true
	case "guard":
		g := &core.GuardFiles{AtStart: cs.Data.Seed%2 == 1}
		c.Cleanup(g.Release)
		plug.FileAlloc = g
	case "read":
		plug.FileAlloc = &readAlloc{w.b}
	}
	w.ix = core.Open(cf, plug)
	c.Cleanup(func() { w.ix.Close() })
	return w
}

func conv[TV interfaces.VectorType](v []float64) []TV {
	r := make([]TV, len(v))
	for i, x := range v {
		r[i] = TV(x)
	}
	return r
}

func run[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs Case) error {
	items := cs.Data.Items(cs.Config)
	w := open[TV, TIX](c, cs, cs.Plugs, items)

	c.Class("%s %s", cs.Dist.Fn, cs.Config.Types())
	c.Class("split %s", cs.Dist.Split)
	c.Class("random %s", cs.Plugs.Random)
	c.Class("sorter %s", cs.Plugs.Sorter)
	c.Class("policy %s", cs.Plugs.Policy)
	c.Class("allocators %s %s", cs.Plugs.Alloc, cs.Plugs.Files)

	for i := 0; i < cs.Again && i < len(items); i++ {
		w.ix.Add(items[i].ID, items[len(items)-1-i].V)
	}
	for _, it := range items {
		w.ix.Add(it.ID, it.V)
	}
	w.ix.Build(w.trees, len(cs.Shares))
	if err := w.b.err(); err != nil {
		return fmt.Errorf("while building: %w", err)
	}
	prepares, splits := w.d.stats()
	if prepares != 1 {
		return fmt.Errorf("PreProcess is called %d times for one build", prepares)
	}
	if w.own != nil && w.own.builds != 1 {
		return fmt.Errorf("the policy is asked to build %d times", w.own.builds)
	}
	if splits > 0 {
		c.NonTrivial()
	}
	if err := w.check("after build"); err != nil {
		return err
	}

	path := c.File("a.ann")
	if err := w.ix.Save(path); err != nil {
		return fmt.Errorf("save: %w", err)
	}
	f, err := core.ReadForest(path, w.d.layout())
	if err != nil {
		return err
	}
	if err := f.Check(w.mod); err != nil {
		return fmt.Errorf("saved forest: %w", err)
	}
	if w.trees >= 0 && f.Trees != w.trees {
		return fmt.Errorf("%d trees, asked for %d", f.Trees, w.trees)
	}
	if err := w.check("after save"); err != nil {
		return err
	}
	o := open[TV, TIX](c, cs, cs.Loader, items)
	if err := o.ix.Load(path); err != nil {
		return fmt.Errorf("load: %w", err)
	}
	return o.check("when loaded by another index")
}

// check asks all queries, as drawn and without restriction.
func (w *world[TV, TIX]) check(when string) error {
	cs := w.cs
	ctx := w.ix.Ctx()
	s := core.Setup{Config: cs.Config, Data: cs.Data}
	for i, q := range cs.Queries {
		v := conv[TV](q.Vector(s, w.items))
		ids, ds := q.Ask(w.ix, s, w.items, ctx)
		if err := w.answer(v, q.N, q.Budget == -1, false, ids, ds); err != nil {
			return fmt.Errorf("query %d %s (n=%d, budget %d): %w", i, when, q.N, q.Budget, err)
		}
		q.Budget = math.MaxInt
		ids, ds = q.Ask(w.ix, s, w.items, ctx)
		if err := w.answer(v, q.N, true, true, ids, ds); err != nil {
			return fmt.Errorf("unrestricted query %d %s (n=%d): %w", i, when, q.N, err)
		}
	}
	for i, it := range w.items {
		if i > 20 {
			break
		}
		o := w.items[(i*7+1)%len(w.items)]
		if got := w.ix.Item(it.ID); !core.SameVec(got, w.mod[it.ID]) {
			return fmt.Errorf("item %d reads %v %s, %v was added", it.ID, got, when, w.mod[it.ID])
		}
		want := float64(norm(cs.Dist.Norm, fn(cs.Dist.Fn, w.vecs[it.ID], w.vecs[o.ID])))
		if got := w.ix.Dist(it.ID, o.ID); got != want {
			return fmt.Errorf("distance of items %d and %d is %v %s, want %v", it.ID, o.ID, got, when, want)
		}
	}
	if err := w.b.err(); err != nil {
		return fmt.Errorf("%s: %w", when, err)
	}
	return nil
}

// answer checks one answer; full: as many results as asked for, exact: the nearest ones.
func (w *world[TV, TIX]) answer(q []TV, n int, full, exact bool, ids []uint64, ds []float64) error {
	if n < 0 {
		n = 0
	}
	want := n
	if want > len(w.mod) {
		want = len(w.mod)
	}
	if len(ids) != len(ds) {
		return fmt.Errorf("%d results, %d distances", len(ids), len(ds))
	}
	if len(ids) > want || (full && len(ids) != want) {
		return fmt.Errorf("%d results for n=%d among %d items", len(ids), n, len(w.mod))
	}
	seen := map[uint64]bool{}
	var last TV
	raw := make([]TV, len(ids))
	for i, id := range ids {
		v, ok := w.vecs[id]
		if !ok {
			return fmt.Errorf("item %d was never added", id)
		}
		if seen[id] {
			return fmt.Errorf("item %d is returned twice", id)
		}
		seen[id] = true
		d := fn(w.cs.Dist.Fn, q, v)
		raw[i] = d
		if got, want := ds[i], float64(norm(w.cs.Dist.Norm, d)); got != want {
			return fmt.Errorf("item %d is reported at %v, it is at %v", id, got, want)
		}
		if i > 0 && d < last {
			return fmt.Errorf("result %d at %v comes before result %d at %v", i-1, last, i, d)
		}
		last = d
	}
	if !exact {
		return nil
	}
	all := make([]float64, 0, len(w.vecs))
	for _, v := range w.vecs {
		all = append(all, float64(fn(w.cs.Dist.Fn, q, v)))
	}
	sort.Float64s(all)
	for i := range raw {
		if float64(raw[i]) != all[i] {
			return fmt.Errorf("result %d, item %d, is at %v, the %d nearest lie within %v", i, ids[i], raw[i], i+1, all[i])
		}
	}
	return nil
}
