// Package c23 decides: any well-formed index file can be used, whoever wrote it.
package c23

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C23") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Case of C23.
type Case struct {
	core.Setup
	Foreign core.Foreign     `json:"foreign"`
	Junk    string           `json:"before"` // what the object held before
	Queries []core.QuerySpec `json:"queries"`
}

var _ = core.Sub("foreign", core.Spec[Case]{
	Quick: 14000, Thorough: 300000,
	Rule: "a file written by the harness: trees of any shape and depth, any normals, nodes and copies of the roots in any order, norms left out or " +
		"not; loaded, read, searched (unrestricted and under a budget), saved again; non-trivial: some tree has at least three splits",
	Gen: func(t *rapid.T) Case { return gen(t, core.DrawSetup, 6) },
	Run: run,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 48, Thorough: 1000,
	Rule: core.LargeRule + "otherwise as foreign",
	Gen:  func(t *rapid.T) Case { return gen(t, core.DrawLarge, 2) },
	Run:  run,
})

func gen(t *rapid.T, setup func(*rapid.T, core.Opt) core.Setup, queries int) Case {
	c := Case{Setup: setup(t, core.Opt{
		Metrics: []string{"angular", "angular", "angular", "dot"}, MaxDim: 64,
		Builder: true, Multi: true, GCMem: true, Rnd: true, Sorter: true, Hint: true,
	})}
	if c.Trees < 1 {
		c.Trees = 1 + rapid.IntRange(0, 40).Draw(t, "manytrees")
	}
	c.Foreign = core.DrawForeign(t)
	if c.Data.N > 5000 && (c.Foreign.Shape == "chain" || c.Foreign.Shape == "greedy" && c.Data.N/c.Config.Layout().K > 5000) {
		c.Foreign.Shape = "random"
	}
	c.Junk = rapid.SampledFrom([]string{"", "", "items", "built", "loaded"}).Draw(t, "before")
	for i, k := 0, rapid.IntRange(1, queries).Draw(t, "queries"); i < k; i++ {
		q := core.DrawQuery(t, c.Data.N, c.Trees)
		q.Budget = rapid.IntRange(1, 2+c.Data.N*max(1, min(3, c.Trees))).Draw(t, "limit")
		c.Queries = append(c.Queries, q)
	}
	return c
}

type answer struct {
	ids []uint64
	ds  []float64
}

func run(c *core.Ctx, cs Case) error {
	items := cs.Data.Items(cs.Config)
	mod := core.ModelOf(items)
	file := cs.Foreign.Write(cs.Config, items, cs.Trees)
	path := c.File("foreign.ann")
	core.Must(os.WriteFile(path, file, 0o644))
	f, err := core.ParseForest(file, cs.Config.Layout())
	if err == nil {
		err = f.Check(mod)
	}
	if err != nil {
		core.Infra("the file written by the harness is malformed: %v", err)
	}
	cs.Classes(c, len(items))
	c.Class("%s, %s", cs.Foreign.Shape, cs.Foreign.Order)
	c.Class("normals %s", cs.Foreign.Normals)
	for _, r := range f.Roots[:min(5, len(f.Roots))] {
		depth, splits, _ := f.Stats(r)
		if splits >= 3 {
			c.NonTrivial()
		}
		c.ClassIf(depth > 100, "deeper than 100")
	}

	ix := core.Open(cs.Config, nil)
	c.Cleanup(func() { ix.Close() })
	if cs.Junk != "" {
		for i, v := range cs.Data.MoreVecs(cs.Config, 5, 99) {
			ix.Add(uint64(i), v)
		}
		if cs.Junk != "items" {
			ix.Build(2, 1)
		}
		if cs.Junk == "loaded" {
			if err := ix.Save(c.File("junk.ann")); err != nil {
				return fmt.Errorf("save: %w", err)
			}
		}
	}
	if err := ix.Load(path); err != nil {
		return fmt.Errorf("load: %w", err)
	}
	m := core.MetricOf(cs.Config)
	for i, it := range items {
		if i > 3000 {
			break
		}
		if v := ix.Item(it.ID); !core.SameVec(v, it.V) {
			return fmt.Errorf("item %d is %v in the file, %v is read", it.ID, it.V, v)
		}
		o := items[(i*7+3)%len(items)]
		d, tol := m.D(it.V, o.V)
		if got := ix.Dist(it.ID, o.ID); !m.SameReported(got, d, tol) {
			return fmt.Errorf("distance of items %d and %d is %v, %v is reported", it.ID, o.ID, m.Reported(d), got)
		}
	}
	ctx := ix.Ctx()
	first, err := queries(ix, cs, items, mod, f, ctx)
	if err != nil {
		return fmt.Errorf("loaded: %w", err)
	}
	if err := ix.Save(c.File("again.ann")); err != nil {
		return fmt.Errorf("save: %w", err)
	}
	if b, err := os.ReadFile(c.File("again.ann")); err != nil || !bytes.Equal(b, file) {
		return fmt.Errorf("the file saved after loading has %d bytes and is not the one loaded, of %d bytes (%v)", len(b), len(file), err)
	}
	if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, file) {
		return fmt.Errorf("the file loaded has changed (%v)", err)
	}
	second, err := queries(ix, cs, items, mod, f, ix.Ctx())
	if err != nil {
		return fmt.Errorf("saved again: %w", err)
	}
	for i := range first {
		if err := core.SameAnswer(first[i].ids, first[i].ds, second[i].ids, second[i].ds); err != nil {
			return fmt.Errorf("answer %d differs once saved again: %w", i, err)
		}
	}
	return nil
}

func queries(ix core.Index, cs Case, items []core.ItemT, mod core.Model, f *core.Forest, ctx core.QCtx) (r []answer, err error) {
	m := core.MetricOf(cs.Config)
	for i, q := range cs.Queries {
		v := q.Vector(cs.Setup, items)
		exact := q
		exact.Budget = cs.Trees * (f.Nodes + f.K)
		ids, ds := exact.Ask(ix, cs.Setup, items, ctx)
		if err := m.Exact(mod, v, q.N, ids, ds); err != nil {
			return nil, fmt.Errorf("query %d (n=%d), budget unrestricted: %w", i, q.N, err)
		}
		r = append(r, answer{ids, ds})

		some := q
		some.N = len(mod) + 5
		ids, ds = some.Ask(ix, cs.Setup, items, ctx)
		if err := m.WellFormed(mod, v, some.N, ids, ds); err != nil {
			return nil, fmt.Errorf("query %d, budget %d: %w", i, q.Budget, err)
		}
		r = append(r, answer{ids, ds})
		must, may := f.BestFirst(cs.Config, v, q.Budget)
		got := map[uint64]bool{}
		for _, id := range ids {
			got[id] = true
			if !may[id] {
				return nil, fmt.Errorf("query %d, budget %d: item %d was inspected, the budget is spent on more promising leaves before (%d items were)",
					i, q.Budget, id, len(ids))
			}
		}
		for id := range must {
			if _, ok := mod[id]; ok && !got[id] {
				return nil, fmt.Errorf("query %d, budget %d: item %d is in one of the most promising leaves, but was not inspected (%d items were)",
					i, q.Budget, id, len(ids))
			}
		}
		if len(mod) == int(f.NItems) { // no fillers
			def := q
			def.Budget = -1
			ids, ds = def.Ask(ix, cs.Setup, items, ctx)
			if err := m.WellFormed(mod, v, q.N, ids, ds); err != nil {
				return nil, fmt.Errorf("query %d (n=%d), default budget: %w", i, q.N, err)
			}
			if want := max(0, min(q.N, len(mod))); len(ids) != want {
				return nil, fmt.Errorf("query %d (n=%d), default budget: %d results, want %d", i, q.N, len(ids), want)
			}
			r = append(r, answer{ids, ds})
		}
	}
	return r, nil
}
