// Package c04 decides: a limited budget is spent on the most promising regions first.
package c04

import (
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C04") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Case of C04.
type Case struct {
	core.Setup
	Queries []core.QuerySpec `json:"queries"`
	Loaded  bool             `json:"loaded"`
}

func gen(t *rapid.T) Case { return draw(t, core.DrawSetup, 8) }

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 48, Thorough: 1200,
	Rule: core.LargeRule + "otherwise as bestfirst and budgetlaws",
	Gen:  func(t *rapid.T) Case { return draw(t, core.DrawLarge, 3) },
	Run: func(c *core.Ctx, cs Case) error {
		if err := bestFirst(c, cs); err != nil {
			return err
		}
		return laws(c, cs)
	},
})

func draw(t *rapid.T, setup func(*rapid.T, core.Opt) core.Setup, queries int) Case {
	c := Case{Setup: setup(t, core.Opt{
		Metrics: []string{"angular", "angular", "angular", "dot"}, MaxDim: 64,
		Builder: true, Multi: true, GCMem: true, Rnd: true, Sorter: true, MinN: 12,
	})}
	for i, k := 0, rapid.IntRange(1, queries).Draw(t, "queries"); i < k; i++ {
		q := core.DrawQuery(t, c.Data.N, c.Trees)
		q.Budget = rapid.IntRange(0, 2+c.Data.N*max(1, min(3, c.Trees))).Draw(t, "limit")
		c.Queries = append(c.Queries, q)
	}
	c.Loaded = rapid.Bool().Draw(t, "loaded")
	return c
}

var _ = core.Sub("bestfirst", core.Spec[Case]{
	Quick: 12000, Thorough: 300000,
	Rule: "index x queries x explicit budgets; the leaves that must and may be inspected are computed from the saved file, " +
		"the items found are compared with them; non-trivial: some item must be found and some must not",
	Gen: gen, Run: bestFirst,
})

var _ = core.Sub("budgetlaws", core.Spec[Case]{
	Quick: 8000, Thorough: 200000,
	Rule: "index x queries x pairs of budgets and of n: more budget is never worse, fewer results are a prefix; " +
		"non-trivial: the two answers differ",
	Gen: gen, Run: laws,
})

var _ = core.Sub("self", core.Spec[Case]{
	Quick: 4000, Thorough: 100000,
	Rule: "every indexed vector with no degenerate split on its path in some tree asks for its nearest neighbour with the default budget; " +
		"non-trivial: at least 10 such items in forests with splits",
	Gen: func(t *rapid.T) Case {
		c := gen(t)
		c.Config.Metric = "angular"
		return c
	},
	Run: self,
})

// RecallCase of C04.
type RecallCase struct {
	core.Setup
}

var _ = core.Sub("recall", core.Spec[RecallCase]{
	Quick: 112, Thorough: 1400,
	Rule: "10 nearest of 30 random queries among 600..1200 random items in 10 trees, default budget; every case is non-trivial",
	Gen: func(t *rapid.T) RecallCase {
		s := core.Setup{Trees: 10, Workers: 1}
		s.Config = core.Config{
			F64: rapid.Bool().Draw(t, "f64"), U64: rapid.Bool().Draw(t, "u64"), Metric: rapid.SampledFrom([]string{"angular", "angular", "angular", "dot", "dot", "euclid", "manhattan"}).Draw(t, "metric"),
			Dim: rapid.IntRange(4, 24).Draw(t, "dim"), Builder: rapid.Bool().Draw(t, "builder"),
			Multi: rapid.Bool().Draw(t, "multi"),
		}
		s.Config.Seed = core.DrawSeed(t, s.Config)
		s.Data = core.Data{Kind: "gauss", Seed: rapid.Uint64().Draw(t, "dataseed"), N: rapid.IntRange(600, 1200).Draw(t, "n"), IDs: "dense"}
		if s.Config.Multi {
			s.Workers = rapid.IntRange(1, 6).Draw(t, "workers")
		}
		s.Config.Builder = s.Config.Builder && s.Config.Metric == "angular"
		return RecallCase{s}
	},
	Run: recall,
})

// ------------------------------------------------------------------------------------

func bestFirst(c *core.Ctx, cs Case) error {
	ix, items, mod := cs.Built(c, nil)
	cs.Classes(c, len(items))
	built := ix
	if cs.Loaded {
		// the answers of the index before saving are taken from a twin in memory
		built = nil
	}
	type ans struct {
		ids []uint64
	}
	var before []ans
	m := core.MetricOf(cs.Config)
	all := len(mod) + 5
	if built != nil {
		ctx := ix.Ctx()
		for _, q := range cs.Queries {
			q.N = all
			ids, _ := q.Ask(ix, cs.Setup, items, ctx)
			before = append(before, ans{ids})
		}
	}
	f, err := cs.Saved(ix, c.File("x.ann"))
	if err != nil {
		return err
	}
	if err := f.Check(mod); err != nil {
		return fmt.Errorf("malformed forest: %w", err)
	}
	ctx := ix.Ctx()
	for i, q := range cs.Queries {
		q.N = all
		var ids []uint64
		if built != nil {
			ids = before[i].ids
		} else {
			ids, _ = q.Ask(ix, cs.Setup, items, ctx)
		}
		v := q.Vector(cs.Setup, items)
		must, may := f.BestFirst(cs.Config, v, q.Budget)
		got := map[uint64]bool{}
		for _, id := range ids {
			got[id] = true
		}
		nmust, nmay := 0, 0
		for id, vec := range mod {
			d, _ := m.D(v, vec)
			if must[id] {
				nmust++
				if !got[id] {
					return fmt.Errorf("query %d, budget %d: item %d (at %v) is in one of the most promising leaves, but was not inspected (%d items were)",
						i, q.Budget, id, m.Reported(d), len(ids))
				}
			}
			if may[id] {
				nmay++
			} else if got[id] {
				return fmt.Errorf("query %d, budget %d: item %d (at %v) was inspected, the budget is spent on more promising leaves before (%d items were)",
					i, q.Budget, id, m.Reported(d), len(ids))
			}
		}
		c.ClassIf(q.Budget == 0, "budget 0")
		if nmust > 0 && nmay < len(mod) {
			c.NonTrivial()
		}
		c.ClassIf(nmust == nmay, "order fully determined")
	}
	return nil
}

func laws(c *core.Ctx, cs Case) error {
	ix, items, mod := cs.Built(c, nil)
	cs.Classes(c, len(items))
	if cs.Loaded {
		if err := ix.Save(c.File("x.ann")); err != nil {
			return err
		}
	}
	m := core.MetricOf(cs.Config)
	ctx := ix.Ctx()
	for i, q := range cs.Queries {
		if q.N > len(mod)+5 {
			q.N = len(mod) + 5
		}
		more := q
		more.Budget = q.Budget + 1 + i*q.Budget/2
		ids1, ds1 := q.Ask(ix, cs.Setup, items, ctx)
		ids2, ds2 := more.Ask(ix, cs.Setup, items, ctx)
		if len(ids2) < len(ids1) {
			return fmt.Errorf("query %d: %d results with budget %d, %d with %d", i, len(ids1), q.Budget, len(ids2), more.Budget)
		}
		for k := range ds1 {
			if m.Key(ds2[k]) > m.Key(ds1[k]) {
				return fmt.Errorf("query %d: result %d is at %v with budget %d, at %v with %d", i, k, ds1[k], q.Budget, ds2[k], more.Budget)
			}
		}
		if core.SameAnswer(ids1, ds1, ids2, ds2) != nil {
			c.NonTrivial()
		}
		if q.N >= 1 && cs.Trees >= 1 {
			// the default budget
			def, spelt := q, q
			def.Budget, spelt.Budget = -1, q.N*cs.Trees
			ids4, ds4 := def.Ask(ix, cs.Setup, items, ctx)
			ids5, ds5 := spelt.Ask(ix, cs.Setup, items, ctx)
			if err := core.SameAnswer(ids5, ds5, ids4, ds4); err != nil {
				return fmt.Errorf("query %d: with the default budget the answer for n=%d is not that with a budget of n * %d trees: %w", i, q.N, cs.Trees, err)
			}
			c.ClassIf(q.N*cs.Trees < len(mod), "default budget of a part of the items")
		}
		fewer := q
		fewer.N = q.N / (2 + i%3)
		ids3, ds3 := fewer.Ask(ix, cs.Setup, items, ctx)
		if want := min(max(0, fewer.N), len(ids1)); len(ids3) != want {
			return fmt.Errorf("query %d: %d results for n=%d, %d for n=%d under the same budget %d", i, len(ids1), q.N, len(ids3), fewer.N, q.Budget)
		}
		if err := core.SameAnswer(ids3, ds3, ids1[:len(ids3)], ds1[:len(ids3)]); err != nil {
			return fmt.Errorf("query %d: the answer for n=%d is no prefix of that for n=%d under the same budget %d: %w", i, fewer.N, q.N, q.Budget, err)
		}
	}
	return nil
}

func self(c *core.Ctx, cs Case) error {
	ix, items, mod := cs.Built(c, nil)
	cs.Classes(c, len(items))
	f, err := cs.Saved(ix, c.File("x.ann"))
	if err != nil {
		return err
	}
	if err := f.Check(mod); err != nil {
		return fmt.Errorf("malformed forest: %w", err)
	}
	m := core.MetricOf(cs.Config)
	// items with a clear margin all the way down some tree
	clear := map[uint64]bool{}
	if len(mod) > 1 {
		for _, root := range f.Roots {
			for id := range mod {
				if ok, splits := follow(f, cs.Config, root, id, mod[id]); ok && splits > 0 {
					clear[id] = true
				}
			}
		}
	}
	ctx := ix.Ctx()
	n := 0
	for _, it := range items {
		if !clear[it.ID] {
			continue
		}
		if n++; n > 60 {
			break
		}
		ids, ds := ix.ByItem(it.ID, 1, -1, ctx)
		if len(ids) != 1 {
			return fmt.Errorf("item %d asks for its nearest neighbour: %d results", it.ID, len(ids))
		}
		d, tol := m.D(it.V, it.V)
		d2, tol2 := m.D(it.V, mod[ids[0]])
		if ids[0] != it.ID && d2 > d+tol+tol2 {
			return fmt.Errorf("item %d finds item %d at %v instead of itself", it.ID, ids[0], ds[0])
		}
		if k := min(3, len(mod)); true {
			ids, _ := ix.ByItem(it.ID, k, -1, ctx)
			best := math.Inf(1)
			for _, id := range ids {
				d, _ := m.D(it.V, mod[id])
				best = math.Min(best, d)
			}
			if best > d+2*tol {
				return fmt.Errorf("item %d does not find itself among %d results %v", it.ID, k, ids)
			}
		}
	}
	if n >= 10 {
		c.NonTrivial()
	}
	c.Class("%d0 or more items asked", n/10)
	return nil
}

// follow goes down where v lies and reports whether id is in the leaf reached with no
// margin in doubt.
func follow(f *core.Forest, cf core.Config, i, id uint64, v []float64) (bool, int) {
	splits := 0
	for {
		switch f.Kind(i) {
		case core.Item:
			return i == id, splits
		case core.Empty:
			return false, splits
		case core.List:
			for k := 0; k < int(f.Desc(i)); k++ {
				if f.Child(i, k) == id {
					return true, splits
				}
			}
			return false, splits
		}
		m, tol := f.MarginOf(cf, i, v)
		if math.Abs(m) <= 2*tol {
			return false, splits
		}
		splits++
		if m > 0 {
			i = f.Child(i, 1)
		} else {
			i = f.Child(i, 0)
		}
	}
}

func recall(c *core.Ctx, cs RecallCase) error {
	ix, _, mod := cs.Built(c, nil)
	c.NonTrivial()
	m := core.MetricOf(cs.Config)
	const n = 10
	hits, inspected := 0, 0
	qs := cs.Data.MoreVecs(cs.Config, 30, 77)
	ctx := ix.Ctx()
	for _, q := range qs {
		ids, _ := ix.ByVector(q, n, -1, ctx)
		cand, _ := ix.ByVector(q, len(mod), n*cs.Trees, ctx)
		inspected += len(cand)
		got := map[uint64]bool{}
		for _, id := range ids {
			got[id] = true
		}
		for _, id := range m.Truth(mod, q)[:n] {
			if got[id] {
				hits++
			}
		}
	}
	r := float64(hits) / float64(len(qs)*n)
	chance := float64(inspected) / float64(len(qs)*len(mod))
	c.Class("%s, dim %d-%d: recall %.1f", cs.Config.Metric, cs.Config.Dim/6*6, cs.Config.Dim/6*6+5, r)
	// measured means are 0.98, 0.88, 0.77, 0.70, 0.63 with a deviation of 0.05
	floor := 0.36
	switch d := cs.Config.Dim; {
	case d <= 6:
		floor = 0.75
	case d <= 10:
		floor = 0.62
	case d <= 14:
		floor = 0.5
	case d <= 18:
		floor = 0.42
	}
	least := 2.0
	if cs.Config.Metric != "angular" {
		// measured: at least 0.39, and at least 2.9 times chance
		floor, least = 0.2, 1.6
	}
	if r < floor || r < least*chance {
		return fmt.Errorf("recall %.2f of the %d nearest with the default budget in %d dimensions, want at least %.2f (chance: %.2f)", r, n, cs.Config.Dim, floor, chance)
	}
	return nil
}
