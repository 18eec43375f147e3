// Package c03 decides: every query answer is well-formed and as long as promised.
package c03

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C03") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Case of C03.
type Case struct {
	core.Setup
	Queries []core.QuerySpec `json:"queries"`
	Loaded  bool             `json:"loaded"`
	Reuse   bool             `json:"reuse"`
}

var _ = core.Sub("answers", core.Spec[Case]{
	Quick: 24000, Thorough: 500000,
	Rule: "index x queries (by item, by vector, zero, opposite) x n x budget (default, small, huge, negative); " +
		"non-trivial: at least one query answers with some, but not all items, in a forest with splits",
	Gen: gen(core.DrawSetup, 8), Run: run,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 64, Thorough: 1500, Rule: core.LargeRule + "otherwise as answers", Gen: gen(core.DrawLarge, 3), Run: run,
})

func gen(setup func(*rapid.T, core.Opt) core.Setup, queries int) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Setup: setup(t, core.Opt{
			Metrics: []string{"angular", "angular", "dot"},
			Builder: true, Multi: true, GCMem: true, Rnd: true, Sorter: true, Hint: true, Verbose: true,
		})}
		n := c.Data.N
		for i, k := 0, rapid.IntRange(1, queries).Draw(t, "queries"); i < k; i++ {
			c.Queries = append(c.Queries, core.DrawQuery(t, n, c.Trees))
		}
		c.Loaded = rapid.Bool().Draw(t, "loaded")
		c.Reuse = rapid.Bool().Draw(t, "reuse")
		return c
	}
}

func run(c *core.Ctx, cs Case) error {
	ix, items, mod := cs.Built(c, nil)
	cs.Classes(c, len(items))
	if cs.Loaded {
		if err := ix.Save(c.File("x.ann")); err != nil {
			return fmt.Errorf("save: %w", err)
		}
		c.Class("loaded")
	}
	m := core.MetricOf(cs.Config)
	ctx := ix.Ctx()
	type answer struct {
		core.Answer
		ids []uint64
		ds  []float64
	}
	var kept []answer
	for i, q := range cs.Queries {
		if !cs.Reuse {
			ctx = ix.Ctx()
		}
		v := q.Vector(cs.Setup, items)
		what := fmt.Sprintf("query %d (n=%d, budget=%d)", i, q.N, q.Budget)
		ids, ds := q.Ask(ix, cs.Setup, items, ctx)
		if err := m.WellFormed(mod, v, q.N, ids, ds); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if len(ids) > 0 && len(ids) < len(mod) && len(items) > cs.Config.Layout().K {
			c.NonTrivial()
		}
		if q.Budget == -1 {
			want := q.N
			if want > len(mod) {
				want = len(mod)
			}
			if want < 0 {
				want = 0
			}
			c.Class("default budget")
			if len(ids) != want {
				return fmt.Errorf("%s: %d results with the default budget among %d items, want %d", what, len(ids), len(mod), want)
			}
		}
		if q.ByItem() {
			c.Class("by item")
			self := items[q.Item%len(items)].ID
			for k, id := range ids {
				d, tol := m.D(v, mod[id])
				if g := ix.Dist(self, id); !m.SameReported(g, d, tol) || !near(m, g, ds[k], d, tol) {
					return fmt.Errorf("%s: item %d at %v, but the distance between %d and %d is given as %v (it is %v)",
						what, id, ds[k], self, id, g, m.Reported(d))
				}
			}
		}
		// what was returned belongs to the caller
		a := ix.RawByVector(v, q.N, q.Budget, ctx)
		a.Scribble()
		ids2, ds2 := q.Ask(ix, cs.Setup, items, ctx)
		if err := core.SameAnswer(ids, ds, ids2, ds2); err != nil {
			return fmt.Errorf("%s: asked again after writing to the slices of an answer: %w", what, err)
		}
		k := answer{Answer: ix.RawByVector(v, q.N, q.Budget, ctx)}
		k.ids, k.ds = k.Get()
		kept = append(kept, k)
	}
	for i, k := range kept {
		ids, ds := k.Get()
		if err := core.SameAnswer(k.ids, k.ds, ids, ds); err != nil {
			return fmt.Errorf("the answer to query %d changed after it was returned: %w", i, err)
		}
	}
	return nil
}

// near compares two reported distances.
func near(m core.Metric, a, b, d, tol float64) bool {
	return m.SameReported(a, d, tol) && m.SameReported(b, d, tol)
}
