// Package c11 decides: queries are pure, no query affects another.
package c11

import (
	"bytes"
	"fmt"
	"os"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C11") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Case of C11.
type Case struct {
	core.Setup
	Phase   string           `json:"phase"` // built, saved, loaded
	Queries []core.QuerySpec `json:"queries"`
	// Scribble over the answer of these queries at once.
	Scribble []bool `json:"scribble"`
	// Ctx used by each query, of three.
	Ctx     []int `json:"ctx"`
	Workers int   `json:"goroutines"`
	Rounds  int   `json:"rounds"`
}

func gen(setup func(*rapid.T, core.Opt) core.Setup, maxN, maxQ, goroutines int) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Setup: setup(t, core.Opt{
			Metrics: []string{"angular", "angular", "angular", "dot", "euclid"}, MaxDim: 64, MaxN: maxN, MaxCells: 20 * maxN,
			Multi: true, GCMem: true, Builder: true, Sorter: true,
		})}
		if k := c.Config.Layout().K; c.Data.N <= k && (c.Data.N+k)*c.Config.Dim < 5000000 && c.Data.Vecs == nil && rapid.Bool().Draw(t, "more") {
			c.Data.N += k
		}
		c.Phase = rapid.SampledFrom([]string{"built", "saved", "loaded"}).Draw(t, "phase")
		n := rapid.IntRange(2, maxQ).Draw(t, "queries")
		for i := 0; i < n; i++ {
			c.Queries = append(c.Queries, core.DrawQuery(t, c.Data.N, c.Trees))
			c.Scribble = append(c.Scribble, rapid.IntRange(0, 2).Draw(t, "scribble") == 0)
			c.Ctx = append(c.Ctx, rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "ctx"))
		}
		if goroutines > 0 {
			c.Workers = rapid.IntRange(2, goroutines).Draw(t, "goroutines")
			c.Rounds = rapid.IntRange(1, 6).Draw(t, "rounds")
		}
		return c
	}
}

type answer struct {
	ids []uint64
	ds  []float64
}

func prepare(c *core.Ctx, cs Case) (core.Index, []core.ItemT, []byte, error) {
	ix, items, _ := cs.Setup.Built(c, nil)
	var file []byte
	if cs.Phase != "built" {
		if err := ix.Save(c.File("a")); err != nil {
			return nil, nil, nil, err
		}
		var err error
		if file, err = os.ReadFile(c.File("a")); err != nil {
			return nil, nil, nil, err
		}
		if cs.Phase == "loaded" {
			if err := ix.Load(c.File("a")); err != nil {
				return nil, nil, nil, err
			}
		}
	}
	return ix, items, file, nil
}

// unchanged: the index holds what it held before.
func unchanged(c *core.Ctx, cs Case, ix core.Index, items []core.ItemT, file []byte) error {
	for _, it := range items {
		if got := ix.Item(it.ID); !core.SameVec(got, it.V) {
			return fmt.Errorf("after the queries item %d reads %v, it is %v", it.ID, got, it.V)
		}
	}
	if file == nil {
		return nil
	}
	if b, err := os.ReadFile(c.File("a")); err != nil || !bytes.Equal(b, file) {
		return fmt.Errorf("the queries changed the file (%v)", err)
	}
	if err := ix.Save(c.File("again")); err != nil {
		return err
	}
	if b, err := os.ReadFile(c.File("again")); err != nil || !bytes.Equal(b, file) {
		return fmt.Errorf("the queries changed the index: it saves otherwise than before (%v)", err)
	}
	return nil
}

// fresh asks every query with a context of its own.
func fresh(cs Case, ix core.Index, items []core.ItemT) (r []answer) {
	for _, q := range cs.Queries {
		ids, ds := q.Ask(ix, cs.Setup, items, ix.Ctx())
		r = append(r, answer{ids, ds})
	}
	return
}

var _ = core.Sub("sequence", core.Spec[Case]{
	Quick: 12000, Thorough: 300000,
	Rule: "2 to 14 queries of any sizes and budgets, alternating between three contexts, answers kept or overwritten by the caller; compared with fresh " +
		"contexts before and after and with what was kept; non-trivial: a context is used for queries of different results after one another",
	Gen: gen(core.DrawSetup, 500, 14, 0), Run: runSequence,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 40, Thorough: 1000, Rule: core.LargeRule + "otherwise as sequence", Gen: gen(core.DrawLarge, 500, 5, 0), Run: runSequence,
})

func runSequence(c *core.Ctx, cs Case) error {
	ix, items, file, err := prepare(c, cs)
	if err != nil {
		return err
	}
	want := fresh(cs, ix, items)
	ctx := []core.QCtx{ix.Ctx(), ix.Ctx(), ix.Ctx()}
	kept := map[int]core.Answer{}
	for i, q := range cs.Queries {
		x := ctx[cs.Ctx[i]]
		var ids []uint64
		var ds []float64
		if q.ByItem() {
			ids, ds = q.Ask(ix, cs.Setup, items, x)
		} else {
			a := ix.RawByVector(q.Vector(cs.Setup, items), q.N, q.Budget, x)
			ids, ds = a.Get()
			if cs.Scribble[i] {
				a.Scribble()
				c.Class("answer overwritten by the caller")
			} else {
				kept[i] = a
			}
		}
		if err := core.SameAnswer(want[i].ids, want[i].ds, ids, ds); err != nil {
			return fmt.Errorf("query %d in a context used before is answered otherwise than in a fresh one: %w", i, err)
		}
		if i > 0 && cs.Ctx[i] == cs.Ctx[i-1] && len(want[i].ids) != len(want[i-1].ids) {
			c.NonTrivial()
		}
	}
	for i, a := range kept {
		ids, ds := a.Get()
		if err := core.SameAnswer(want[i].ids, want[i].ds, ids, ds); err != nil {
			return fmt.Errorf("the answer to query %d changed after it was returned: %w", i, err)
		}
	}
	// in reverse, in one context
	for i := len(cs.Queries) - 1; i >= 0; i-- {
		ids, ds := cs.Queries[i].Ask(ix, cs.Setup, items, ctx[0])
		if err := core.SameAnswer(want[i].ids, want[i].ds, ids, ds); err != nil {
			return fmt.Errorf("query %d asked again is answered otherwise: %w", i, err)
		}
	}
	again := fresh(cs, ix, items)
	for i := range want {
		if err := core.SameAnswer(want[i].ids, want[i].ds, again[i].ids, again[i].ds); err != nil {
			return fmt.Errorf("query %d asked again in a fresh context is answered otherwise: %w", i, err)
		}
	}
	c.Class("phase %s", cs.Phase)
	cs.Setup.Classes(c, len(items))
	return unchanged(c, cs, ix, items, file)
}

var _ = core.Sub("longrun", core.Spec[Case]{
	Quick: 200, Thorough: 6000,
	Rule: "one small index asked 300 to 3 000, now and then 70 000, times in turns with up to three contexts; non-trivial: the answers differ in length",
	Gen: func(t *rapid.T) Case {
		c := gen(core.DrawSetup, 40, 6, 0)(t)
		c.Rounds = rapid.IntRange(300, 3000).Draw(t, "rounds")
		if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
			c.Rounds = 70000
		}
		return c
	},
	Run: func(c *core.Ctx, cs Case) error {
		ix, items, file, err := prepare(c, cs)
		if err != nil {
			return err
		}
		want := fresh(cs, ix, items)
		ctx := []core.QCtx{ix.Ctx(), ix.Ctx(), ix.Ctx()}
		for r := 0; r < cs.Rounds; r++ {
			i := r % len(cs.Queries)
			ids, ds := cs.Queries[i].Ask(ix, cs.Setup, items, ctx[cs.Ctx[i]])
			if err := core.SameAnswer(want[i].ids, want[i].ds, ids, ds); err != nil {
				return fmt.Errorf("question %d, query %d in a context used before is answered otherwise than in a fresh one: %w", r, i, err)
			}
			if i > 0 && len(want[i].ids) != len(want[i-1].ids) {
				c.NonTrivial()
			}
		}
		c.ClassIf(cs.Rounds > 65536, "more than 65 536 questions")
		return unchanged(c, cs, ix, items, file)
	},
})

const rule = "2 to 8 goroutines ask, read vectors and distances of one index at the same time, each with its own context made then and there; all " +
	"answers are those given one after another; non-trivial: the forest has more items than fit in a node"

var _ = core.Sub("concurrent", core.Spec[Case]{
	Quick: 3000, Thorough: 80000, Rule: rule, Gen: gen(core.DrawSetup, 400, 8, 8), Run: runConcurrent,
})

var _ = core.Sub("race", core.Spec[Case]{
	Quick: 700, Thorough: 20000, Race: true, Rule: rule + "; under the race detector", Gen: gen(core.DrawSetup, 150, 6, 6), Run: runConcurrent,
})

func runConcurrent(c *core.Ctx, cs Case) error {
	ix, items, file, err := prepare(c, cs)
	if err != nil {
		return err
	}
	want := fresh(cs, ix, items)
	d01 := ix.Dist(items[0].ID, items[len(items)-1].ID)
	errs := make([]error, cs.Workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < cs.Workers; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[g] = core.Guard(func() error {
				<-start
				ctx := ix.Ctx()
				for r := 0; r < cs.Rounds; r++ {
					for k := range cs.Queries {
						i := (k + g) % len(cs.Queries)
						ids, ds := cs.Queries[i].Ask(ix, cs.Setup, items, ctx)
						if err := core.SameAnswer(want[i].ids, want[i].ds, ids, ds); err != nil {
							return fmt.Errorf("query %d is answered otherwise while others ask: %w", i, err)
						}
						it := items[(g+k)%len(items)]
						if got := ix.Item(it.ID); !core.SameVec(got, it.V) {
							return fmt.Errorf("item %d reads %v while others ask", it.ID, got)
						}
						if d := ix.Dist(items[0].ID, items[len(items)-1].ID); d != d01 {
							return fmt.Errorf("distance %v, %v while others ask", d01, d)
						}
					}
				}
				return nil
			})
		}()
	}
	close(start)
	wg.Wait()
	for g, err := range errs {
		if err != nil {
			return fmt.Errorf("goroutine %d: %w", g, err)
		}
	}
	if len(items) > cs.Config.Layout().K {
		c.NonTrivial()
	}
	c.Class("phase %s", cs.Phase)
	c.Class("%s %s", cs.Config.Metric, cs.Config.Types())
	return unchanged(c, cs, ix, items, file)
}
