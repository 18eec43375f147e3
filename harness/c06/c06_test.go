// Package c06 decides: save and load preserve the index exactly.
package c06

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C06") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Step of the chain.
type Step struct {
	Op    string `json:"op"`    // resave, reload, other
	File  int    `json:"file"`  // file to save to or load from
	GCMem bool   `json:"gcmem"` // of the other index
	Junk  string `json:"junk"`  // what the other index held before
	Multi bool   `json:"multi"`
}

// Case of C06.
type Case struct {
	core.Setup
	Queries []core.QuerySpec `json:"queries"`
	Steps   []Step           `json:"steps"`
}

var junk = []string{"", "items", "built", "loaded", "closed", "failed"}

var _ = core.Sub("chain", core.Spec[Case]{
	Quick: 12000, Thorough: 300000,
	Rule: "built index -> save -> chain of re-saves, re-loads and loads into other indexes with other contents, allocators and policies; " +
		"vectors, distances, answers and bytes compared with those before; non-trivial: forest with splits and at least one load elsewhere or re-save",
	Gen: gen(core.DrawSetup, 6, 4), Run: run,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 48, Thorough: 1200, Rule: core.LargeRule + "otherwise as chain", Gen: gen(core.DrawLarge, 2, 2), Run: run,
})

var _ = core.Sub("manytrees", core.Spec[Case]{
	Quick: 120, Thorough: 4000, Rule: "200 to 5 000 trees of a few more items than fit in a node, asked with small budgets; otherwise as chain",
	Gen: func(t *rapid.T) Case {
		c := gen(core.DrawSetup, 1, 2)(t)
		c.Config.Dim = rapid.IntRange(1, 6).Draw(t, "fewdim")
		k := c.Config.Layout().K
		c.Config.Verbose = false
		c.Data = core.Data{Kind: "gauss", Seed: rapid.Uint64().Draw(t, "dataseed"), N: k + rapid.IntRange(1, 40).Draw(t, "items"), IDs: "dense"}
		c.Trees = rapid.IntRange(200, 5000).Draw(t, "many")
		for i := 0; i < 6; i++ {
			q := core.DrawQuery(t, c.Data.N, c.Trees)
			q.Budget = rapid.IntRange(1, 30).Draw(t, "small")
			q.N = c.Data.N
			c.Queries = append(c.Queries, q)
		}
		return c
	},
	Run: run,
})

func gen(setup func(*rapid.T, core.Opt) core.Setup, queries, steps int) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Setup: setup(t, core.Opt{
			Metrics: []string{"angular", "angular", "dot"}, MaxDim: 130,
			Builder: true, Multi: true, GCMem: true, Rnd: true, Hint: true, Sorter: true,
		})}
		for i, k := 0, rapid.IntRange(1, queries).Draw(t, "queries"); i < k; i++ {
			c.Queries = append(c.Queries, core.DrawQuery(t, c.Data.N, c.Trees))
		}
		for i, k := 0, rapid.IntRange(0, steps).Draw(t, "steps"); i < k; i++ {
			c.Steps = append(c.Steps, Step{
				Op: rapid.SampledFrom([]string{"resave", "reload", "other", "other"}).Draw(t, "op"), File: rapid.IntRange(0, 2).Draw(t, "file"),
				GCMem: rapid.Bool().Draw(t, "gcmem"), Junk: rapid.SampledFrom(junk).Draw(t, "junk"), Multi: rapid.Bool().Draw(t, "multi"),
			})
		}
		return c
	}
}

type view struct {
	vecs  core.Model
	dists []float64
	ids   [][]uint64
	ds    [][]float64
}

func (cs Case) look(ix core.Index, items []core.ItemT, mod core.Model) view {
	v := view{vecs: core.Model{}}
	for id := range mod {
		v.vecs[id] = ix.Item(id)
	}
	for i := range items {
		j := (i*7 + 3) % len(items)
		v.dists = append(v.dists, ix.Dist(items[i].ID, items[j].ID))
		if i > 40 {
			break
		}
	}
	ctx := ix.Ctx()
	for _, q := range cs.Queries {
		ids, ds := q.Ask(ix, cs.Setup, items, ctx)
		v.ids = append(v.ids, ids)
		v.ds = append(v.ds, ds)
	}
	return v
}

func (cs Case) same(a, b view) error {
	for id, v := range a.vecs {
		if !core.SameVec(v, b.vecs[id]) {
			return fmt.Errorf("item %d was %v, now it is %v", id, v, b.vecs[id])
		}
	}
	for i := range a.dists {
		if a.dists[i] != b.dists[i] {
			return fmt.Errorf("distance %d was %v, now it is %v", i, a.dists[i], b.dists[i])
		}
	}
	for i, q := range cs.Queries {
		if err := core.SameAnswer(a.ids[i], a.ds[i], b.ids[i], b.ds[i]); err != nil {
			return fmt.Errorf("query %d (n=%d, budget %d): before and now: %w", i, q.N, q.Budget, err)
		}
	}
	return nil
}

func run(c *core.Ctx, cs Case) error {
	ix, items, mod := cs.Built(c, nil)
	cs.Classes(c, len(items))
	if len(items) > cs.Config.Layout().K && len(cs.Steps) > 0 {
		c.NonTrivial()
	}
	before := cs.look(ix, items, mod)
	for id, v := range mod {
		if !core.SameVec(v, before.vecs[id]) {
			return fmt.Errorf("before saving: item %d reads %v, added was %v", id, before.vecs[id], v)
		}
	}
	name := func(i int) string { return c.File(fmt.Sprintf("f%d.ann", i)) }
	if err := ix.Save(name(0)); err != nil {
		return fmt.Errorf("save: %w", err)
	}
	bytes0, err := os.ReadFile(name(0))
	if err != nil {
		return err
	}
	if err := cs.same(before, cs.look(ix, items, mod)); err != nil {
		return fmt.Errorf("after saving: %w", err)
	}
	have := map[int]bool{0: true}
	for i, st := range cs.Steps {
		what := fmt.Sprintf("step %d (%+v)", i, st)
		switch st.Op {
		case "resave":
			if err := ix.Save(name(st.File)); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			have[st.File] = true
			c.Class("saved again")
		case "reload":
			if !have[st.File] {
				st.File = 0
			}
			if err := ix.Load(name(st.File)); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			c.Class("loaded again")
		case "other":
			if !have[st.File] {
				st.File = 0
			}
			cf := cs.Config
			cf.GCMem, cf.Multi, cf.Seed = st.GCMem, st.Multi, cf.Seed+1
			o := core.Open(cf, nil)
			c.Cleanup(func() { o.Close() })
			prepare(c, cf, o, st.Junk)
			if err := o.Load(name(st.File)); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			ix = o
			c.Class("loaded elsewhere, over %q", st.Junk)
		}
		if err := cs.same(before, cs.look(ix, items, mod)); err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		for f := range have {
			b, err := os.ReadFile(name(f))
			if err != nil {
				return err
			}
			if !bytes.Equal(b, bytes0) {
				return fmt.Errorf("%s: file %d has %d bytes that differ from the %d of the first save", what, f, len(b), len(bytes0))
			}
		}
	}
	return nil
}

// prepare gives an index object contents of its own.
func prepare(c *core.Ctx, cf core.Config, ix core.Index, kind string) {
	if kind == "" {
		return
	}
	s := core.Setup{Config: cf, Data: core.Data{Kind: "gauss", Seed: 99, N: 60, IDs: "dense"}}
	for _, it := range s.Data.Items(cf) {
		ix.Add(it.ID, it.V)
	}
	if kind == "items" {
		return
	}
	ix.Build(2, 1)
	if kind == "built" {
		return
	}
	if kind == "closed" {
		ix.Close()
		return
	}
	if kind == "failed" {
		if err := ix.Load(c.File("none.ann")); err == nil {
			panic(core.Violation{Msg: "loading a missing file gives no error"})
		}
		return
	}
	if err := ix.Save(c.File("junk.ann")); err != nil {
		panic(core.Violation{Msg: "save: " + err.Error()})
	}
}
