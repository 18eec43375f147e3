// Package c01 decides: search with an unrestricted inspection budget is exact.
package c01

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C01") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Query of a case.
type Query struct {
	Item   int   `json:"item"` // index into the items, -1: by vector
	Salt   int   `json:"salt,omitempty"`
	N      int   `json:"n"`
	Budget int   `json:"budget"` // added to the number of nodes of the forest
	Phase  []int `json:"phase,omitempty"`
}

// Case of C01.
type Case struct {
	Config  core.Config `json:"config"`
	Data    core.Data   `json:"data"`
	Trees   int         `json:"trees"`
	Workers int         `json:"workers"`
	Save    bool        `json:"save"`
	Reload  string      `json:"reload"` // "", same, other
	Queries []Query     `json:"queries"`
}

var _ = core.Sub("exhaustive", core.Spec[Case]{
	Quick: 20000, Thorough: 400000,
	Rule: "item set x element/index type x trees x workers x policy x allocator x generator; queried when built, when saved and when loaded; " +
		"non-trivial: the forest has at least one split and a query leaves items out or spans all of them over several leaves",
	Gen: func(t *rapid.T) Case {
		o := core.Opt{Builder: true, Multi: true, GCMem: true, Rnd: true, Sorter: true, Hint: true, Verbose: true}
		c := Case{Config: core.DrawConfig(t, o)}
		c.Data = core.DrawData(t, c.Config, o)
		if c.Config.Verbose && c.Data.N > 100 {
			c.Config.Verbose = false
		}
		c.Trees = core.DrawTrees(t)
		c.Workers = core.DrawWorkers(t, c.Config)
		c.Save = rapid.Bool().Draw(t, "save")
		if c.Save {
			c.Reload = rapid.SampledFrom([]string{"", "same", "other", "otheralloc"}).Draw(t, "reload")
		}
		for i, k := 0, rapid.IntRange(1, 5).Draw(t, "queries"); i < k; i++ {
			q := Query{Item: -1, Salt: i + 1}
			if rapid.Bool().Draw(t, "byitem") {
				q.Item = rapid.IntRange(0, 1<<20).Draw(t, "item")
			}
			q.N = DrawN(t, c.Data.N)
			q.Budget = rapid.SampledFrom([]int{0, 0, 1, 1000, 1 << 30}).Draw(t, "budget")
			c.Queries = append(c.Queries, q)
		}
		return c
	},
	Run: run,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 64, Thorough: 1500,
	Rule: core.LargeRule + "otherwise as exhaustive",
	Gen: func(t *rapid.T) Case {
		s := core.DrawLarge(t, core.Opt{Builder: true, Multi: true, GCMem: true, Rnd: true, Sorter: true, Hint: true})
		c := Case{Config: s.Config, Data: s.Data, Trees: s.Trees, Workers: s.Workers, Save: rapid.Bool().Draw(t, "save")}
		if c.Save {
			c.Reload = rapid.SampledFrom([]string{"same", "other", "otheralloc"}).Draw(t, "reload")
		}
		for i, k := 0, rapid.IntRange(1, 2).Draw(t, "queries"); i < k; i++ {
			q := Query{Item: -1, Salt: i + 1, N: DrawN(t, c.Data.N)}
			if rapid.Bool().Draw(t, "byitem") {
				q.Item = rapid.IntRange(0, 1<<20).Draw(t, "item")
			}
			c.Queries = append(c.Queries, q)
		}
		return c
	},
	Run: run,
})

// DrawN draws a number of results around the number of items.
func DrawN(t *rapid.T, items int) int {
	switch rapid.IntRange(0, 5).Draw(t, "nkind") {
	case 0:
		return rapid.IntRange(0, 3).Draw(t, "rn")
	case 1, 2:
		return rapid.IntRange(1, 20).Draw(t, "rn")
	case 3:
		return rapid.IntRange(1, items+1).Draw(t, "rn")
	case 4:
		return items + rapid.IntRange(-1, 2).Draw(t, "rn")
	default:
		return rapid.SampledFrom([]int{items * 3, items + 100, 100000, -1, -5}).Draw(t, "rn")
	}
}

func run(c *core.Ctx, cs Case) error {
	items := cs.Data.Items(cs.Config)
	mod := core.ModelOf(items)
	ix := core.Open(cs.Config, nil)
	c.Cleanup(func() { ix.Close() })
	for _, it := range items {
		ix.Add(it.ID, it.V)
	}
	ix.Build(cs.Trees, cs.Workers)

	k := cs.Config.Layout().K
	c.Class("%s", cs.Config.Types())
	c.Class("size %s", core.SizeClass(len(items), k))
	c.Class("kind %s", cs.Data.Kind)
	c.ClassIf(cs.Config.Multi, "multi worker policy")
	if len(items) > k {
		c.NonTrivial()
	}

	if err := queries(ix, cs, items, mod, "after build"); err != nil {
		return err
	}
	if !cs.Save {
		return nil
	}
	if err := ix.Save(c.File("a.ann")); err != nil {
		return fmt.Errorf("save: %v", err)
	}
	c.Class("saved")
	if err := queries(ix, cs, items, mod, "after save"); err != nil {
		return err
	}
	switch cs.Reload {
	case "":
		return nil
	case "other", "otheralloc":
		cf := cs.Config
		if cs.Reload == "otheralloc" {
			cf.GCMem = !cf.GCMem
		}
		other := core.Open(cf, nil)
		c.Cleanup(func() { other.Close() })
		ix = other
	}
	if err := ix.Load(c.File("a.ann")); err != nil {
		return fmt.Errorf("load: %v", err)
	}
	c.Class("loaded %s", cs.Reload)
	return queries(ix, cs, items, mod, "after load")
}

func queries(ix core.Index, cs Case, items []core.ItemT, mod core.Model, when string) error {
	m := core.MetricOf(cs.Config)
	ctx := ix.Ctx()
	// more than any forest over these items can hold: trees x (items + nodes)
	trees := cs.Trees
	if trees < 1 {
		trees = 4096
	}
	max := int(items[0].ID)
	for _, it := range items {
		if int(it.ID) > max {
			max = int(it.ID)
		}
	}
	all := trees * (4*len(items) + max + 16)
	for i, q := range cs.Queries {
		var v []float64
		var ids []uint64
		var ds []float64
		if q.Item >= 0 {
			it := items[q.Item%len(items)]
			// last write wins is not at stake here: ids are distinct
			v = it.V
			ids, ds = ix.ByItem(it.ID, q.N, all+q.Budget, ctx)
		} else {
			v = cs.Data.MoreVecs(cs.Config, 1, uint64(q.Salt))[0]
			ids, ds = ix.ByVector(v, q.N, all+q.Budget, ctx)
		}
		if err := m.Exact(mod, v, q.N, ids, ds); err != nil {
			return fmt.Errorf("query %d %s (n=%d): %w", i, when, q.N, err)
		}
	}
	return nil
}
