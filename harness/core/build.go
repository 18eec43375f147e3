package core

import (
	"fmt"

	"pgregory.net/rapid"
)

// Setup is what most cases start from: an index, its items and how it is built.
type Setup struct {
	Config  Config `json:"config"`
	Data    Data   `json:"data"`
	Trees   int    `json:"trees"`
	Workers int    `json:"workers"`
}

// DrawSetup draws one.
func DrawSetup(t *rapid.T, o Opt) Setup {
	s := Setup{Config: DrawConfig(t, o)}
	s.Data = DrawData(t, s.Config, o)
	if s.Config.Verbose && s.Data.N > 100 {
		s.Config.Verbose = false
	}
	s.Trees = DrawTrees(t)
	s.Workers = DrawWorkers(t, s.Config)
	return s
}

// Built adds the items and builds.
func (s Setup) Built(c *Ctx, p *Plug) (Index, []ItemT, Model) {
	items := s.Data.Items(s.Config)
	ix := Open(s.Config, p)
	c.Cleanup(func() { ix.Close() })
	for _, it := range items {
		ix.Add(it.ID, it.V)
	}
	ix.Build(s.Trees, s.Workers)
	return ix, items, ModelOf(items)
}

// Saved saves the index and parses the file.
func (s Setup) Saved(ix Index, path string) (*Forest, error) {
	if err := ix.Save(path); err != nil {
		return nil, fmt.Errorf("save: %w", err)
	}
	return ReadForest(path, s.Config.Layout())
}

// Classes counts the usual classes.
func (s Setup) Classes(c *Ctx, items int) {
	c.Class("%s %s", s.Config.Metric, s.Config.Types())
	c.Class("size %s", SizeClass(items, s.Config.Layout().K))
	c.Class("kind %s", s.Data.Kind)
	c.Class("ids %s", s.Data.IDs)
	c.ClassIf(s.Config.Multi, "multi worker policy")
	c.ClassIf(s.Trees == -1, "automatic number of trees")
}

// Max id + 1.
func MaxID(items []ItemT) int {
	m := 0
	for _, it := range items {
		if int(it.ID) >= m {
			m = int(it.ID) + 1
		}
	}
	return m
}

// DrawN draws a number of results around the number of items.
func DrawN(t *rapid.T, items int) int {
	switch rapid.IntRange(0, 6).Draw(t, "nkind") {
	case 0:
		return rapid.IntRange(0, 3).Draw(t, "rn")
	case 1, 2, 3:
		return rapid.IntRange(1, 20).Draw(t, "rn")
	case 4:
		return rapid.IntRange(1, items+1).Draw(t, "rn")
	case 5:
		return items + rapid.IntRange(-1, 2).Draw(t, "rn")
	default:
		return rapid.SampledFrom([]int{items * 3, items + 100, 100000, 1<<63 - 1, -1, -5}).Draw(t, "rn")
	}
}

// QuerySpec is a query of a case: plain data.
type QuerySpec struct {
	Item   int    `json:"item"` // index into the items; -1: a vector
	Salt   uint64 `json:"salt,omitempty"`
	Kind   string `json:"kind,omitempty"` // "", zero, far, neg
	N      int    `json:"n"`
	Budget int    `json:"budget"`
}

// DrawQuery draws a query for a set of items.
func DrawQuery(t *rapid.T, items, trees int) QuerySpec {
	q := QuerySpec{Item: -1}
	switch rapid.IntRange(0, 9).Draw(t, "querykind") {
	case 0, 1, 2, 3:
		q.Item = rapid.IntRange(0, items-1).Draw(t, "item")
	case 4:
		q.Kind = "zero"
	case 5:
		q.Kind = "neg"
		q.Item = rapid.IntRange(0, items-1).Draw(t, "item")
	default:
		q.Salt = uint64(rapid.IntRange(1, 1000).Draw(t, "salt"))
	}
	q.N = DrawN(t, items)
	q.Budget = DrawBudget(t, items, trees)
	return q
}

// DrawBudget draws an inspection budget; -1 is the default.
func DrawBudget(t *rapid.T, items, trees int) int {
	if trees < 1 {
		trees = 3
	}
	switch rapid.IntRange(0, 6).Draw(t, "budgetkind") {
	case 0, 1:
		return -1
	case 2:
		return rapid.IntRange(0, 5).Draw(t, "budget")
	case 3, 4:
		return rapid.IntRange(1, items+2).Draw(t, "budget")
	case 5:
		return rapid.IntRange(1, items*trees+2).Draw(t, "budget")
	default:
		return rapid.SampledFrom([]int{1 << 30, 1<<63 - 1, -2, 1 << 40}).Draw(t, "budget")
	}
}

// Vector of the query.
func (q QuerySpec) Vector(s Setup, items []ItemT) []float64 {
	switch {
	case q.Kind == "zero":
		return make([]float64, s.Config.Dim)
	case q.Kind == "neg":
		v := make([]float64, s.Config.Dim)
		for i, x := range items[q.Item%len(items)].V {
			v[i] = 0 - x
		}
		return v
	case q.Item >= 0:
		return items[q.Item%len(items)].V
	}
	return s.Data.MoreVecs(s.Config, 1, q.Salt)[0]
}

// ByItem tells whether the query goes by item.
func (q QuerySpec) ByItem() bool { return q.Item >= 0 && q.Kind == "" }

// Ask runs the query.
func (q QuerySpec) Ask(ix Index, s Setup, items []ItemT, ctx QCtx) ([]uint64, []float64) {
	if q.ByItem() {
		return ix.ByItem(items[q.Item%len(items)].ID, q.N, q.Budget, ctx)
	}
	return ix.ByVector(q.Vector(s, items), q.N, q.Budget, ctx)
}
