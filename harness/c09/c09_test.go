// Package c09 decides: builds are reproducible from the seed and vary with it.
package c09

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C09") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Variant is another way to the same forest.
type Variant struct {
	Order     uint64 `json:"order,omitempty"`     // seed of a permutation of the additions
	Overwrite bool   `json:"overwrite,omitempty"` // every item is added with another vector first
	Draws     int    `json:"draws,omitempty"`     // values drawn from the generator before
	Hint      int    `json:"hint,omitempty"`
	Verbose   bool   `json:"verbose,omitempty"`
	GCMem     bool   `json:"gcmem,omitempty"`
	Builder   bool   `json:"builder,omitempty"`
	Sorter    string `json:"sorter,omitempty"`
	Reused    string `json:"reused,omitempty"` // the object was used before: built, saved
	Second    bool   `json:"second,omitempty"` // second index of one builder, the first having been built
}

// Case of sub check "reproduce".
type Case struct {
	core.Setup
	V       Variant          `json:"variant"`
	Queries []core.QuerySpec `json:"queries"`
}

var opt = core.Opt{
	Metrics: []string{"angular", "angular", "angular", "dot", "euclid"},
	Builder: true, Multi: true, GCMem: true, Rnd: true, MaxN: 700, MaxCells: 25000,
}

var _ = core.Sub("reproduce", core.Spec[Case]{
	Quick: 12000, Thorough: 300000,
	Rule: "an index is built twice, the second time in another way (order of additions, overwrites, draws from the generator, hint, logging, file " +
		"allocator, builder, sorter, re-used object, second index of a builder); files byte for byte (one worker) or trees one by one (several), and " +
		"answers are compared; non-trivial: the forest has a split and the variant differs in something",
	Gen: genReproduce(core.DrawSetup), Run: runReproduce,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 40, Thorough: 1000, Rule: core.LargeRule + "otherwise as reproduce", Gen: genReproduce(core.DrawLarge), Run: runReproduce,
})

func genReproduce(setup func(*rapid.T, core.Opt) core.Setup) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Setup: setup(t, opt)}
		if c.Config.Multi && c.Workers != 1 && c.Workers != 0 && c.Trees == -1 {
			c.Trees = 3 // which worker builds one more depends on the schedule
		}
		v := &c.V
		if rapid.Bool().Draw(t, "vorder") {
			v.Order = rapid.Uint64().Draw(t, "order")
		}
		v.Overwrite = rapid.IntRange(0, 2).Draw(t, "voverwrite") == 0
		if rapid.Bool().Draw(t, "vdraws") {
			v.Draws = rapid.IntRange(1, 50).Draw(t, "draws")
		}
		v.Hint = rapid.SampledFrom([]int{0, 0, 1, 3, 50, 1000, 20000}).Draw(t, "vhint")
		v.Verbose = c.Data.N <= 60 && c.Config.Dim <= 40 && rapid.IntRange(0, 7).Draw(t, "vverbose") == 0
		v.GCMem = rapid.Bool().Draw(t, "vgcmem")
		v.Builder = rapid.Bool().Draw(t, "vbuilder")
		v.Sorter = rapid.SampledFrom([]string{"", "", "lib2", "lib3", "std", "user"}).Draw(t, "vsorter")
		v.Reused = rapid.SampledFrom([]string{"", "", "", "filled", "built", "saved"}).Draw(t, "vreused")
		v.Second = rapid.IntRange(0, 3).Draw(t, "vsecond") == 0
		for i := 0; i < 3; i++ {
			c.Queries = append(c.Queries, core.DrawQuery(t, c.Data.N, c.Trees))
		}
		return c
	}
}

func build(ix core.Index, s core.Setup, items []core.ItemT, v Variant) {
	order := make([]int, len(items))
	for i := range order {
		order[i] = i
	}
	if v.Order != 0 {
		order = core.NewPrng(v.Order).Perm(len(items))
	}
	if v.Overwrite {
		w := s.Data.MoreVecs(s.Config, len(items), 77)
		for i := range order {
			ix.Add(items[i].ID, w[i])
		}
	}
	for _, i := range order {
		ix.Add(items[i].ID, items[i].V)
	}
	ix.Build(s.Trees, s.Workers)
}

type answer struct {
	ids []uint64
	ds  []float64
}

// answers to the queries; with several workers only those that do not depend on node numbers.
func answers(ix core.Index, cs Case, items []core.ItemT, exhaustive bool) (r []answer) {
	ctx := ix.Ctx()
	for _, q := range cs.Queries {
		if exhaustive {
			q.Budget = 1 << 40
		}
		ids, ds := q.Ask(ix, cs.Setup, items, ctx)
		r = append(r, answer{ids, ds})
	}
	return
}

func same(a, b []answer) error {
	for i := range a {
		if err := core.SameAnswer(a[i].ids, a[i].ds, b[i].ids, b[i].ds); err != nil {
			return fmt.Errorf("query %d: %w", i, err)
		}
	}
	return nil
}

func runReproduce(c *core.Ctx, cs Case) error {
	items := cs.Data.Items(cs.Config)
	one := !cs.Config.Multi || cs.Workers == 1 || cs.Workers == 0

	a := core.Open(cs.Config, nil)
	c.Cleanup(func() { a.Close() })
	build(a, cs.Setup, items, Variant{})
	before := answers(a, cs, items, !one)

	cf := cs.Config
	v := cs.V
	cf.Hint, cf.Verbose, cf.GCMem, cf.Sorter = v.Hint, v.Verbose, v.GCMem, v.Sorter
	cf.Builder = v.Builder && cf.Metric == "angular"
	count := 1
	if v.Second {
		count = 2
	}
	objs := core.OpenMany(cf, &core.Plug{Draws: v.Draws}, count)
	for _, o := range objs {
		o := o
		c.Cleanup(func() { o.Close() })
	}
	b := objs[count-1]
	if v.Second {
		// the first one is built with other items, between the additions and the build of the second
		f := objs[0]
		for i, w := range cs.Data.MoreVecs(cf, 40, 5) {
			f.Add(uint64(i), w)
		}
		f.Build(2, cs.Workers)
	}
	if v.Reused != "" {
		for i, w := range cs.Data.MoreVecs(cf, 60, 9) {
			b.Add(uint64(i), w)
		}
		if v.Reused != "filled" {
			b.Build(2, cs.Workers)
		}
		if v.Reused == "saved" {
			if err := b.Save(c.File("other.ann")); err != nil {
				return fmt.Errorf("saving before: %w", err)
			}
		}
		if err := b.Close(); err != nil {
			return fmt.Errorf("closing before: %w", err)
		}
	}
	build(b, cs.Setup, items, v)
	if err := same(before, answers(b, cs, items, !one)); err != nil {
		return fmt.Errorf("the index built the second way answers otherwise: %w", err)
	}

	fa, err := cs.Setup.Saved(a, c.File("a.ann"))
	if err != nil {
		return err
	}
	fb, err := cs.Setup.Saved(b, c.File("b.ann"))
	if err != nil {
		return fmt.Errorf("second: %w", err)
	}
	if err := same(before, answers(b, cs, items, !one)); err != nil {
		return fmt.Errorf("the index built the second way answers otherwise when saved: %w", err)
	}

	_, splits, _ := fa.Stats(fa.Roots[0])
	if splits > 0 {
		c.NonTrivial()
	}
	cs.Setup.Classes(c, len(items))
	c.ClassIf(v.Draws > 0, "drawn before")
	c.ClassIf(v.Reused != "", "re-used")
	c.ClassIf(v.Second, "second of a builder")
	c.ClassIf(!one, "several workers")

	if one {
		if !bytes.Equal(fa.B, fb.B) {
			return fmt.Errorf("the files differ: %s", difference(fa, fb))
		}
		return nil
	}
	x, y := fa.Canonical(), fb.Canonical()
	sort.Strings(x)
	sort.Strings(y)
	if len(x) != len(y) {
		return fmt.Errorf("%d trees and %d trees", len(x), len(y))
	}
	for i := range x {
		if x[i] != y[i] {
			return fmt.Errorf("with %d workers the two builds have different trees", cs.Workers)
		}
	}
	// the items lie in the file in the same way
	n := int(fa.NItems) * fa.NodeSize
	if !bytes.Equal(fa.B[:n], fb.B[:n]) {
		return fmt.Errorf("the nodes of the items differ")
	}
	return nil
}

func difference(a, b *core.Forest) string {
	if len(a.B) != len(b.B) {
		return fmt.Sprintf("%d bytes, %d trees and %d bytes, %d trees", len(a.B), a.Trees, len(b.B), b.Trees)
	}
	for i := range a.B {
		if a.B[i] != b.B[i] {
			return fmt.Sprintf("first in node %d of %d (%d items) at byte %d of its %d", i/a.NodeSize, a.Nodes, a.NItems, i%a.NodeSize, a.NodeSize)
		}
	}
	return "nowhere"
}

// Variety is a case of sub check "variety".
type Variety struct {
	Config  core.Config `json:"config"`
	N       int         `json:"n"`
	DSeed   uint64      `json:"dseed"`
	Trees   int         `json:"trees"`
	Workers int         `json:"workers"`
	Seed2   uint64      `json:"seed2"`
}

var _ = core.Sub("variety", core.Spec[Variety]{
	Quick: 5000, Thorough: 120000,
	Rule: "random points in general position, 2 to 16 trees by 1 to 8 workers: all trees of an index are pairwise different, and none is a tree of an " +
		"index with another seed (with one worker any, with several one further away than their number); non-trivial: always (there is a choice of at least 1000 pairs of first items)",
	Gen: func(t *rapid.T) Variety {
		c := Variety{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"angular", "angular", "dot", "euclid"}, MaxDim: 24, Builder: true, Multi: true})}
		if c.Config.Dim < 3 {
			c.Config.Dim += 3
		}
		c.Config.Rnd = rapid.SampledFrom([]string{"", "", "kiss", "go", "xorshift"}).Draw(t, "rnd")
		c.N = c.Config.Layout().K + rapid.IntRange(50, 300).Draw(t, "n")
		c.DSeed = rapid.Uint64().Draw(t, "dseed")
		c.Trees = rapid.IntRange(2, 16).Draw(t, "trees")
		c.Workers = rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 4, 8}).Draw(t, "workers")
		c.Config.Seed = uint64(rapid.Uint32Range(1, 1<<31).Draw(t, "seed"))
		switch rapid.IntRange(0, 4).Draw(t, "seedkind") {
		case 0:
			c.Config.Seed = 0
		case 1:
			c.Config.Seed = uint64(rapid.IntRange(1, 50).Draw(t, "seed"))
		case 2:
			// seeds of the workers that wrap around (and come by the default, 0)
			c.Config.Seed = 1<<32 - uint64(rapid.IntRange(1, 4).Draw(t, "seed"))
			if c.Config.U64 {
				c.Config.Seed |= 0xffffffff << 32
			}
		}
		if c.Config.Rnd == "go" {
			// math/rand takes seeds modulo 2^31-1
			c.Config.Seed = 1 + c.Config.Seed%(1<<30)
		}
		c.Seed2 = c.Config.Seed/2 + 1000 + uint64(rapid.IntRange(0, 1000).Draw(t, "seed2"))
		if !c.Config.Multi || c.Workers == 0 || c.Workers == 1 {
			// with a single worker seeds next to one another make different forests too
			bit := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 7, 8, 15, 16, 24, 29, 31, 32, 40, 63}).Draw(t, "bit")
			if c.Config.Rnd == "go" {
				bit = min(bit, 29)
			} else if !c.Config.U64 {
				bit = min(bit, 31)
			}
			if rapid.Bool().Draw(t, "next") && c.Config.Seed^1<<bit != 0 && c.Config.Seed != 0 {
				c.Seed2 = c.Config.Seed ^ 1<<bit
			}
		}
		return c
	},
	Run: func(c *core.Ctx, cs Variety) error {
		s := core.Setup{Config: cs.Config, Data: core.Data{Kind: "gauss", Seed: cs.DSeed, N: cs.N, IDs: "dense"}, Trees: cs.Trees, Workers: cs.Workers}
		seen := map[string]int{}
		for round := 0; round < 2; round++ {
			if round == 1 {
				s.Config.Seed = cs.Seed2
				if d := cs.Seed2 - cs.Config.Seed; (d < 5000 || -d < 5000) && cs.Config.Multi && cs.Workers != 0 && cs.Workers != 1 {
					break // workers of both may have the same seed
				}
			}
			ix, _, _ := s.Built(c, nil)
			f, err := s.Saved(ix, c.File(fmt.Sprint(round)))
			if err != nil {
				return err
			}
			if f.Trees != cs.Trees {
				return fmt.Errorf("%d trees, want %d", f.Trees, cs.Trees)
			}
			for i, r := range f.Canonical() {
				if j, ok := seen[r]; ok {
					if j/1000 == round {
						return fmt.Errorf("trees %d and %d of one index are the same (%d items, %d workers)", j%1000, i, cs.N, cs.Workers)
					}
					return fmt.Errorf("tree %d with seed %d is tree %d with seed %d", i, cs.Seed2, j%1000, cs.Config.Seed)
				}
				seen[r] = round*1000 + i
			}
			os.Remove(c.File(fmt.Sprint(round)))
		}
		c.NonTrivial()
		c.ClassIf(cs.Config.Multi, "multi worker policy")
		return nil
	},
})
