// Package c02 decides: every tree of the saved forest holds every added item exactly once.
package c02

import (
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C02") }
func TestCheck(t *testing.T) { core.RunAll(t) }

var _ = core.Sub("forest", core.Spec[core.Setup]{
	Quick: 20000, Thorough: 400000,
	Rule: "item set x types x metric x trees x workers x policy x generator, built and saved, the file read by an independent reader; " +
		"non-trivial: some tree has at least one split by a hyperplane",
	Gen: func(t *rapid.T) core.Setup {
		return core.DrawSetup(t, core.Opt{
			Metrics: []string{"angular", "angular", "angular", "dot"},
			Builder: true, Multi: true, GCMem: true, Rnd: true, Sorter: true, Hint: true, Verbose: true,
		})
	},
	Run: run,
})

var _ = core.Sub("large", core.Spec[core.Setup]{
	Quick: 64, Thorough: 1500,
	Rule: core.LargeRule + "otherwise as forest",
	Gen: func(t *rapid.T) core.Setup {
		return core.DrawLarge(t, core.Opt{Metrics: []string{"angular", "angular", "dot"}, Builder: true, Multi: true, GCMem: true, Rnd: true, Hint: true})
	},
	Run: run,
})

func run(c *core.Ctx, s core.Setup) error {
	ix, items, mod := s.Built(c, nil)
	s.Classes(c, len(items))
	f, err := s.Saved(ix, c.File("x.ann"))
	if err != nil {
		return err
	}
	if err := f.Check(mod); err != nil {
		return err
	}
	for id, v := range mod {
		if got := f.Vec(id); !core.SameVec(got, v) {
			return fmt.Errorf("the file holds another vector for item %d: %v, want %v", id, got, v)
		}
	}
	splits, degenerate := 0, 0
	for t, r := range f.Roots {
		depth, sp, dg := f.Stats(r)
		splits += sp
		degenerate += dg
		c.ClassIf(depth >= 8, "tree of depth 8 or more")
		if err := sides(f, s.Config, mod, r); err != nil {
			return fmt.Errorf("tree %d: %w", t, err)
		}
	}
	c.ClassIf(degenerate > 0, "split at random")
	if splits > degenerate {
		c.NonTrivial()
	}
	return nil
}

// sides checks that items lie on the side of each hyperplane they are stored on.
func sides(f *core.Forest, cf core.Config, mod core.Model, root uint64) error {
	if len(mod) == 1 {
		return nil
	}
	_, err := below(f, cf, mod, root)
	return err
}

func below(f *core.Forest, cf core.Config, mod core.Model, i uint64) ([]uint64, error) {
	switch f.Kind(i) {
	case core.Item:
		return []uint64{i}, nil
	case core.List:
		var r []uint64
		for k := 0; k < int(f.Desc(i)); k++ {
			r = append(r, f.Child(i, k))
		}
		return r, nil
	case core.Empty:
		return nil, nil
	}
	normal := f.Vec(i)
	extra := f.ExtraOf(i)
	zero := true
	for _, x := range normal {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, fmt.Errorf("node %d has the normal %v", i, normal)
		}
		if x != 0 {
			zero = false
		}
	}
	var all []uint64
	for side := 0; side < 2; side++ {
		ids, err := below(f, cf, mod, f.Child(i, side))
		if err != nil {
			return nil, err
		}
		if len(ids) == 0 {
			return nil, fmt.Errorf("side %d of node %d is empty", side, i)
		}
		for _, id := range ids {
			if zero {
				break
			}
			m, abs := core.Dot(normal, mod[id])
			m += extra * extra
			tol := float64(cf.Dim+4) * cf.U() * (abs + extra*extra) * 1.1
			if (side == 0 && m > tol) || (side == 1 && m < -tol) {
				return nil, fmt.Errorf("item %d lies on side %d of the split of node %d, its margin is %v", id, side, i, m)
			}
		}
		all = append(all, ids...)
	}
	return all, nil
}
