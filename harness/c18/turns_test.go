package c18

import (
	"fmt"

	"github.com/mariotoffia/goannoy/interfaces"
	"pgregory.net/rapid"

	"verifharness/core"
)

// TurnsCase builds with as many trees as fit by workers who take turns.
type TurnsCase struct {
	Config core.Config `json:"config"`
	Data   core.Data   `json:"data"`
	Order  []int       `json:"order"` // numbers of the workers, in the order of their turns
}

// turns is a policy that runs one worker after another.
type turns struct {
	order []int
}

func (p *turns) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	for _, w := range p.order {
		b.ThreadBuild(trees, w, p)
	}
}
func (p *turns) LockNNodes()        {}
func (p *turns) UnlockNNodes()      {}
func (p *turns) LockNodes()         {}
func (p *turns) UnlockNodes()       {}
func (p *turns) LockSharedNodes()   {}
func (p *turns) UnlockSharedNodes() {}
func (p *turns) LockRoots()         {}
func (p *turns) UnlockRoots()       {}

var _ = core.Sub("turns", core.Spec[TurnsCase]{
	Quick: 4000, Thorough: 100000,
	Rule: "as many trees as fit, built under a policy that runs one to nine workers one after another: those who come when there are twice as many nodes " +
		"as items add no tree; an index without items gets none; non-trivial: more than one worker, and items",
	Gen: func(t *rapid.T) TurnsCase {
		o := core.Opt{Metrics: []string{"angular", "angular", "dot", "euclid"}, MaxDim: 40, MaxN: 400, MaxCells: 6000, Rnd: true}
		c := TurnsCase{Config: core.DrawConfig(t, o)}
		c.Data = core.DrawData(t, c.Config, o)
		if rapid.IntRange(0, 9).Draw(t, "empty") == 0 {
			c.Data.N = 0
		}
		k := rapid.IntRange(1, 9).Draw(t, "workers")
		c.Order = rapid.Permutation(ints(k)).Draw(t, "order")
		return c
	},
	Run: runTurns,
})

func ints(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

func runTurns(c *core.Ctx, cs TurnsCase) error {
	ix := core.Open(cs.Config, &core.Plug{Policy: &turns{order: cs.Order}})
	c.Cleanup(func() { ix.Close() })
	items := cs.Data.Items(cs.Config)
	for _, it := range items {
		ix.Add(it.ID, it.V)
	}
	ix.Build(-1, len(cs.Order))
	what := fmt.Sprintf("Build(-1, %d) of %d items", len(cs.Order), len(items))
	err := ix.Save(c.File("f"))
	if len(items) == 0 {
		c.Class("no items")
		if err == nil {
			return fmt.Errorf("%s made a tree", what)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	f, err := core.ReadForest(c.File("f"), cs.Config.Layout())
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if err := f.Check(core.ModelOf(items)); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if err := automatic(f, 1); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if len(cs.Order) > 1 {
		c.NonTrivial()
	}
	c.ClassIf(f.Trees > 1, "several trees")
	return nil
}
