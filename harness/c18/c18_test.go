// Package c18 decides: build makes exactly the trees asked for with the workers asked for.
package c18

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C18") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Round is one build.
type Round struct {
	Data    core.Data `json:"data"`
	Trees   int       `json:"trees"`
	Workers int       `json:"workers"`
}

// Case builds an index one or more times.
type Case struct {
	Config core.Config `json:"config"`
	Rounds []Round     `json:"rounds"`
}

func drawTrees(t *rapid.T) int {
	switch rapid.IntRange(0, 5).Draw(t, "treekind") {
	case 0, 1:
		return -1
	case 2:
		return rapid.IntRange(11, 70).Draw(t, "trees")
	}
	return rapid.IntRange(1, 16).Draw(t, "trees")
}

func drawWorkers(t *rapid.T, trees int) int {
	switch rapid.IntRange(0, 5).Draw(t, "workerkind") {
	case 0:
		return rapid.SampledFrom([]int{-1, 0}).Draw(t, "workers")
	case 1:
		return max(1, trees+rapid.IntRange(-1, 1).Draw(t, "workers"))
	case 2:
		return rapid.IntRange(17, 100).Draw(t, "workers")
	}
	return rapid.IntRange(1, 16).Draw(t, "workers")
}

var _ = core.Sub("index", core.Spec[Case]{
	Quick: 12000, Thorough: 400000,
	Rule: "one to three builds of one index (closed in between) with 1 to 70 trees or as many as fit, -1 to 100 workers, both policies; the trees in the " +
		"saved file are counted and walked, and their nodes counted; non-trivial: more than one worker and a number of trees it does not divide, or " +
		"an automatic number of trees of more than one",
	Gen: func(t *rapid.T) Case {
		o := core.Opt{Metrics: []string{"angular", "angular", "dot", "euclid"}, MaxDim: 48, MaxN: 600, MaxCells: 8000, Builder: true, Rnd: true}
		c := Case{Config: core.DrawConfig(t, o)}
		c.Config.Multi = rapid.IntRange(0, 3).Draw(t, "policy") > 0
		for i, k := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "rounds"); i < k; i++ {
			r := Round{Data: core.DrawData(t, c.Config, o), Trees: drawTrees(t)}
			r.Workers = drawWorkers(t, r.Trees)
			c.Rounds = append(c.Rounds, r)
		}
		return c
	},
	Run: run,
})

var _ = core.Sub("large", core.Spec[Case]{
	Quick: 48, Thorough: 1200, Rule: core.LargeRule + "otherwise as index",
	Gen: func(t *rapid.T) Case {
		s := core.DrawLarge(t, core.Opt{Metrics: []string{"angular", "angular", "dot", "euclid"}, Builder: true, Rnd: true})
		s.Config.Multi = rapid.IntRange(0, 3).Draw(t, "policy") > 0
		return Case{Config: s.Config, Rounds: []Round{{Data: s.Data, Trees: s.Trees, Workers: drawWorkers(t, min(s.Trees, 100))}}}
	},
	Run: run,
})

// nodes of a tree.
func nodes(f *core.Forest, i uint64) int {
	if i < f.NItems {
		return 0
	}
	if f.Kind(i) != core.Split {
		return 1
	}
	return 1 + nodes(f, f.Child(i, 0)) + nodes(f, f.Child(i, 1))
}

func run(c *core.Ctx, cs Case) error {
	ix := core.Open(cs.Config, nil)
	c.Cleanup(func() { ix.Close() })
	for i, r := range cs.Rounds {
		if i > 0 {
			if err := ix.Close(); err != nil {
				return err
			}
		}
		items := r.Data.Items(cs.Config)
		for _, it := range items {
			ix.Add(it.ID, it.V)
		}
		ix.Build(r.Trees, r.Workers)
		file := c.File(fmt.Sprint(i))
		if err := ix.Save(file); err != nil {
			return fmt.Errorf("round %d: %w", i, err)
		}
		f, err := core.ReadForest(file, cs.Config.Layout())
		if err != nil {
			return fmt.Errorf("round %d, Build(%d, %d) of %d items: %w", i, r.Trees, r.Workers, len(items), err)
		}
		if r.Trees >= 0 && f.Trees != r.Trees {
			return fmt.Errorf("round %d: Build(%d, %d) of %d items made %d trees", i, r.Trees, r.Workers, len(items), f.Trees)
		}
		if err := f.Check(core.ModelOf(items)); err != nil {
			return fmt.Errorf("round %d, Build(%d, %d): %w", i, r.Trees, r.Workers, err)
		}
		workers := 1
		if cs.Config.Multi {
			switch workers = r.Workers; workers {
			case -1:
				workers = max(runtime.NumCPU(), runtime.GOMAXPROCS(0))
			case 0:
				workers = 1
			}
		}
		if r.Trees == -1 {
			if err := automatic(f, workers); err != nil {
				return fmt.Errorf("round %d: Build(-1, %d) of %d items: %w", i, r.Workers, len(items), err)
			}
			if f.Trees > 1 {
				c.NonTrivial()
			}
			c.Class("automatic, %s", class(workers))
		} else {
			if workers > 1 && r.Trees%workers != 0 {
				c.NonTrivial()
			}
			c.ClassIf(r.Trees < workers, "fewer trees than workers")
			c.ClassIf(r.Trees > workers && r.Trees%workers != 0, "more trees than workers, not divisible")
			c.ClassIf(!cs.Config.Multi && r.Workers != 1, "single worker policy, other number asked for")
		}
		c.Class("size %s", core.SizeClass(len(items), cs.Config.Layout().K))
		c.ClassIf(i > 0, "built again after closing")
	}
	return nil
}

func class(workers int) string {
	switch {
	case workers == 1:
		return "one worker"
	case workers <= 16:
		return "2 to 16 workers"
	}
	return "more workers"
}

// automatic: trees were added until the nodes numbered at least twice the items and no longer.
// When that number was reached, each worker had one tree under way at most; all others were
// complete and, with the items, fewer than that.
func automatic(f *core.Forest, workers int) error {
	if f.Trees < 1 {
		return fmt.Errorf("no tree")
	}
	var sizes []int
	total := 0
	for _, r := range f.Roots {
		n := nodes(f, r)
		sizes = append(sizes, n)
		total += n
	}
	items := int(f.NItems)
	if items+total < 2*items {
		return fmt.Errorf("stopped at %d nodes, the index has room for twice its %d items", items+total, items)
	}
	if workers == 1 {
		// in order: without the last it was not enough
		if rest := total - sizes[len(sizes)-1]; rest >= items {
			return fmt.Errorf("tree %d was made though there were %d nodes for %d items already", len(sizes), items+rest, items)
		}
		return nil
	}
	sort.Sort(sort.Reverse(sort.IntSlice(sizes)))
	rest := 0
	for _, n := range sizes[min(workers, len(sizes)):] {
		rest += n
	}
	if rest >= items {
		return fmt.Errorf("%d trees by %d workers: even without the %d largest there are %d nodes for %d items", len(sizes), workers, workers,
			items+rest, items)
	}
	return nil
}

// PolicyCase calls a policy with a builder that only counts.
type PolicyCase struct {
	Multi bool `json:"multi"`
	Calls []struct {
		Trees   int `json:"trees"`
		Workers int `json:"workers"`
	} `json:"calls"`
	Pause int `json:"pause"` // microseconds a worker takes
	Procs int `json:"procs"` // processors Go may use: not to be mistaken for those there are, or a part of them
}

var _ = core.Sub("policy", core.Spec[PolicyCase]{
	Quick: 24000, Thorough: 600000,
	Rule: "the built-in policies with a builder that counts: the trees handed out, the workers, their numbers, and that all are done when Build returns, " +
		"for 0 to 2^40 trees and -1 to 300 workers; non-trivial: more than one worker",
	Gen: func(t *rapid.T) PolicyCase {
		c := PolicyCase{Multi: rapid.IntRange(0, 4).Draw(t, "multi") > 0}
		for i, k := 0, rapid.IntRange(1, 3).Draw(t, "calls"); i < k; i++ {
			var x struct {
				Trees   int `json:"trees"`
				Workers int `json:"workers"`
			}
			switch rapid.IntRange(0, 4).Draw(t, "treekind") {
			case 0:
				x.Trees = -1
			case 1, 2:
				x.Trees = rapid.IntRange(0, 20).Draw(t, "trees")
			case 3:
				// more than are ever built, but counted right nevertheless
				x.Trees = rapid.IntRange(1<<20, 1<<40).Draw(t, "trees")
			default:
				x.Trees = rapid.IntRange(0, 1000).Draw(t, "trees")
			}
			switch rapid.IntRange(0, 3).Draw(t, "workerkind") {
			case 0:
				x.Workers = rapid.SampledFrom([]int{-1, 0, 1}).Draw(t, "workers")
			case 1, 2:
				x.Workers = rapid.IntRange(1, 20).Draw(t, "workers")
			default:
				x.Workers = rapid.IntRange(1, 300).Draw(t, "workers")
			}
			c.Calls = append(c.Calls, x)
		}
		c.Pause = rapid.SampledFrom([]int{0, 0, 0, 50}).Draw(t, "pause")
		c.Procs = rapid.SampledFrom([]int{3, 5, 7}).Draw(t, "procs")
		return c
	},
	Run: runPolicy,
})

type call struct {
	trees, worker int
	locks         interfaces.AnnoyIndexBuildPolicy
}

type recorder struct {
	mu            sync.Mutex
	calls         []call
	started, done int
	pause         time.Duration
	shared        int // changed under the lock of the policy only
	lock          bool
}

func (r *recorder) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	r.mu.Lock()
	r.started++
	r.calls = append(r.calls, call{trees, worker, p})
	r.mu.Unlock()
	if r.pause > 0 {
		time.Sleep(r.pause)
	} else {
		runtime.Gosched()
	}
	if p != nil {
		p.LockRoots()
		x := r.shared
		runtime.Gosched()
		r.shared = x + 1
		p.UnlockRoots()
		p.LockNNodes()
		p.LockNodes()
		p.UnlockNodes()
		p.UnlockNNodes()
		p.LockSharedNodes()
		p.UnlockSharedNodes()
	}
	r.mu.Lock()
	r.done++
	r.mu.Unlock()
}

func runPolicy(c *core.Ctx, cs PolicyCase) error {
	var p interfaces.AnnoyIndexBuildPolicy = policy.SingleWorker()
	if cs.Multi {
		p = policy.MultiWorker()
	}
	if cs.Procs > 0 && runtime.GOMAXPROCS(0) != cs.Procs {
		runtime.GOMAXPROCS(cs.Procs)
	}
	for i, x := range cs.Calls {
		r := &recorder{pause: time.Duration(cs.Pause) * time.Microsecond}
		p.Build(r, x.Trees, x.Workers)
		r.mu.Lock()
		started, done := r.started, r.done
		r.mu.Unlock()
		what := fmt.Sprintf("call %d, Build(%d, %d)", i, x.Trees, x.Workers)
		if started != done || len(r.calls) != done {
			return fmt.Errorf("%s returned while %d of %d workers were not done", what, started-done, started)
		}
		if r.shared != done {
			return fmt.Errorf("%s: the roots lock let two workers in: %d of %d", what, r.shared, done)
		}
		workers := map[int]bool{x.Workers: true}
		switch {
		case !cs.Multi || x.Workers == 0:
			workers = map[int]bool{1: true}
		case x.Workers == -1:
			workers = map[int]bool{runtime.NumCPU(): true, runtime.GOMAXPROCS(0): true}
		}
		sum, busy := 0, 0
		seen := map[int]bool{}
		for _, k := range r.calls {
			if k.trees < 0 && (k.trees != -1 || x.Trees != -1) {
				return fmt.Errorf("%s asks worker %d for %d trees", what, k.worker, k.trees)
			}
			if x.Trees == -1 && k.trees >= 0 {
				return fmt.Errorf("%s asks worker %d for %d trees, not for as many as fit", what, k.worker, k.trees)
			}
			if k.locks == nil {
				return fmt.Errorf("%s hands no policy to worker %d", what, k.worker)
			}
			sum += k.trees
			if k.trees != 0 {
				if seen[k.worker] {
					return fmt.Errorf("%s numbers two workers %d", what, k.worker)
				}
				seen[k.worker] = true
				busy++
			}
		}
		if x.Trees >= 0 && sum != x.Trees {
			return fmt.Errorf("%s asks its workers for %d trees together", what, sum)
		}
		ok := false
		for w := range workers {
			want := w
			if x.Trees >= 0 {
				want = min(w, x.Trees)
			}
			ok = ok || busy == want && len(r.calls) <= max(w, 1)
		}
		if !ok {
			return fmt.Errorf("%s has %d workers, %d of them with trees to build", what, len(r.calls), busy)
		}
		if busy > 1 {
			c.NonTrivial()
		}
		c.ClassIf(x.Trees == 0, "no trees")
		c.ClassIf(x.Trees == -1, "automatic")
		c.ClassIf(x.Trees > 0 && x.Trees < x.Workers, "fewer trees than workers")
		c.ClassIf(x.Workers < 1, fmt.Sprintf("%d workers", x.Workers))
	}
	return nil
}
