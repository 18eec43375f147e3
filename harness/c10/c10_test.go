// Package c10 decides: parallel building is correct under every schedule.
package c10

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/mariotoffia/goannoy/index/policy"
	"github.com/mariotoffia/goannoy/interfaces"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C10") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Case of sub check "schedules".
type Case struct {
	core.Setup
	Shares   []int         `json:"shares"`
	Schedule core.Schedule `json:"schedule"`
	Hinted   bool          `json:"hinted,omitempty"`
	AtStart  bool          `json:"atstart,omitempty"`
}

var _ = core.Sub("schedules", core.Spec[Case]{
	Quick: 14000, Thorough: 300000,
	Rule: "item set x trees per worker (1 to 8 workers, uneven shares, none, automatic) x a schedule (random, priorities with change points, round robin, " +
		"one worker starved; preemption at locks or at every call into a plug-in; three kinds of shared lock) run by a policy that lets one worker go at a " +
		"time; the node memory is accessible only while the running worker holds a lock for it, and old blocks never again; the trees must be those each " +
		"worker builds alone; non-trivial: at least two workers build, with 10 or more switches between them and a growth of the memory meanwhile",
	Gen: func(t *rapid.T) Case {
		c := Case{Setup: core.DrawSetup(t, core.Opt{
			Metrics: []string{"angular", "angular", "angular", "dot", "euclid"}, MaxDim: 40, MaxN: 150, MaxCells: 6000, Rnd: true, Verbose: true,
		})}
		c.Config.Multi = true
		if k := c.Config.Layout().K; c.Data.N <= k && c.Data.Vecs == nil && rapid.IntRange(0, 3).Draw(t, "more") > 0 {
			c.Data.N += k
		}
		if rapid.IntRange(0, 4).Draw(t, "hinted") == 0 {
			c.Config.Hint = rapid.IntRange(1, 400).Draw(t, "hint")
		}
		w := rapid.SampledFrom([]int{1, 2, 2, 2, 3, 3, 4, 5, 8}).Draw(t, "schedworkers")
		auto := rapid.IntRange(0, 7).Draw(t, "auto") == 0
		for i := 0; i < w; i++ {
			n := -1
			if !auto {
				n = rapid.IntRange(0, 3).Draw(t, "share")
			}
			c.Shares = append(c.Shares, n)
		}
		if !auto && c.Shares[0] == 0 {
			c.Shares[0] = 1
		}
		c.Trees = 0
		for _, n := range c.Shares {
			c.Trees += n
		}
		if auto {
			c.Trees = -1
		}
		c.Workers = w
		c.Schedule = core.Schedule{
			Kind:            rapid.SampledFrom([]string{"random", "random", "pct", "robin", "starve"}).Draw(t, "schedule"),
			Seed:            rapid.Uint64().Draw(t, "schedseed"),
			WriterFirst:     rapid.Bool().Draw(t, "writerfirst"),
			SharedExclusive: rapid.IntRange(0, 5).Draw(t, "sharedexclusive") == 0,
			Fine:            rapid.IntRange(0, 2).Draw(t, "fine") == 0,
		}
		switch c.Schedule.Kind {
		case "random":
			c.Schedule.P = rapid.SampledFrom([]int{1, 5, 20, 50, 100}).Draw(t, "p")
		case "pct":
			c.Schedule.P = rapid.IntRange(0, 12).Draw(t, "p")
		case "robin":
			c.Schedule.P = rapid.IntRange(1, 30).Draw(t, "p")
		}
		c.AtStart = rapid.IntRange(0, 3).Draw(t, "atstart") == 0
		return c
	},
	Run: runSchedules,
})

func runSchedules(c *core.Ctx, cs Case) error {
	items := cs.Data.Items(cs.Config)
	mod := core.ModelOf(items)
	g := &core.GuardAllocator{AtStart: cs.AtStart}
	p := core.NewSched(cs.Schedule)
	p.Shares = cs.Shares
	p.Guard = g
	owner := map[any]int{}
	g.Check = func(size int) {
		if w := p.Current(); w >= 0 {
			if _, nodes, _ := p.Holds(); !nodes {
				p.Fail("worker %d has the memory moved without holding the lock of the nodes", w)
			}
			p.Point()
		}
	}
	watch := &core.Watch{
		Map: func(mem uintptr, item uint64) {
			w := p.Current()
			if w < 0 {
				return
			}
			base, size := g.Current()
			if mem != base {
				for _, b := range g.All {
					if mem == b.Ptr {
						p.Fail("worker %d uses the memory that was handed back", w)
					}
				}
				return // a node of its own
			}
			nnodes, nodes, shared := p.Holds()
			if !nnodes && !nodes && !shared {
				p.Fail("worker %d touches node %d without a lock", w, item)
			}
			if l := uint64(cs.Config.Layout().NodeSize); (item+1)*l > uint64(size) {
				p.Fail("worker %d touches node %d, beyond the %d bytes of the block", w, item, size)
			}
		},
		Dist: func(op string) { p.Point() },
		Gen: func(gen any) {
			if w := p.Current(); w >= 0 {
				if o, ok := owner[gen]; ok && o != w {
					p.Fail("workers %d and %d share a generator", o, w)
				}
				owner[gen] = w
			}
		},
	}
	ix := core.Open(cs.Config, &core.Plug{Policy: p, BuildAlloc: g, Watch: watch})
	c.Cleanup(g.Release)
	c.Cleanup(func() { ix.Close() })
	for _, it := range items {
		ix.Add(it.ID, it.V)
	}
	ix.Build(cs.Trees, cs.Workers)

	if err := verify(c, cs.Setup, ix, mod); err != nil {
		return err
	}
	building := 0
	for _, n := range cs.Shares {
		if n != 0 {
			building++
		}
	}
	if building > 1 && p.Switches >= 10 && g.Moves > 2 {
		c.NonTrivial()
	}
	cs.Setup.Classes(c, len(items))
	c.Class("schedule %s", cs.Schedule.Kind)
	c.ClassIf(p.Blocked > 0, "a worker had to wait for a lock")
	c.ClassIf(p.MaxReaders > 1, "several workers under the shared lock")
	c.ClassIf(p.GrowUnderWay > 0, "others ran while the memory grew")
	c.ClassIf(p.Switches > 100, "more than 100 switches")
	c.ClassIf(p.Degraded(), "let go")

	if cs.Trees == -1 {
		return nil
	}
	// the same trees as when the workers work one after another
	alone := core.NewSched(core.Schedule{Kind: "robin", P: 1 << 40})
	alone.Shares = cs.Shares
	cf := cs.Config
	cf.Verbose = false
	o := core.Open(cf, &core.Plug{Policy: alone})
	c.Cleanup(func() { o.Close() })
	for _, it := range items {
		o.Add(it.ID, it.V)
	}
	o.Build(cs.Trees, cs.Workers)
	a, err := cs.Setup.Saved(ix, c.File("a"))
	if err != nil {
		return err
	}
	b, err := cs.Setup.Saved(o, c.File("b"))
	if err != nil {
		return err
	}
	return sameTrees(a, b)
}

func sameTrees(a, b *core.Forest) error {
	x, y := a.Canonical(), b.Canonical()
	sort.Strings(x)
	sort.Strings(y)
	if len(x) != len(y) {
		return fmt.Errorf("%d trees, %d when the workers work one after another", len(x), len(y))
	}
	for i := range x {
		if x[i] != y[i] {
			return fmt.Errorf("the trees are not those the workers build one after another")
		}
	}
	return nil
}

// verify checks the built index: vectors, number of trees, every tree complete.
func verify(c *core.Ctx, s core.Setup, ix core.Index, mod core.Model) error {
	for id, v := range mod {
		if got := ix.Item(id); !core.SameVec(got, v) {
			return fmt.Errorf("item %d reads %v after the build, %v was added", id, got, v)
		}
	}
	f, err := s.Saved(ix, c.File("verify"))
	if err != nil {
		return err
	}
	if err := f.Check(mod); err != nil {
		return err
	}
	if s.Trees >= 0 && f.Trees != s.Trees {
		return fmt.Errorf("%d trees, asked for %d", f.Trees, s.Trees)
	}
	for id, v := range mod {
		if got := ix.Item(id); !core.SameVec(got, v) {
			return fmt.Errorf("item %d reads %v in the saved index, %v was added", id, got, v)
		}
	}
	return nil
}

// Free is a case of the sub checks in which the scheduler of the operating system decides.
type Free struct {
	core.Setup
	Own bool `json:"own"` // a policy of the harness with locks of package sync
}

// ownPolicy hands every worker the same locks; the policy object given to the index has none.
type ownPolicy struct {
	locks
}

type locks struct {
	nodes  sync.RWMutex
	nnodes sync.Mutex
	roots  sync.Mutex
}

func (l *locks) Build(interfaces.AnnoyIndexBuilder, int, int) { panic("a worker builds") }
func (l *locks) LockNNodes()                                  { l.nnodes.Lock() }
func (l *locks) UnlockNNodes()                                { l.nnodes.Unlock() }
func (l *locks) LockNodes()                                   { l.nodes.Lock() }
func (l *locks) UnlockNodes()                                 { l.nodes.Unlock() }
func (l *locks) LockSharedNodes()                             { l.nodes.RLock() }
func (l *locks) UnlockSharedNodes()                           { l.nodes.RUnlock() }
func (l *locks) LockRoots()                                   { l.roots.Lock() }
func (l *locks) UnlockRoots()                                 { l.roots.Unlock() }

func (p *ownPolicy) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	if workers < 1 {
		workers = 4
	}
	l := &locks{}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		n := trees
		if n != -1 {
			n = (trees + i) / workers
		}
		wg.Add(1)
		i := i
		go func() { defer wg.Done(); b.ThreadBuild(n, i, l) }()
	}
	wg.Wait()
}

func genFree(setup func(*rapid.T, core.Opt) core.Setup, maxN int) func(t *rapid.T) Free {
	return func(t *rapid.T) Free {
		c := Free{Setup: setup(t, core.Opt{
			Metrics: []string{"angular", "angular", "dot", "euclid"}, MaxDim: 40, MaxN: maxN, MaxCells: 20 * maxN, Rnd: true, Builder: true,
		})}
		c.Config.Multi = true
		c.Config.Verbose = c.Data.N < 60 && rapid.IntRange(0, 4).Draw(t, "verbose") == 0
		c.Workers = rapid.SampledFrom([]int{-1, 2, 3, 4, 8, 16}).Draw(t, "workers")
		switch {
		case c.Trees > 100:
		case c.Data.N > 3000:
			c.Trees = rapid.SampledFrom([]int{-1, 3, 5}).Draw(t, "trees")
		default:
			c.Trees = rapid.SampledFrom([]int{-1, 2, 5, 8, 16, 33}).Draw(t, "trees")
		}
		c.Own = rapid.IntRange(0, 2).Draw(t, "own") == 0
		if c.Own {
			c.Config.Builder = false
		}
		return c
	}
}

func runFree(c *core.Ctx, cs Free) error {
	items := cs.Data.Items(cs.Config)
	mod := core.ModelOf(items)
	p := &core.Plug{}
	if cs.Own {
		p.Policy = &ownPolicy{}
	}
	ix := core.Open(cs.Config, p)
	c.Cleanup(func() { ix.Close() })
	for _, it := range items {
		ix.Add(it.ID, it.V)
	}
	ix.Build(cs.Trees, cs.Workers)
	if cs.Trees > 1 {
		c.NonTrivial()
	}
	c.Class("workers %d", cs.Workers)
	c.ClassIf(cs.Own, "policy of the harness")
	return verify(c, cs.Setup, ix, mod)
}

const freeRule = "builds by the multi worker policy of the library (or a policy of the harness with locks of package sync), 2 to 16 workers on real threads, " +
	"the index growing meanwhile; every tree complete and every vector intact; non-trivial: more than one tree"

var _ = core.Sub("threads", core.Spec[Free]{
	Quick: 3000, Thorough: 60000, Rule: freeRule, Gen: genFree(core.DrawSetup, 400), Run: runFree,
})

var _ = core.Sub("large", core.Spec[Free]{
	Quick: 32, Thorough: 800, Rule: core.LargeRule + "otherwise as threads", Gen: genFree(core.DrawLarge, 400), Run: runFree,
})

var _ = core.Sub("race", core.Spec[Free]{
	Quick: 600, Thorough: 15000, Race: true, Rule: freeRule + "; under the race detector", Gen: genFree(core.DrawSetup, 200), Run: runFree,
})

// Locks is a case of sub check "locks": what the locks of the multi worker policy promise.
type Locks struct {
	Trees   int    `json:"trees"`
	Workers int    `json:"workers"`
	Rounds  int    `json:"rounds"`
	Seed    uint64 `json:"seed"`
}

type client struct {
	cs      Locks
	nNodes  int // guarded by LockNNodes
	nodes   []int
	roots   []int
	inNodes atomic.Int32
	readers atomic.Int32
	inN     atomic.Int32
	inRoots atomic.Int32
	broken  atomic.Value
	ended   atomic.Int32
}

func (b *client) ThreadBuild(trees, worker int, p interfaces.AnnoyIndexBuildPolicy) {
	rng := core.NewPrng(b.cs.Seed + uint64(worker))
	check := func(ok bool, what string) {
		if !ok {
			b.broken.Store(what)
		}
	}
	for r := 0; r < b.cs.Rounds; r++ {
		switch rng.Intn(4) {
		case 0:
			p.LockNNodes()
			check(b.inN.Add(1) == 1, "two workers hold the lock of the number of nodes")
			b.nNodes++
			if rng.Intn(3) == 0 {
				// as when the memory grows
				p.LockNodes()
				check(b.inNodes.Add(1) == 1 && b.readers.Load() == 0, "the lock of the nodes is not exclusive")
				b.nodes = append([]int(nil), append(b.nodes, worker)...)
				b.inNodes.Add(-1)
				p.UnlockNodes()
			}
			b.inN.Add(-1)
			p.UnlockNNodes()
		case 1, 2:
			p.LockSharedNodes()
			b.readers.Add(1)
			check(b.inNodes.Load() == 0, "nodes are shared while another worker has the exclusive lock")
			s := 0
			for _, x := range b.nodes {
				s += x
			}
			if rng.Intn(4) == 0 {
				runtime.Gosched()
			}
			check(b.inNodes.Load() == 0, "nodes are shared while another worker has the exclusive lock")
			b.readers.Add(-1)
			p.UnlockSharedNodes()
		default:
			p.LockRoots()
			check(b.inRoots.Add(1) == 1, "two workers hold the lock of the roots")
			b.roots = append(b.roots, worker)
			b.inRoots.Add(-1)
			p.UnlockRoots()
		}
	}
	p.LockRoots()
	for i := 0; i < trees; i++ {
		b.roots = append(b.roots, -1)
	}
	p.UnlockRoots()
	b.ended.Add(1)
}

func genLocks(t *rapid.T) Locks {
	return Locks{
		Trees:   rapid.IntRange(0, 30).Draw(t, "trees"),
		Workers: rapid.SampledFrom([]int{1, 2, 3, 4, 8, 16}).Draw(t, "workers"),
		Rounds:  rapid.IntRange(1, 200).Draw(t, "rounds"),
		Seed:    rapid.Uint64().Draw(t, "seed"),
	}
}

func runLocks(c *core.Ctx, cs Locks) error {
	b := &client{cs: cs}
	p := policy.MultiWorker()
	p.Build(b, cs.Trees, cs.Workers)
	if int(b.ended.Load()) != cs.Workers {
		return fmt.Errorf("Build returned when %d of %d workers had ended", b.ended.Load(), cs.Workers)
	}
	if s := b.broken.Load(); s != nil {
		return fmt.Errorf("%v", s)
	}
	n := 0
	for _, x := range b.roots {
		if x == -1 {
			n++
		}
	}
	if n != cs.Trees {
		return fmt.Errorf("%d trees were asked of %d workers in all, want %d", n, cs.Workers, cs.Trees)
	}
	if cs.Workers > 1 && cs.Rounds > 20 {
		c.NonTrivial()
	}
	return nil
}

const locksRule = "the multi worker policy drives a client that takes its locks at random around plain variables; mutual exclusion is asserted; " +
	"non-trivial: two or more workers and over 20 rounds"

var _ = core.Sub("locks", core.Spec[Locks]{Quick: 2000, Thorough: 50000, Rule: locksRule, Gen: genLocks, Run: runLocks})

var _ = core.Sub("lockrace", core.Spec[Locks]{
	Quick: 400, Thorough: 10000, Race: true, Rule: locksRule + "; under the race detector", Gen: genLocks, Run: runLocks,
})
