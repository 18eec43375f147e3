// Package c24 decides: resource use stays in proportion and is given back.
package c24

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"testing"

	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C24") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// ------------------------------------------------------------------------------- memory

// MemOp is a step of one of the objects.
type MemOp struct {
	I    int    `json:"i"`
	Op   string `json:"op"` // fill, build, save, load, close, failload, failsave, query
	File string `json:"file,omitempty"`
	K    int    `json:"k,omitempty"`
}

// MemCase is a history of objects that are large enough to be seen in the heap.
type MemCase struct {
	Config  core.Config `json:"config"`
	Data    core.Data   `json:"data"`
	Objects int         `json:"objects"`
	Trees   int         `json:"trees"`
	Ops     []MemOp     `json:"ops"`
}

// slack is what an index may hold besides its nodes, and what the rest of the process may gain
// during a case; the nodes of every index take several times as much.
const slack = 640 << 10

var _ = core.Sub("memory", core.Spec[MemCase]{
	Quick: 400, Thorough: 12000,
	Rule: "histories of one to three objects of 3 to 20 MB (made by one builder) through filling, building, saving, loading, failing and closing; after each step the " +
		"heap in use after a collection is compared with what the objects may hold; non-trivial: at least three times an object gave up what it held",
	Gen: func(t *rapid.T) MemCase {
		c := MemCase{Config: core.DrawConfig(t, core.Opt{
			Metrics: []string{"angular", "angular", "angular", "dot"}, MaxDim: 8, Builder: true, GCMem: true, Multi: true,
		})}
		c.Config.Dim = rapid.SampledFrom([]int{30, 64, 100, 256, 1000, 4000}).Draw(t, "dim")
		size := rapid.IntRange(3<<20, 7<<20).Draw(t, "size")
		c.Data = core.Data{Kind: "gauss", Seed: rapid.Uint64Max(1<<32).Draw(t, "dataseed"), N: size / c.Config.Layout().NodeSize, IDs: "dense"}
		c.Objects = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "objects")
		c.Trees = rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "trees")
		for i, k := 0, rapid.IntRange(4, 24).Draw(t, "len"); i < k; i++ {
			c.Ops = append(c.Ops, MemOp{
				I: rapid.IntRange(0, c.Objects-1).Draw(t, "i"),
				Op: rapid.SampledFrom([]string{"build", "build", "fill", "save", "save", "load", "load", "load", "close", "failload", "failsave", "query"}).
					Draw(t, "op"),
				File: rapid.SampledFrom([]string{"x", "y"}).Draw(t, "file"),
				K:    rapid.IntRange(0, 3).Draw(t, "k"),
			})
		}
		return c
	},
	Run: runMemory,
})

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func allocated() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.TotalAlloc)
}

type object struct {
	ix    core.Index
	state string // "", filled, built, attached
	n     int    // items added
	nodes int64
	file  int64 // size of the file attached
}

func runMemory(c *core.Ctx, cs MemCase) error {
	// vectors are made on the way, so that the harness holds next to nothing
	vecs := cs.Data
	vecs.N = 64
	base := vecs.Items(cs.Config)
	nodeSize := int64(cs.Config.Layout().NodeSize)
	var objs []*object
	for _, ix := range core.OpenMany(cs.Config, nil, cs.Objects) {
		ix := ix
		objs = append(objs, &object{ix: ix})
		c.Cleanup(func() { ix.Close() })
	}
	sizes := map[string]int64{}
	v := make([]float64, cs.Config.Dim)
	fill := func(o *object, upto int) {
		for ; o.n < upto; o.n++ {
			p := core.NewPrng(uint64(o.n))
			for z, x := range base[o.n%len(base)].V {
				v[z] = cs.Config.Round(x + 0.1*float64(p.Intn(100)))
			}
			o.ix.Add(uint64(o.n), v)
		}
		o.state = "filled"
	}
	closeIt := func(o *object) {
		if err := o.ix.Close(); err != nil {
			core.Infra("close: %v", err)
		}
		*o = object{ix: o.ix}
	}
	size := func(file string) int64 {
		st, err := os.Stat(c.File(file))
		core.Must(err)
		return st.Size()
	}
	gaveUp := 0
	start := heap()
	for i, op := range cs.Ops {
		o := objs[op.I]
		held := o.state
		switch op.Op {
		case "fill", "build":
			if o.state == "built" || o.state == "attached" {
				closeIt(o)
			}
			upto := cs.Data.N
			if op.Op == "fill" {
				upto = min(upto, o.n+1+upto/(1+op.K))
			}
			fill(o, upto)
			if op.Op == "build" {
				o.ix.Build(cs.Trees, 1+op.K)
				o.state = "built"
				o.nodes = int64(o.n) * 4 // refined by the file
			}
		case "save":
			if o.state != "built" && o.state != "attached" {
				continue
			}
			if err := o.ix.Save(c.File(op.File)); err != nil {
				return fmt.Errorf("step %d: save: %w", i, err)
			}
			sizes[op.File] = size(op.File)
			o.state, o.file = "attached", sizes[op.File]
		case "load":
			if sizes[op.File] == 0 {
				continue
			}
			before := allocated()
			if err := o.ix.Load(c.File(op.File)); err != nil {
				return fmt.Errorf("step %d: load: %w", i, err)
			}
			if got := allocated() - before; !cs.Config.GCMem && got > sizes[op.File]/4+slack {
				return fmt.Errorf("step %d: %d bytes were allocated to map a file of %d bytes into memory", i, got, sizes[op.File])
			}
			o.state, o.file, o.n = "attached", sizes[op.File], 0
		case "close":
			closeIt(o)
		case "failload":
			bad := c.File("bad.ann")
			b := make([]byte, int(nodeSize)*cs.Data.N+1)
			if op.K == 1 {
				b = nil
			}
			core.Must(os.WriteFile(bad, b, 0o644))
			b = nil
			if op.K == 2 {
				bad = c.File("none.ann")
			}
			if err := o.ix.Load(bad); err == nil {
				return fmt.Errorf("step %d: a file that is no index was loaded", i)
			}
			*o = object{ix: o.ix}
		case "failsave":
			if err := o.ix.Save(filepath.Join(c.Dir, "nodir", "x.ann")); err == nil {
				return fmt.Errorf("step %d: saved in a directory that does not exist", i)
			}
		case "query":
			if o.state != "built" && o.state != "attached" {
				continue
			}
			ctx := o.ix.Ctx()
			for k := 0; k < 3; k++ {
				o.ix.ByItem(uint64(k), 5, -1, ctx)
			}
			first := heap()
			for k := 0; k < 60*(1+op.K); k++ {
				o.ix.ByItem(uint64(k%3), 5, -1, ctx)
			}
			if got := heap() - first; got > slack {
				return fmt.Errorf("step %d: %d bytes more are held after %d more queries with one context", i, got, 60*(1+op.K))
			}
			runtime.KeepAlive(ctx)
		}
		if (held == "built" || held == "attached" || held == "filled") && (o.state != held || op.Op == "load" || op.Op == "save") {
			gaveUp++
		}
		// what may be held now
		may := int64(slack)
		for _, o := range objs {
			switch o.state {
			case "filled":
				may += 5 * (int64(o.n) + 1) * nodeSize / 2
			case "built":
				may += 5 * (int64(o.n)*3 + 8) * nodeSize / 2
			case "attached":
				if cs.Config.GCMem {
					may += o.file + o.file/4
				}
				may += o.file / 16
			}
		}
		if got := heap() - start; got > may {
			return fmt.Errorf("step %d (%s): %d bytes are held, %s may hold at most %d", i, op.Op, got, states(objs), may)
		}
	}
	for _, o := range objs {
		closeIt(o)
	}
	if got := heap() - start; got > slack {
		return fmt.Errorf("%d bytes are held when everything is closed", got)
	}
	if gaveUp >= 3 {
		c.NonTrivial()
	}
	c.Class("%s, read into memory: %v", cs.Config.Types(), cs.Config.GCMem)
	c.Class("%d objects", cs.Objects)
	runtime.KeepAlive(objs)
	runtime.KeepAlive(base)
	return nil
}

func states(objs []*object) (s string) {
	for i, o := range objs {
		if i > 0 {
			s += ", "
		}
		if s += "an object that is "; o.state == "" {
			s += "empty"
		} else {
			s += o.state
		}
	}
	return
}

// -------------------------------------------------------------------------- accumulation

// CycleCase is a sequence of calls that is repeated.
type CycleCase struct {
	Config  core.Config `json:"config"`
	Objects int         `json:"objects"`
	Steps   []MemOp     `json:"steps"`
	Cycles  int         `json:"cycles"`
	Names   int         `json:"names"` // file names in use; 0: a new one each time
}

var _ = core.Sub("accumulate", core.Spec[CycleCase]{
	Quick: 160, Thorough: 4000,
	Rule: "one to eight calls (building, saving, loading, failing, closing, querying; files under the same or ever new names; one or several objects of a builder) " +
		"repeated 400 to 1500 times: the heap does not grow by 80 bytes a time, nor the number of goroutines; non-trivial: something was loaded or saved",
	Gen: func(t *rapid.T) CycleCase {
		c := CycleCase{Config: core.DrawConfig(t, core.Opt{
			Metrics: []string{"angular", "angular", "dot"}, MaxDim: 8, Builder: true, GCMem: true, Multi: true, Sorter: true,
		})}
		c.Objects = rapid.IntRange(1, 2).Draw(t, "objects")
		c.Names = rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "names")
		c.Cycles = rapid.IntRange(400, 1500).Draw(t, "cycles")
		for i, k := 0, rapid.IntRange(1, 8).Draw(t, "len"); i < k; i++ {
			c.Steps = append(c.Steps, MemOp{
				I:  rapid.IntRange(0, c.Objects-1).Draw(t, "i"),
				Op: rapid.SampledFrom([]string{"build", "build", "save", "save", "load", "load", "load", "close", "failload", "failsave", "query"}).Draw(t, "op"),
				K:  rapid.IntRange(0, 3).Draw(t, "k"),
			})
		}
		return c
	},
	Run: runCycles,
})

func runCycles(c *core.Ctx, cs CycleCase) error {
	objs := core.OpenMany(cs.Config, nil, cs.Objects)
	for _, ix := range objs {
		ix := ix
		c.Cleanup(func() { ix.Close() })
	}
	// what is loaded, under as many names as asked for
	vecs := core.Data{Kind: "gauss", N: 12, IDs: "dense"}.Items(cs.Config)
	seed := core.Open(cs.Config, nil)
	for _, it := range vecs {
		seed.Add(it.ID, it.V)
	}
	seed.Build(1, 1)
	if err := seed.Save(c.File("seed.ann")); err != nil {
		return fmt.Errorf("save: %w", err)
	}
	core.Must(seed.Close())
	content, err := os.ReadFile(c.File("seed.ann"))
	core.Must(err)
	core.Must(os.WriteFile(c.File("odd.ann"), append(content, 0), 0o644))

	state := make([]string, len(objs))
	serial := 0
	busy := false
	once := func(cycle int) error {
		var made []string
		name := func() string {
			if cs.Names == 0 {
				serial++
				made = append(made, c.File(fmt.Sprintf("f%d.ann", serial)))
				return made[len(made)-1]
			}
			return c.File(fmt.Sprintf("f%d.ann", cycle%cs.Names))
		}
		for _, s := range cs.Steps {
			ix, st := objs[s.I], &state[s.I]
			switch s.Op {
			case "build":
				if *st != "" {
					core.Must(ix.Close())
				}
				for _, it := range vecs {
					ix.Add(it.ID, it.V)
				}
				ix.Build(1+s.K, 1+s.K)
				*st = "built"
			case "save":
				if *st == "" {
					continue
				}
				if err := ix.Save(name()); err != nil {
					return fmt.Errorf("save: %w", err)
				}
				busy = true
			case "load":
				f := name()
				if cs.Names == 0 {
					core.Must(os.Link(c.File("seed.ann"), f))
				} else if _, err := os.Stat(f); err != nil {
					core.Must(os.WriteFile(f, content, 0o644))
				}
				if err := ix.Load(f); err != nil {
					return fmt.Errorf("load: %w", err)
				}
				*st = "built"
				busy = true
			case "close":
				core.Must(ix.Close())
				*st = ""
			case "failload":
				f := c.File([]string{"none.ann", "odd.ann"}[s.K%2])
				if err := ix.Load(f); err == nil {
					return fmt.Errorf("a file that is no index was loaded")
				}
				*st = ""
			case "failsave":
				if err := ix.Save(filepath.Join(c.Dir, "nodir", "x.ann")); err == nil {
					return fmt.Errorf("saved in a directory that does not exist")
				}
			case "query":
				if *st != "" {
					ctx := ix.Ctx()
					ix.ByItem(uint64(s.K), 3, -1, ctx)
				}
			}
		}
		for _, f := range made {
			os.Remove(f)
		}
		return nil
	}
	run := func(n int) error {
		for i := 0; i < n; i++ {
			if err := once(i); err != nil {
				return fmt.Errorf("cycle %d: %w", i, err)
			}
		}
		return nil
	}
	if err := run(100); err != nil {
		return err
	}
	before, routines := heap(), runtime.NumGoroutine()
	if err := run(cs.Cycles); err != nil {
		return err
	}
	if got, limit := heap()-before, int64(32<<10+80*cs.Cycles); got > limit {
		return fmt.Errorf("%d bytes more are held after %d more cycles, %d at a time", got, cs.Cycles, got/int64(cs.Cycles))
	}
	if n := runtime.NumGoroutine(); n > routines+8 {
		return fmt.Errorf("%d goroutines more are there after %d more cycles", n-routines, cs.Cycles)
	}
	if busy {
		c.NonTrivial()
	}
	c.ClassIf(cs.Names == 0, "ever new names")
	return nil
}

// --------------------------------------------------------------------------------- work

// WorkCase of C24.
type WorkCase struct {
	core.Setup
	Queries []core.QuerySpec `json:"queries"`
	Loaded  bool             `json:"loaded"`
}

var _ = core.Sub("work", core.Spec[WorkCase]{
	Quick: 8000, Thorough: 160000,
	Rule: "index x queries x budgets (a third the default one), with a distance that counts; the nodes a best-first search passes and the items it may inspect are computed from " +
		"the saved file; non-trivial: the search may pass at most a tenth of the nodes",
	Gen: func(t *rapid.T) WorkCase { return genWork(t, core.DrawSetup, 6) }, Run: runWork,
})

var _ = core.Sub("large", core.Spec[WorkCase]{
	Quick: 48, Thorough: 1000,
	Rule: core.LargeRule + "otherwise as work",
	Gen:  func(t *rapid.T) WorkCase { return genWork(t, core.DrawLarge, 4) }, Run: runWork,
})

func genWork(t *rapid.T, setup func(*rapid.T, core.Opt) core.Setup, queries int) WorkCase {
	c := WorkCase{Setup: setup(t, core.Opt{
		Metrics: []string{"angular", "angular", "dot"}, MaxDim: 40, Multi: true, GCMem: true, Rnd: true, MinN: 60,
	})}
	for i, k := 0, rapid.IntRange(1, queries).Draw(t, "queries"); i < k; i++ {
		q := core.DrawQuery(t, c.Data.N, c.Trees)
		q.Budget = rapid.IntRange(1, 2+c.Data.N/8).Draw(t, "limit")
		if rapid.IntRange(0, 2).Draw(t, "default") == 0 {
			q.Budget, q.N = -1, rapid.IntRange(1, 2+c.Data.N/20).Draw(t, "some")
		}
		c.Queries = append(c.Queries, q)
	}
	c.Loaded = rapid.Bool().Draw(t, "loaded")
	return c
}

func runWork(c *core.Ctx, cs WorkCase) error {
	measured, mapped := 0, 0
	watch := &core.Watch{
		Map:      func(uintptr, uint64) { mapped++ },
		Measured: func() { measured++ },
	}
	// the counters are only looked at around queries, which run on this goroutine alone
	plug := &core.Plug{Watch: watch}
	if cs.Config.Multi {
		cs.Workers = 1
	}
	ix, items, _ := cs.Built(c, plug)
	twin, _, _ := cs.Built(c, nil)
	f, err := cs.Saved(twin, c.File("twin.ann"))
	if err != nil {
		return err
	}
	if cs.Loaded {
		if err := ix.Load(c.File("twin.ann")); err != nil {
			return fmt.Errorf("load: %w", err)
		}
	}
	cs.Classes(c, len(items))
	ctx := ix.Ctx()
	for i, q := range cs.Queries {
		v := q.Vector(cs.Setup, items)
		budget := q.Budget
		if budget == -1 {
			budget = q.N * f.Trees
		}
		_, may := f.BestFirst(cs.Config, v, budget)
		nodes := f.MayVisit(cs.Config, v, budget)
		measured, mapped = 0, 0
		ids, _ := q.Ask(ix, cs.Setup, items, ctx)
		if measured > len(may) {
			return fmt.Errorf("query %d (n=%d, budget %d): %d distances were computed for the at most %d items to be inspected",
				i, q.N, q.Budget, measured, len(may))
		}
		// every node looked at now and then
		if limit := 64 + 4*(nodes+len(f.Roots)) + 8*len(may); mapped > limit {
			return fmt.Errorf("query %d (n=%d, budget %d): nodes were looked at %d times, the search passes at most %d of the %d and inspects %d items at most",
				i, q.N, q.Budget, mapped, nodes, f.Nodes, len(may))
		}
		if len(ids) > 0 && nodes*10 < f.Nodes {
			c.NonTrivial()
		}
	}
	return nil
}

// ------------------------------------------------------------------------------- growth

// GrowthCase of C24.
type GrowthCase struct {
	core.Setup
	Rounds int `json:"rounds"` // how often the object is filled, built and closed
}

var _ = core.Sub("growth", core.Spec[GrowthCase]{
	Quick: 160, Thorough: 4000,
	Rule: "indexes of 2000 to 40000 items filled one after the other, built and closed once or twice, with an allocator that counts; all blocks asked for together " +
		"are compared with the nodes of the index (memory that grows by fixed steps is copied quadratically often); non-trivial: 5000 nodes or more, at least twice as many as the size hint",
	Gen: func(t *rapid.T) GrowthCase {
		c := GrowthCase{Setup: core.Setup{Config: core.DrawConfig(t, core.Opt{MaxDim: 12, Multi: true, Rnd: true})}}
		c.Config.Verbose = false
		c.Config.Hint = rapid.SampledFrom([]int{0, 0, 0, 1, 100, 5000, 30000}).Draw(t, "hint")
		c.Data = core.Data{
			Kind: "gauss", Seed: rapid.Uint64Max(1<<32).Draw(t, "dataseed"), N: rapid.IntRange(2000, 40000).Draw(t, "size"),
			IDs: rapid.SampledFrom([]string{"dense", "dense", "gaps", "shuffled"}).Draw(t, "ids"),
		}
		c.Trees = rapid.SampledFrom([]int{1, 2, 5, -1}).Draw(t, "trees")
		c.Workers = core.DrawWorkers(t, c.Config)
		c.Rounds = rapid.IntRange(1, 2).Draw(t, "rounds")
		return c
	}, Run: runGrowth,
})

func runGrowth(c *core.Ctx, cs GrowthCase) error {
	guard := &core.GuardAllocator{}
	c.Cleanup(guard.Release)
	ix := core.Open(cs.Config, &core.Plug{BuildAlloc: guard})
	c.Cleanup(func() { ix.Close() })
	items := cs.Data.Items(cs.Config)
	size := cs.Config.Layout().NodeSize
	for r := 0; r < cs.Rounds; r++ {
		from := len(guard.All)
		if r == 0 {
			from = 0
		}
		for _, it := range items {
			ix.Add(it.ID, it.V)
		}
		ix.Build(cs.Trees, cs.Workers)
		path := c.File(fmt.Sprintf("g%d.ann", r))
		_, last := guard.Current()
		asked, blocks := 0, 0
		for _, b := range guard.All[from:] {
			asked += b.Size
			blocks++
		}
		if err := ix.Save(path); err != nil {
			return fmt.Errorf("save: %w", err)
		}
		st, err := os.Stat(path)
		core.Must(err)
		content := int(st.Size())
		hint := 2 * cs.Config.Hint * size
		if limit := max(hint, 3*content+64*size); last > limit {
			return fmt.Errorf("round %d: the memory asked for is %d bytes for an index of %d bytes (size hint of %d nodes)", r, last, content, cs.Config.Hint)
		}
		if limit := hint + 30*content + 4096*size; asked > limit {
			return fmt.Errorf("round %d: %d blocks of %d bytes in total were asked for to build an index of %d bytes (%d nodes)",
				r, blocks, asked, content, content/size)
		}
		if content/size > 5000 && content/size > 2*cs.Config.Hint {
			c.NonTrivial()
		}
		ix.Close()
		core.Must(os.Remove(path))
	}
	c.ClassIf(cs.Config.Hint > 0, "size hint")
	c.ClassIf(cs.Rounds > 1, "built again")
	return nil
}
