// Package c19 decides: indexes are isolated from each other and release what they hold.
package c19

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"syscall"
	"testing"

	"github.com/mariotoffia/goannoy/builder"
	"github.com/mariotoffia/goannoy/interfaces"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C19") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// Op on one of the indexes.
type Op struct {
	I      int    `json:"i"`
	Op     string `json:"op"`
	ID     uint64 `json:"id,omitempty"`
	N      int    `json:"n,omitempty"`
	W      int    `json:"w,omitempty"`
	Seed   uint64 `json:"seed,omitempty"`
	Budget int    `json:"budget,omitempty"`
	File   string `json:"file,omitempty"`
	Fault  string `json:"fault,omitempty"`
}

// Case is a history over several indexes.
type Case struct {
	Config core.Config `json:"config"`
	Groups int         `json:"groups"` // sets of indexes that share builder or parts
	Each   int         `json:"each"`   // indexes per set
	Ops    []Op        `json:"ops"`
}

func drawOp(t *rapid.T, c Case, files []string) Op {
	maxID := 40
	op := Op{I: rapid.IntRange(0, c.Groups*c.Each-1).Draw(t, "i"), Seed: rapid.Uint64Max(1<<32).Draw(t, "seed")}
	switch rapid.IntRange(0, 17).Draw(t, "op") {
	case 0, 1, 2, 3:
		op.Op = "run"
		op.ID = uint64(rapid.IntRange(0, maxID).Draw(t, "id"))
		op.N = rapid.SampledFrom([]int{1, 2, 8, 40, 90}).Draw(t, "n")
	case 4, 5, 6:
		op.Op = "build"
		op.N = rapid.SampledFrom([]int{1, 1, 2, 3, 6, -1}).Draw(t, "trees")
		op.W = core.DrawWorkers(t, c.Config)
	case 7, 8, 9:
		op.Op = "save"
		op.File = rapid.SampledFrom(files).Draw(t, "file")
	case 10, 11, 12:
		op.Op = "load"
		op.File = rapid.SampledFrom(files).Draw(t, "file")
	case 13, 14:
		op.Op = "close"
	case 15:
		op.Op = "failload"
		op.Fault = rapid.SampledFrom([]string{"missing", "empty", "directory", "odd", "descriptors"}).Draw(t, "fault")
		op.File = rapid.SampledFrom(files).Draw(t, "file")
	case 16:
		op.Op = "failsave"
		op.Fault = rapid.SampledFrom([]string{"nodir", "directory", "size", "descriptors"}).Draw(t, "fault")
		op.File = rapid.SampledFrom(files).Draw(t, "file")
		op.N = rapid.IntRange(0, 99).Draw(t, "part")
	default:
		op.Op = "query"
		op.N = rapid.SampledFrom([]int{0, 1, 5, 1000}).Draw(t, "rn")
		op.Budget = rapid.SampledFrom([]int{-1, 0, 3, 20, 1 << 40}).Draw(t, "budget")
	}
	return op
}

var _ = core.Sub("histories", core.Spec[Case]{
	Quick: 10000, Thorough: 250000,
	Rule: "histories over two to six indexes, made by one builder (or sharing generator, distance, policy, sorter and file allocator) or by two, on common " +
		"files, with failing loads and saves; each index has a twin of its own making that lives alone: vectors, answers and files are compared after every " +
		"step; descriptors and mappings held are counted, and those opened by others (put where a freed one was) stay alive; non-trivial: two indexes have " +
		"content at once, and one is closed, saved or loaded while the other has content",
	Gen: func(t *rapid.T) Case {
		c := Case{Config: core.DrawConfig(t, core.Opt{
			Metrics: []string{"angular", "angular", "angular", "dot", "euclid"}, MaxDim: 24,
			Builder: true, GCMem: true, Rnd: true, Sorter: true, Hint: true, Multi: true, Verbose: true,
		})}
		c.Groups = rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "groups")
		c.Each = rapid.IntRange(1, 3).Draw(t, "each")
		if c.Groups == 1 && c.Each == 1 {
			c.Each = 2
		}
		files := []string{"x", "y"}
		// most histories begin with content everywhere
		for i := 0; i < c.Groups*c.Each; i++ {
			if rapid.IntRange(0, 3).Draw(t, "filled") > 0 {
				c.Ops = append(c.Ops, Op{I: i, Op: "run", N: rapid.SampledFrom([]int{1, 3, 20, 60}).Draw(t, "n"), Seed: rapid.Uint64Max(1<<32).Draw(t, "seed")})
				if rapid.Bool().Draw(t, "built") {
					c.Ops = append(c.Ops, Op{I: i, Op: "build", N: rapid.IntRange(1, 3).Draw(t, "trees"), W: 1})
				}
			}
		}
		for i, n := 0, rapid.IntRange(3, 24).Draw(t, "len"); i < n; i++ {
			c.Ops = append(c.Ops, drawOp(t, c, files))
		}
		return c
	},
	Run: runHistory,
})

func vec(c core.Config, seed uint64) []float64 {
	p := core.NewPrng(seed)
	v := make([]float64, c.Dim)
	for z := range v {
		v[z] = c.Round(p.Norm())
	}
	return v
}

type object struct {
	ix, twin core.Index
	state    string
	det      bool // the forest does not depend on a schedule
	mod      core.Model
	ctx      [2]core.QCtx
}

type machine struct {
	c     *core.Ctx
	cs    Case
	objs  []*object
	files map[string]*content
	dirs  [2]string
	m     core.Metric
	canes []canary
}

type content struct {
	mod core.Model
	det bool
}

// canary is a descriptor and a mapping of the harness that nobody else may close.
type canary struct {
	f    *os.File
	stat os.FileInfo
	mem  []byte
}

func (m *machine) put() {
	f, err := os.Open(m.c.File("canary"))
	core.Must(err)
	st, err := f.Stat()
	core.Must(err)
	mem, err := syscall.Mmap(-1, 0, 4096*(1+len(m.canes)%3), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	core.Must(err)
	for i := range mem {
		mem[i] = byte(len(m.canes) + i)
	}
	m.canes = append(m.canes, canary{f, st, mem})
}

func (m *machine) alive() error {
	for i, k := range m.canes {
		st, err := k.f.Stat()
		if err != nil {
			return fmt.Errorf("a descriptor of somebody else was closed: %w", err)
		}
		if !os.SameFile(st, k.stat) {
			return errors.New("a descriptor of somebody else was closed and opened again")
		}
		for j := range k.mem {
			if k.mem[j] != byte(i+j) {
				return errors.New("memory of somebody else was overwritten")
			}
		}
	}
	return nil
}

func copyOf(m core.Model) core.Model {
	r := core.Model{}
	for id, v := range m {
		r[id] = v
	}
	return r
}

func (m *machine) path(k int, name string) string { return filepath.Join(m.dirs[k], name) }

// both runs f on the index and on its twin.
func (m *machine) both(o *object, f func(k int, ix core.Index) error) error {
	for k, ix := range []core.Index{o.ix, o.twin} {
		if err := f(k, ix); err != nil {
			if k == 1 {
				return fmt.Errorf("twin: %w", err)
			}
			return err
		}
	}
	return nil
}

func (m *machine) sameFile(name string) error {
	a, err := os.ReadFile(m.path(0, name))
	if err != nil {
		return err
	}
	b, err := os.ReadFile(m.path(1, name))
	core.Must(err)
	if !bytes.Equal(a, b) {
		return fmt.Errorf("file %s differs from the one saved by indexes that live alone (%d, %d bytes)", name, len(a), len(b))
	}
	return nil
}

func (m *machine) step(op Op) error {
	o := m.objs[op.I%len(m.objs)]
	queryable := o.state == "built" || o.state == "loaded"
	switch op.Op {
	case "run":
		if o.state != "filling" {
			return nil
		}
		for k := 0; k < op.N; k++ {
			id, v := op.ID+uint64(k), vec(m.cs.Config, op.Seed+uint64(k))
			m.both(o, func(_ int, ix core.Index) error { ix.Add(id, v); return nil })
			o.mod[id] = v
		}
	case "build":
		if o.state != "filling" || len(o.mod) == 0 {
			return nil
		}
		m.both(o, func(_ int, ix core.Index) error { ix.Build(op.N, op.W); return nil })
		o.state, o.det = "built", !m.cs.Config.Multi
		o.ctx = [2]core.QCtx{o.ix.Ctx(), o.twin.Ctx()}
	case "save":
		if !queryable {
			return nil
		}
		if err := m.both(o, func(k int, ix core.Index) error { return ix.Save(m.path(k, op.File)) }); err != nil {
			return err
		}
		o.state = "loaded"
		m.files[op.File] = &content{copyOf(o.mod), o.det}
		if o.det {
			return m.sameFile(op.File)
		}
	case "load":
		f := m.files[op.File]
		if f == nil {
			return nil
		}
		if err := m.both(o, func(k int, ix core.Index) error { return ix.Load(m.path(k, op.File)) }); err != nil {
			return err
		}
		o.state, o.det, o.mod = "loaded", f.det, copyOf(f.mod)
		o.ctx = [2]core.QCtx{o.ix.Ctx(), o.twin.Ctx()}
	case "close":
		if err := m.both(o, func(_ int, ix core.Index) error { return ix.Close() }); err != nil {
			return err
		}
		o.state, o.mod = "filling", core.Model{}
	case "failload":
		if op.Fault == "descriptors" && m.files[op.File] == nil {
			return nil
		}
		worked := 0
		err := m.both(o, func(k int, ix core.Index) error {
			p := m.path(k, "bad")
			os.RemoveAll(p)
			switch op.Fault {
			case "empty":
				core.Must(os.WriteFile(p, nil, 0o644))
			case "directory":
				core.Must(os.Mkdir(p, 0o755))
			case "odd":
				core.Must(os.WriteFile(p, make([]byte, m.cs.Config.Layout().NodeSize*3+1), 0o644))
			}
			var err error
			if op.Fault == "descriptors" {
				core.WithFreeDescriptors(0, func() { err = ix.Load(m.path(k, op.File)) })
				if err == nil && o.state == "loaded" {
					worked++ // with the descriptor of the file that was open
					return nil
				}
			} else {
				err = ix.Load(p)
			}
			os.RemoveAll(p)
			if err == nil {
				return fmt.Errorf("load (%s) gives no error", op.Fault)
			}
			return nil
		})
		if err != nil {
			return err
		}
		switch worked {
		case 0:
			o.state, o.mod = "filling", core.Model{}
		case 2:
			f := m.files[op.File]
			o.state, o.det, o.mod = "loaded", f.det, copyOf(f.mod)
			o.ctx = [2]core.QCtx{o.ix.Ctx(), o.twin.Ctx()}
		default:
			return errors.New("loading without free descriptors works for one of two equal indexes only")
		}
	case "failsave":
		if !queryable {
			return nil
		}
		return m.both(o, func(k int, ix core.Index) error {
			var err error
			p := m.path(k, "bad")
			os.RemoveAll(p)
			switch op.Fault {
			case "nodir":
				err = ix.Save(filepath.Join(p, "x"))
			case "directory":
				core.Must(os.Mkdir(p, 0o755))
				err = ix.Save(p)
			case "size":
				limit := uint64(m.cs.Config.Layout().NodeSize*len(o.mod)) * uint64(op.N) / 100
				core.WithFileSizeLimit(limit, func() { err = ix.Save(m.path(k, op.File)) })
			case "descriptors":
				core.WithFreeDescriptors(0, func() { err = ix.Save(m.path(k, op.File)) })
			}
			os.RemoveAll(p)
			if err == nil {
				return fmt.Errorf("save (%s) gives no error", op.Fault)
			}
			return nil
		})
	case "query":
		if !queryable {
			return nil
		}
		return m.ask(o, vec(m.cs.Config, op.Seed), op.N, op.Budget)
	}
	return nil
}

func (m *machine) ask(o *object, q []float64, n, budget int) error {
	ids, ds := o.ix.ByVector(q, n, budget, o.ctx[0])
	if err := m.m.WellFormed(o.mod, q, n, ids, ds); err != nil {
		return err
	}
	if !o.det {
		return nil
	}
	tids, tds := o.twin.ByVector(q, n, budget, o.ctx[1])
	if err := core.SameAnswer(tids, tds, ids, ds); err != nil {
		return fmt.Errorf("an index that lives alone answers otherwise: %w", err)
	}
	return nil
}

// observe looks at all indexes and at what the process holds.
func (m *machine) observe() error {
	most := 0
	for i, o := range m.objs {
		for _, id := range o.mod.IDs() {
			if got := o.ix.Item(id); !core.SameVec(got, o.mod[id]) {
				return fmt.Errorf("index %d: item %d reads %v, it is %v", i, id, got, o.mod[id])
			}
		}
		if o.state == "loaded" {
			most++
		}
		if o.state == "filling" {
			continue
		}
		q := vec(m.cs.Config, uint64(77+i))
		ids, ds := o.ix.ByVector(q, 3, 1<<40, o.ctx[0])
		if err := m.m.Exact(o.mod, q, 3, ids, ds); err != nil {
			return fmt.Errorf("index %d: %w", i, err)
		}
		if err := m.ask(o, q, 4, 5); err != nil {
			return fmt.Errorf("index %d: %w", i, err)
		}
	}
	if m.cs.Config.GCMem {
		most = 0
	}
	for k := range m.dirs {
		fds, maps := core.Held(m.dirs[k])
		if len(fds) > most || len(maps) > most {
			return fmt.Errorf("%d indexes have a file mapped, descriptors are held for %v, mappings for %v", most, fds, maps)
		}
	}
	return m.alive()
}

func runHistory(c *core.Ctx, cs Case) error {
	m := &machine{c: c, cs: cs, files: map[string]*content{}, m: core.MetricOf(cs.Config), dirs: [2]string{c.File("together"), c.File("alone")}}
	for _, d := range m.dirs {
		core.Must(os.Mkdir(d, 0o755))
	}
	core.Must(os.WriteFile(c.File("canary"), []byte("canary"), 0o644))
	c.Cleanup(func() {
		for _, k := range m.canes {
			k.f.Close()
			syscall.Munmap(k.mem)
		}
	})
	for g := 0; g < cs.Groups; g++ {
		for _, ix := range core.OpenMany(cs.Config, nil, cs.Each) {
			m.objs = append(m.objs, &object{ix: ix, twin: core.Open(cs.Config, nil), state: "filling", mod: core.Model{}})
		}
	}
	c.Cleanup(func() {
		for _, o := range m.objs {
			o.ix.Close()
			o.twin.Close()
		}
	})
	touched := false
	for i, op := range cs.Ops {
		full := 0
		for k, o := range m.objs {
			if len(o.mod) > 0 && k != op.I%len(m.objs) {
				full++
			}
		}
		was := len(m.objs[op.I%len(m.objs)].mod) > 0
		if err := m.step(op); err != nil {
			return fmt.Errorf("op %d %+v: %w", i, op, err)
		}
		if full > 0 && was && (op.Op == "close" || op.Op == "save" || op.Op == "load") {
			touched = true
		}
		if len(m.canes) < 12 && (op.Op == "close" || op.Op == "save" || op.Op == "load" || op.Op == "failload" || op.Op == "failsave") {
			m.put()
		}
		if err := m.observe(); err != nil {
			return fmt.Errorf("after op %d %+v: %w", i, op, err)
		}
		if op.Op == "failload" || op.Op == "failsave" {
			c.Class("%s %s", op.Op, op.Fault)
		}
	}
	// one after another is closed, the others go on
	for i := range m.objs {
		for k := 0; k < 2; k++ {
			if err := m.step(Op{I: i, Op: "close"}); err != nil {
				return fmt.Errorf("closing index %d: %w", i, err)
			}
			m.put()
		}
		if err := m.observe(); err != nil {
			return fmt.Errorf("index %d closed: %w", i, err)
		}
	}
	if touched {
		c.NonTrivial()
	}
	c.Class("%d groups of %d", cs.Groups, cs.Each)
	c.ClassIf(cs.Config.Builder, "made by a builder")
	c.ClassIf(cs.Config.GCMem, "files in memory")
	return nil
}

// ---------------------------------------------------------------------------- one builder, set up anew

// BuilderStep changes the builder and builds an index.
type BuilderStep struct {
	Dim   int    `json:"dim,omitempty"` // 0: as before
	Seed  uint64 `json:"seed,omitempty"`
	Hint  int    `json:"hint,omitempty"`
	Multi int    `json:"multi,omitempty"` // 1: single, 2: multi
	Mem   int    `json:"mem,omitempty"`   // 1: mmap, 2: memory
	N     int    `json:"n"`
}

// BuilderCase is a builder that is changed between the indexes it builds.
type BuilderCase struct {
	F64   bool          `json:"f64,omitempty"`
	U64   bool          `json:"u64,omitempty"`
	Steps []BuilderStep `json:"steps"`
	Order uint64        `json:"order"`
}

var _ = core.Sub("builder", core.Spec[BuilderCase]{
	Quick: 3000, Thorough: 80000,
	Rule: "a builder whose dimension, generator, hint, policy and allocator are changed between the indexes it makes; the indexes are filled in turns, built, " +
		"saved and closed in any order and stay what they were made as; non-trivial: two indexes of different dimension",
	Gen: func(t *rapid.T) BuilderCase {
		c := BuilderCase{F64: rapid.Bool().Draw(t, "f64"), U64: rapid.Bool().Draw(t, "u64"), Order: rapid.Uint64Max(1<<32).Draw(t, "order")}
		for i, n := 0, rapid.IntRange(2, 5).Draw(t, "len"); i < n; i++ {
			s := BuilderStep{N: rapid.SampledFrom([]int{1, 3, 12, 50}).Draw(t, "n")}
			if i == 0 || rapid.Bool().Draw(t, "newdim") {
				s.Dim = rapid.IntRange(1, 20).Draw(t, "dim")
			}
			if rapid.Bool().Draw(t, "newseed") {
				s.Seed = rapid.Uint64Range(1, 1000).Draw(t, "seed")
			}
			if rapid.IntRange(0, 2).Draw(t, "newhint") == 0 {
				s.Hint = rapid.SampledFrom([]int{-1, 1, 10, 300}).Draw(t, "hint")
			}
			s.Multi = rapid.IntRange(0, 2).Draw(t, "multi")
			s.Mem = rapid.IntRange(0, 2).Draw(t, "mem")
			c.Steps = append(c.Steps, s)
		}
		return c
	},
	Run: func(c *core.Ctx, cs BuilderCase) error {
		switch {
		case cs.F64 && cs.U64:
			return runBuilder[float64, uint64](c, cs)
		case cs.F64:
			return runBuilder[float64, uint32](c, cs)
		case cs.U64:
			return runBuilder[float32, uint64](c, cs)
		}
		return runBuilder[float32, uint32](c, cs)
	},
})

func runBuilder[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs BuilderCase) error {
	type made struct {
		cfg core.Config
		ix  interfaces.AnnoyIndex[TV, TIX]
		mod core.Model
		n   int
	}
	b := builder.Index[TV, TIX]()
	cfg := core.Config{F64: cs.F64, U64: cs.U64, Metric: "angular"}
	var all []*made
	c.Cleanup(func() {
		for _, m := range all {
			m.ix.Close()
		}
	})
	for _, s := range cs.Steps {
		if s.Dim > 0 {
			b.AngularDistance(s.Dim)
			cfg.Dim = s.Dim
		}
		if s.Seed > 0 {
			cfg.Seed = s.Seed
			b.Random(core.MakeRandom[TIX](cfg))
		}
		if s.Hint != 0 {
			b.IndexNumHint(s.Hint)
		}
		switch s.Multi {
		case 1:
			b.SingleWorkerPolicy()
			cfg.Multi = false
		case 2:
			b.UseMultiWorkerPolicy()
			cfg.Multi = true
		}
		switch s.Mem {
		case 1:
			b.MmapIndexAllocator()
		case 2:
			b.GCMemoryIndexAllocator()
		}
		all = append(all, &made{cfg, b.Build(), core.Model{}, s.N})
	}
	p := core.NewPrng(cs.Order)
	check := func(m *made) error {
		if int(m.ix.VectorLength()) != m.cfg.Dim {
			return fmt.Errorf("an index of dimension %d says %d", m.cfg.Dim, m.ix.VectorLength())
		}
		for id, v := range m.mod {
			got := m.ix.GetItem(TIX(id))
			for z := range v {
				if len(got) != len(v) || float64(got[z]) != v[z] {
					return fmt.Errorf("item %d reads %v, it is %v", id, got, v)
				}
			}
		}
		return nil
	}
	// filled in turns
	for k := 0; k < 50; k++ {
		for _, j := range p.Perm(len(all)) {
			m := all[j]
			if k >= m.n {
				continue
			}
			v := vec(m.cfg, uint64(j*1000+k))
			m.ix.AddItem(TIX(k), core.Conv[TV](v))
			m.mod[uint64(k)] = v
		}
	}
	for _, j := range p.Perm(len(all)) {
		all[j].ix.Build(2, 2)
	}
	search := func(m *made, j int) error {
		q := vec(m.cfg, uint64(j+5))
		ids, ds := m.ix.GetNnsByVector(core.Conv[TV](q), 5, 1<<40, m.ix.CreateContext())
		i64, d64 := make([]uint64, len(ids)), make([]float64, len(ds))
		for i := range ids {
			i64[i], d64[i] = uint64(ids[i]), float64(ds[i])
		}
		return core.MetricOf(m.cfg).Exact(m.mod, q, 5, i64, d64)
	}
	order := p.Perm(len(all))
	for round, j := range order {
		m := all[j]
		if round%2 == 0 {
			if err := m.ix.Save(c.File(fmt.Sprint(j))); err != nil {
				return err
			}
			// the same forest as an index made alone
			if !m.cfg.Multi {
				alone := core.Open(m.cfg, nil)
				c.Cleanup(func() { alone.Close() })
				for _, id := range m.mod.IDs() {
					alone.Add(id, m.mod[id])
				}
				alone.Build(2, 2)
				core.Must(alone.Save(c.File("alone")))
				alone.Close()
				a, _ := os.ReadFile(c.File(fmt.Sprint(j)))
				b, _ := os.ReadFile(c.File("alone"))
				if !bytes.Equal(a, b) {
					return fmt.Errorf("index %d saves another forest than one made alone", j)
				}
			}
		}
		for _, l := range order[round:] {
			if err := check(all[l]); err != nil {
				return fmt.Errorf("index %d: %w", l, err)
			}
			if err := search(all[l], l); err != nil {
				return fmt.Errorf("index %d: %w", l, err)
			}
		}
		if err := m.ix.Close(); err != nil {
			return err
		}
	}
	if fds, maps := core.Held(c.Dir); len(fds)+len(maps) > 0 {
		return fmt.Errorf("all closed, held are %v and %v", fds, maps)
	}
	dims := map[int]bool{}
	for _, m := range all {
		dims[m.cfg.Dim] = true
	}
	if len(dims) > 1 {
		c.NonTrivial()
	}
	c.Class("%s", cfg.Types())
	return nil
}

// ---------------------------------------------------------------------------- at the same time

// ConcCase is a history per index, all running at once.
type ConcCase struct {
	Config core.Config `json:"config"`
	Common int         `json:"common"` // items of a file all may load
	Hist   [][]Op      `json:"hist"`
}

func concGen(maxOps int) func(t *rapid.T) ConcCase {
	return func(t *rapid.T) ConcCase {
		c := ConcCase{Config: core.DrawConfig(t, core.Opt{
			Metrics: []string{"angular", "angular", "dot"}, MaxDim: 16, Builder: true, GCMem: true, Multi: true, Hint: true, Sorter: true,
		})}
		c.Common = rapid.IntRange(1, 60).Draw(t, "common")
		one := Case{Config: c.Config, Groups: 1, Each: 1}
		for i, n := 0, rapid.IntRange(2, 5).Draw(t, "indexes"); i < n; i++ {
			var h []Op
			h = append(h, Op{Op: "run", N: rapid.IntRange(1, 60).Draw(t, "n"), Seed: rapid.Uint64Max(1<<32).Draw(t, "seed")},
				Op{Op: "build", N: rapid.IntRange(1, 3).Draw(t, "trees"), W: core.DrawWorkers(t, c.Config)})
			for j, k := 0, rapid.IntRange(1, maxOps).Draw(t, "len"); j < k; j++ {
				op := drawOp(t, one, []string{"own", "own", "common"})
				if op.Op == "failload" || op.Op == "failsave" {
					op = Op{Op: "close"}
				}
				h = append(h, op)
			}
			c.Hist = append(c.Hist, h)
		}
		return c
	}
}

const concRule = "histories of two to five indexes of one builder (or of common parts), each run by a goroutine of its own at the same time; files of their own " +
	"and a common one that is only loaded; every index against its own model; non-trivial: two indexes build, save or load"

var _ = core.Sub("concurrent", core.Spec[ConcCase]{Quick: 4000, Thorough: 100000, Rule: concRule, Gen: concGen(10), Run: runConc})

var _ = core.Sub("race", core.Spec[ConcCase]{Quick: 1000, Thorough: 25000, Race: true, Rule: concRule + " (race detector)", Gen: concGen(8), Run: runConc})

func runConc(c *core.Ctx, cs ConcCase) error {
	shared := core.OpenMany(cs.Config, nil, len(cs.Hist)+1)
	c.Cleanup(func() {
		for _, ix := range shared {
			ix.Close()
		}
	})
	m := core.MetricOf(cs.Config)
	common := core.Model{}
	for i := 0; i < cs.Common; i++ {
		v := vec(cs.Config, uint64(i)*7+3)
		shared[0].Add(uint64(i), v)
		common[uint64(i)] = v
	}
	shared[0].Build(2, 1)
	if err := shared[0].Save(c.File("common")); err != nil {
		return err
	}
	var wg sync.WaitGroup
	errs := make([]error, len(cs.Hist))
	busy := 0
	for i, h := range cs.Hist {
		for _, op := range h {
			if op.Op == "save" || op.Op == "load" {
				busy++
				break
			}
		}
		wg.Add(1)
		go func(i int, h []Op) {
			defer wg.Done()
			errs[i] = core.Guard(func() error { return alone(c, cs, m, shared[i+1], i, h, common) })
		}(i, h)
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("index %d: %w", i, err)
		}
	}
	for _, ix := range shared {
		if err := ix.Close(); err != nil {
			return err
		}
	}
	if fds, maps := core.Held(c.Dir); len(fds)+len(maps) > 0 {
		return fmt.Errorf("all closed, held are %v and %v", fds, maps)
	}
	if busy > 1 {
		c.NonTrivial()
	}
	c.Class("%d at once", len(cs.Hist))
	c.ClassIf(cs.Config.Builder, "made by a builder")
	c.ClassIf(cs.Config.GCMem, "files in memory")
	c.ClassIf(cs.Config.Multi, "multi worker policy")
	return nil
}

// alone runs the history of one index.
func alone(c *core.Ctx, cs ConcCase, m core.Metric, ix core.Index, i int, h []Op, common core.Model) error {
	state, mod := "filling", core.Model{}
	var own core.Model
	file := c.File(fmt.Sprint("own", i))
	for k, op := range h {
		err := func() error {
			switch op.Op {
			case "run":
				if state != "filling" {
					return nil
				}
				for k := 0; k < op.N; k++ {
					id, v := op.ID+uint64(k), vec(cs.Config, op.Seed+uint64(k))
					ix.Add(id, v)
					mod[id] = v
				}
			case "build":
				if state == "filling" && len(mod) > 0 {
					ix.Build(op.N, op.W)
					state = "built"
				}
			case "save":
				if state == "filling" {
					return nil
				}
				if err := ix.Save(file); err != nil {
					return err
				}
				state, own = "loaded", copyOf(mod)
			case "load":
				p, f := file, own
				if op.File == "common" {
					p, f = c.File("common"), common
				}
				if f == nil {
					return nil
				}
				if err := ix.Load(p); err != nil {
					return err
				}
				state, mod = "loaded", copyOf(f)
			case "close":
				if err := ix.Close(); err != nil {
					return err
				}
				state, mod = "filling", core.Model{}
			}
			for _, id := range mod.IDs() {
				if got := ix.Item(id); !core.SameVec(got, mod[id]) {
					return fmt.Errorf("item %d reads %v, it is %v", id, got, mod[id])
				}
			}
			if state != "filling" {
				q := vec(cs.Config, op.Seed+99)
				ids, ds := ix.ByVector(q, 4, 1<<40, ix.Ctx())
				if err := m.Exact(mod, q, 4, ids, ds); err != nil {
					return err
				}
			}
			return nil
		}()
		if err != nil {
			return fmt.Errorf("op %d %+v: %w", k, op, err)
		}
		if k%4 == 3 {
			runtime.Gosched()
		}
	}
	return nil
}

// ---------------------------------------------------------------------------- one file for all

// SameCase is a number of indexes that all save to and load from one file at the same time.
type SameCase struct {
	Config core.Config `json:"config"`
	Builds []Op        `json:"builds"` // N items from Seed
	Rounds int         `json:"rounds"`
	Loads  int         `json:"loaders"`
	Link   bool        `json:"link"` // the file is named through a symbolic link by every other index
	Apart  bool        `json:"apart"`
}

const sameRule = "two to four indexes save to one and the same file again and again at the same time while others load it: each saving index keeps its own vectors " +
	"and answers, whatever is loaded is complete and one of them, so is the file in the end, and nothing else is left in the directory; non-trivial: at least six saves"

func genSame(t *rapid.T) SameCase {
	c := SameCase{Config: core.DrawConfig(t, core.Opt{
		Metrics: []string{"angular", "angular", "dot"}, MaxDim: 24, Builder: true, GCMem: true, Multi: true, Sorter: true,
	})}
	for i, n := 0, rapid.IntRange(2, 4).Draw(t, "savers"); i < n; i++ {
		c.Builds = append(c.Builds, Op{Op: "build", N: rapid.SampledFrom([]int{1, 7, 30, 30, 60, 400}).Draw(t, "n"), Seed: rapid.Uint64Max(1<<32).Draw(t, "seed")})
	}
	c.Rounds = rapid.IntRange(1, 8).Draw(t, "rounds")
	c.Loads = rapid.IntRange(0, 3).Draw(t, "loaders")
	c.Link = rapid.IntRange(0, 3).Draw(t, "link") == 0
	c.Apart = rapid.Bool().Draw(t, "apart")
	return c
}

var _ = core.Sub("samefile", core.Spec[SameCase]{Quick: 1600, Thorough: 40000, Rule: sameRule, Gen: genSame, Run: runSame})

func runSame(c *core.Ctx, cs SameCase) error {
	count := len(cs.Builds) + cs.Loads
	var all []core.Index
	if cs.Apart {
		for i := 0; i < count; i++ {
			all = append(all, core.Open(cs.Config, nil))
		}
	} else {
		all = core.OpenMany(cs.Config, nil, count)
	}
	c.Cleanup(func() {
		for _, ix := range all {
			ix.Close()
		}
	})
	m := core.MetricOf(cs.Config)
	var models []core.Model
	for i, b := range cs.Builds {
		mod := core.Model{}
		for k := 0; k < b.N; k++ {
			v := vec(cs.Config, b.Seed+uint64(k)*31+uint64(i))
			all[i].Add(uint64(k), v)
			mod[uint64(k)] = v
		}
		all[i].Build(2, 1)
		models = append(models, mod)
	}
	dir := c.File("shared")
	core.Must(os.Mkdir(dir, 0o755))
	file := filepath.Join(dir, "x.ann")
	link := c.File("link.ann")
	core.Must(os.Symlink(file, link))
	name := func(i int) string {
		if cs.Link && i%2 == 1 {
			return link
		}
		return file
	}
	check := func(ix core.Index, mod core.Model, i int) error {
		for _, id := range mod.IDs() {
			if got := ix.Item(id); !core.SameVec(got, mod[id]) {
				return fmt.Errorf("item %d reads %v, it is %v", id, got, mod[id])
			}
		}
		q := vec(cs.Config, uint64(i)*17+5)
		ids, ds := ix.ByVector(q, 4, 1<<40, ix.Ctx())
		return m.Exact(mod, q, 4, ids, ds)
	}
	if err := all[0].Save(file); err != nil {
		return err
	}
	var wg sync.WaitGroup
	errs := make([]error, count)
	for i := range all {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			errs[i] = core.Guard(func() error {
				for r := 0; r < cs.Rounds; r++ {
					if i < len(models) {
						if err := all[i].Save(name(i)); err != nil {
							return fmt.Errorf("save %d: %w", r, err)
						}
						if err := check(all[i], models[i], r); err != nil {
							return fmt.Errorf("after save %d: %w", r, err)
						}
						continue
					}
					if err := all[i].Load(name(i)); err != nil {
						return fmt.Errorf("load %d: %w", r, err)
					}
					var err error
					found := false
					for _, mod := range models {
						if ids, _ := all[i].ByVector(vec(cs.Config, 1), 1<<20, 1<<40, all[i].Ctx()); len(ids) != len(mod) {
							continue
						}
						if e := check(all[i], mod, r); e == nil {
							found = true
							break
						} else {
							err = e
						}
					}
					if !found {
						return fmt.Errorf("load %d: the index is none of those saved (%v)", r, err)
					}
				}
				return nil
			})
		}(i)
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("index %d: %w", i, err)
		}
	}
	names, err := os.ReadDir(dir)
	core.Must(err)
	if len(names) != 1 {
		return fmt.Errorf("the directory holds %v", names)
	}
	f, err := core.ReadForest(file, cs.Config.Layout())
	if err != nil {
		return fmt.Errorf("the file: %w", err)
	}
	for _, mod := range models {
		if err = f.Check(mod); err == nil {
			break
		}
	}
	if err != nil {
		return fmt.Errorf("the file in the end: %w", err)
	}
	for i, mod := range models {
		if err := check(all[i], mod, 3); err != nil {
			return fmt.Errorf("index %d in the end: %w", i, err)
		}
	}
	for _, ix := range all {
		if err := ix.Close(); err != nil {
			return err
		}
	}
	if fds, maps := core.Held(c.Dir); len(fds)+len(maps) > 0 {
		return fmt.Errorf("all closed, held are %v and %v", fds, maps)
	}
	if len(models)*cs.Rounds >= 6 {
		c.NonTrivial()
	}
	c.Class("%d savers, %d loaders", len(models), cs.Loads)
	c.ClassIf(cs.Link, "through a link")
	c.ClassIf(cs.Config.GCMem, "files in memory")
	c.ClassIf(!cs.Apart, "one builder")
	return nil
}
