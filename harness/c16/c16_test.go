// Package c16 decides: indexes larger than 4 GiB address every item correctly.
package c16

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/interfaces"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M) {
	core.MemLimit = 20 << 30
	core.Main(m, "C16")
}
func TestCheck(t *testing.T) { core.RunAll(t) }

// ---------------------------------------------------------------------------- pointers

// PtrCase maps nodes far into memory that is never touched.
type PtrCase struct {
	Config core.Config `json:"config"`
	IDs    []uint64    `json:"ids"`
}

const span = 1 << 44

// reserve gives address space that reads as zeros and can not be written.
func reserve(c *core.Ctx) unsafe.Pointer {
	b, err := mmap(span, syscall.PROT_READ)
	if err != nil {
		core.Infra("reserving addresses: %w", err)
	}
	c.Cleanup(func() { syscall.Syscall(syscall.SYS_MUNMAP, uintptr(b), span, 0) })
	return b
}

func mmap(size int, prot int) (unsafe.Pointer, error) {
	p, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, uintptr(size), uintptr(prot),
		syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE, ^uintptr(0), 0)
	if e != 0 {
		return nil, e
	}
	return *(*unsafe.Pointer)(unsafe.Pointer(&p)), nil
}

var _ = core.Sub("pointers", core.Spec[PtrCase]{
	Quick: 60000, Thorough: 3000000,
	Rule: "node addresses for any dimension up to a million and any index whose offset stays below 2^44 (offsets around every power of two from 2^30 " +
		"on): address and vector address against exact arithmetic; the memory is never written; non-trivial: an offset of 2^32 or more",
	Gen: func(t *rapid.T) PtrCase {
		c := PtrCase{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"angular", "dot"}})}
		switch rapid.IntRange(0, 2).Draw(t, "dimkind") {
		case 0:
			c.Config.Dim = rapid.IntRange(1, 2000).Draw(t, "dim")
		case 1:
			c.Config.Dim = rapid.IntRange(1, 1<<20).Draw(t, "dim")
		default:
			c.Config.Dim = 1<<rapid.IntRange(0, 20).Draw(t, "bits") + rapid.IntRange(-3, 3).Draw(t, "off")
			c.Config.Dim = max(1, c.Config.Dim)
		}
		size := uint64(c.Config.Layout().NodeSize)
		most := min(uint64(1)<<32-1, uint64(span)/size-2)
		for i := 0; i < 4; i++ {
			var id uint64
			if rapid.Bool().Draw(t, "any") {
				id = rapid.Uint64Max(most).Draw(t, "id")
			} else {
				id = uint64(1)<<rapid.IntRange(30, 43).Draw(t, "offset")/size + rapid.Uint64Max(2).Draw(t, "more")
			}
			c.IDs = append(c.IDs, min(id, most))
		}
		return c
	},
	Run: func(c *core.Ctx, cs PtrCase) error {
		switch {
		case cs.Config.F64 && cs.Config.U64:
			return pointers[float64, uint64](c, cs)
		case cs.Config.F64:
			return pointers[float64, uint32](c, cs)
		case cs.Config.U64:
			return pointers[float32, uint64](c, cs)
		}
		return pointers[float32, uint32](c, cs)
	},
})

func pointers[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs PtrCase) error {
	d := core.MakeDistance[TV, TIX](cs.Config)
	l := cs.Config.Layout()
	base := reserve(c)
	if int(d.NodeSize()) != l.NodeSize {
		return fmt.Errorf("a node of dimension %d has %d bytes, expected %d", cs.Config.Dim, d.NodeSize(), l.NodeSize)
	}
	for _, id := range cs.IDs {
		n := d.MapNodeToMemory(base, TIX(id))
		want := id*uint64(l.NodeSize) + uint64(l.OffV)
		got := uint64(uintptr(unsafe.Pointer(n.GetRawVector())) - uintptr(base))
		if got != want {
			return fmt.Errorf("vector of item %d (nodes of %d bytes) lies at offset %d, expected %d", id, l.NodeSize, got, want)
		}
		if v := n.GetVector(TIX(cs.Config.Dim)); len(v) != cs.Config.Dim || unsafe.Pointer(unsafe.SliceData(v)) != unsafe.Pointer(n.GetRawVector()) {
			return fmt.Errorf("vector slice of item %d", id)
		}
		if want >= 1<<32 {
			c.NonTrivial()
		}
	}
	c.Class("%s %s", cs.Config.Metric, cs.Config.Types())
	return nil
}

// ---------------------------------------------------------------------------- memory

// sparse is a build allocator over address space that costs memory only where it is written.
type sparse struct {
	base unsafe.Pointer
	room int
	size int
	max  int
}

func newSparse(room int) *sparse {
	p, err := mmap(room, syscall.PROT_READ|syscall.PROT_WRITE)
	if err != nil {
		core.Infra("reserving %d bytes: %w", room, err)
	}
	// reading what was never written then costs little
	const hugePage = 14
	syscall.Syscall(syscall.SYS_MADVISE, uintptr(p), uintptr(room), hugePage)
	return &sparse{base: p, room: room}
}

func (s *sparse) Reallocate(size int) unsafe.Pointer {
	if size <= 0 || size > s.room {
		panic(core.Violation{Msg: fmt.Sprintf("a block of %d bytes is asked for", size)})
	}
	s.size = size
	s.max = max(s.max, size)
	return s.base
}

func (s *sparse) Free() {}

func (s *sparse) release() {
	syscall.Syscall(syscall.SYS_MUNMAP, uintptr(s.base), uintptr(s.room), 0)
}

// Case is an index with few items, some of them far away.
type Case struct {
	Config core.Config `json:"config"`
	Offs   []Off       `json:"items"`
	Seed   uint64      `json:"seed"`
	Trees  int         `json:"trees"`
	Work   int         `json:"workers"`
	Load   bool        `json:"load"`
	Order  uint64      `json:"order"`
	Kind   string      `json:"kind"`
}

// Off tells the id of an item by the offset of its node.
type Off struct {
	Off   uint64 `json:"off"`
	Alias int    `json:"alias"` // 1: the item that 32 bit arithmetic confuses it with, 2: 31 bits
	Add   int    `json:"add"`
}

func (c Case) ids() []uint64 {
	size := uint64(c.Config.Layout().NodeSize)
	seen := map[uint64]bool{}
	var ids []uint64
	for _, o := range c.Offs {
		id := o.Off / size
		switch o.Alias {
		case 1:
			id = (id * size) % (1 << 32) / size
		case 2:
			id = (id * size) % (1 << 31) / size
		}
		id = uint64(max(0, int64(id)+int64(o.Add)))
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	return ids
}

func genCase(maxBytes uint64) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Config: core.Config{
			F64: rapid.Bool().Draw(t, "f64"), U64: rapid.IntRange(0, 3).Draw(t, "u64") == 0,
			Metric: rapid.SampledFrom([]string{"angular", "angular", "dot", "euclid"}).Draw(t, "metric"),
			Multi:  rapid.IntRange(0, 2).Draw(t, "multi") == 2, Seed: rapid.Uint64Range(0, 1000).Draw(t, "seed"),
		}}
		switch rapid.IntRange(0, 11).Draw(t, "dimkind") {
		case 0:
			c.Config.Dim = rapid.IntRange(2000, 10000).Draw(t, "dim")
		case 1, 2, 3:
			c.Config.Dim = rapid.IntRange(10000, 40000).Draw(t, "dim")
		default:
			c.Config.Dim = rapid.IntRange(40000, 300000).Draw(t, "dim")
		}
		far := func() uint64 {
			if rapid.Bool().Draw(t, "edge") {
				return rapid.SampledFrom([]uint64{1 << 31, 1 << 32, 1 << 32, 1 << 32, 1 << 32, 1 << 33, 3 << 31}).Draw(t, "off")
			}
			if rapid.IntRange(0, 4).Draw(t, "veryfar") < 4 {
				return rapid.Uint64Range(1<<31, 5<<30).Draw(t, "off")
			}
			return rapid.Uint64Range(1<<31, maxBytes).Draw(t, "off")
		}
		n := rapid.IntRange(1, 6).Draw(t, "far")
		for i := 0; i < n; i++ {
			o := Off{Off: min(far(), maxBytes), Add: rapid.IntRange(-1, 1).Draw(t, "add")}
			c.Offs = append(c.Offs, o)
			for _, a := range []int{1, 1, 2} {
				if rapid.Bool().Draw(t, "alias") {
					c.Offs = append(c.Offs, Off{Off: o.Off, Alias: a, Add: rapid.IntRange(-1, 1).Draw(t, "add")})
				}
			}
		}
		for i, n := 0, rapid.IntRange(0, 8).Draw(t, "near"); i < n; i++ {
			c.Offs = append(c.Offs, Off{Off: rapid.Uint64Max(5<<30).Draw(t, "off")})
		}
		c.Seed = rapid.Uint64Max(1<<32).Draw(t, "vectors")
		c.Order = rapid.Uint64Max(1<<32).Draw(t, "order")
		c.Trees = rapid.IntRange(1, 3).Draw(t, "trees")
		c.Work = rapid.IntRange(1, 3).Draw(t, "workers")
		c.Load = rapid.IntRange(0, 2).Draw(t, "load") == 2
		c.Kind = rapid.SampledFrom([]string{"gauss", "sparse"}).Draw(t, "kind")
		return c
	}
}

var _ = core.Sub("memory", core.Spec[Case]{
	Quick: 30, Thorough: 900,
	Rule: "indexes of up to 9 GiB in memory that is only real where it is written, a dozen items around the offsets 2^31, 2^32 and 2^33 and those a " +
		"truncated offset confuses with them; vectors, distances, exact searches, before and after building and loaded from a sparse file; " +
		"non-trivial: an item lies behind 4 GiB",
	Gen: genCase(9 << 30), Run: runMemory,
})

func vectors(cs Case, ids []uint64) core.Model {
	mod := core.Model{}
	for _, id := range ids {
		p := core.NewPrng(cs.Seed + id*7919)
		v := make([]float64, cs.Config.Dim)
		for z := range v {
			if cs.Kind == "sparse" && p.Intn(50) > 0 {
				continue
			}
			v[z] = cs.Config.Round(float64(int64(p.U64()>>40)-1<<23) / (1 << 22))
		}
		v[p.Intn(len(v))] = 1.5
		mod[id] = v
	}
	return mod
}

func (c Case) describe(cx *core.Ctx, ids []uint64) {
	size := uint64(c.Config.Layout().NodeSize)
	for _, id := range ids {
		if id*size >= 1<<32 {
			cx.NonTrivial()
		}
		cx.ClassIf(id*size < 1<<31 && (id+1)*size > 1<<31, "an item across 2 GiB")
		cx.ClassIf(id*size < 1<<32 && (id+1)*size > 1<<32, "an item across 4 GiB")
	}
	cx.Class("%s %s", c.Config.Metric, c.Config.Types())
}

// look compares everything the index tells with the model.
func look(ix core.Index, cs Case, mod core.Model, when string, search bool) error {
	m := core.MetricOf(cs.Config)
	ids := mod.IDs()
	for _, id := range ids {
		if got := ix.Item(id); !core.SameVec(got, mod[id]) {
			return fmt.Errorf("%s: item %d (offset %d) does not read as it was added", when, id, id*uint64(cs.Config.Layout().NodeSize))
		}
	}
	for i, a := range ids {
		b := ids[(i*7+1)%len(ids)]
		d, tol := m.D(mod[a], mod[b])
		if got := ix.Dist(a, b); !m.SameReported(got, d, tol) {
			return fmt.Errorf("%s: distance of items %d and %d is %v, expected %v", when, a, b, got, m.Reported(d))
		}
	}
	if !search {
		return nil
	}
	ctx := ix.Ctx()
	for i, id := range ids {
		if i >= 4 {
			break
		}
		got, ds := ix.ByItem(id, len(ids), 1<<40, ctx)
		if err := m.Exact(mod, mod[id], len(ids), got, ds); err != nil {
			return fmt.Errorf("%s: query by item %d: %w", when, id, err)
		}
		got, ds = ix.ByVector(mod[id], 3, -1, ctx)
		if err := m.WellFormed(mod, mod[id], 3, got, ds); err != nil {
			return fmt.Errorf("%s: query by the vector of item %d: %w", when, id, err)
		}
		if want := min(3, len(ids)); len(got) != want {
			return fmt.Errorf("%s: query by the vector of item %d gave %d results, not %d", when, id, len(got), want)
		}
	}
	return nil
}

func add(ix core.Index, cs Case, mod core.Model) {
	ids := mod.IDs()
	for _, i := range core.NewPrng(cs.Order).Perm(len(ids)) {
		ix.Add(ids[i], mod[ids[i]])
	}
}

func runMemory(c *core.Ctx, cs Case) error {
	ids := cs.ids()
	mod := vectors(cs, ids)
	l := cs.Config.Layout()
	s := newSparse(64 << 30)
	c.Cleanup(s.release)
	ix := core.Open(cs.Config, &core.Plug{BuildAlloc: s})
	c.Cleanup(func() { ix.Close() })
	add(ix, cs, mod)
	if err := look(ix, cs, mod, "items added", false); err != nil {
		return err
	}
	ix.Build(cs.Trees, cs.Work)
	if err := look(ix, cs, mod, "built", true); err != nil {
		return err
	}
	cs.describe(c, ids)
	if !cs.Load {
		return nil
	}
	path := c.File("a")
	if err := s.write(path, mod, l); err != nil {
		return err
	}
	other := core.Open(cs.Config, nil)
	c.Cleanup(func() { other.Close() })
	if err := other.Load(path); err != nil {
		return err
	}
	c.Class("loaded from a sparse file")
	return look(other, cs, mod, "loaded", true)
}

// write makes a sparse file of the nodes in memory: the items that were added and everything
// behind the items.
func (s *sparse) write(path string, mod core.Model, l core.Layout) error {
	mem := unsafe.Slice((*byte)(s.base), s.max)
	ids := mod.IDs()
	items := int(ids[len(ids)-1]) + 1
	nodes := s.max / l.NodeSize
	// the last node is a root
	for nodes > items && zero(mem[(nodes-1)*l.NodeSize:][:l.OffV]) {
		nodes--
	}
	if nodes == items {
		return fmt.Errorf("no nodes behind the %d items", items)
	}
	f, err := os.Create(path)
	if err != nil {
		core.Infra("%w", err)
	}
	defer f.Close()
	put := func(i int) {
		if _, err := f.WriteAt(mem[i*l.NodeSize:(i+1)*l.NodeSize], int64(i)*int64(l.NodeSize)); err != nil {
			core.Infra("%w", err)
		}
	}
	for _, id := range ids {
		put(int(id))
	}
	for i := items; i < nodes; i++ {
		put(i)
	}
	return nil
}

func zero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------- built-in parts

var _ = core.Sub("builtin", core.Spec[Case]{
	Quick: 1, Thorough: 6, OneShard: true,
	Rule: "an index of a little over 4 GiB with the built-in build allocator, saved and loaded with both built-in file allocators; left out when the " +
		"disk has not 16 GiB to spare; non-trivial: an item lies behind 4 GiB",
	Gen: func(t *rapid.T) Case {
		c := genCase(4<<30 + 200<<20)(t)
		c.Config.Dim = max(c.Config.Dim, 5000)
		c.Offs = append(c.Offs, Off{Off: 4<<30 + 200<<20})
		c.Trees = 1
		return c
	},
	Run: runBuiltin,
})

func runBuiltin(c *core.Ctx, cs Case) error {
	var fs syscall.Statfs_t
	if syscall.Statfs(c.Dir, &fs) != nil || fs.Bavail*uint64(fs.Bsize) < 16<<30 || available() < 16<<30 {
		c.Class("left out: no room")
		return nil
	}
	ids := cs.ids()
	mod := vectors(cs, ids)
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	cfg := cs.Config
	// one block that is not moved: growing copies what there is
	cfg.Hint = int(ids[len(ids)-1])*2/3 + 64
	ix := core.Open(cfg, nil)
	c.Cleanup(func() { ix.Close() })
	add(ix, cs, mod)
	ix.Build(cs.Trees, cs.Work)
	if err := look(ix, cs, mod, "built", true); err != nil {
		return err
	}
	path := c.File("a")
	if err := ix.Save(path); err != nil {
		if errors.Is(err, syscall.ENOSPC) || strings.Contains(err.Error(), "no space") {
			c.Class("left out: no room")
			return nil
		}
		return fmt.Errorf("save: %w", err)
	}
	if err := look(ix, cs, mod, "saved", true); err != nil {
		return err
	}
	if err := ix.Close(); err != nil {
		return err
	}
	for _, gcmem := range []bool{false, true} {
		cfg.GCMem = gcmem
		cfg.Hint = 0
		other := core.Open(cfg, nil)
		c.Cleanup(func() { other.Close() })
		if err := other.Load(path); err != nil {
			return fmt.Errorf("load: %w", err)
		}
		if err := look(other, cs, mod, fmt.Sprintf("loaded (into memory: %v)", gcmem), true); err != nil {
			return err
		}
		other.Close()
	}
	cs.describe(c, ids)
	c.Class("saved and loaded")
	return nil
}

func available() uint64 {
	b, _ := os.ReadFile("/proc/meminfo")
	for _, line := range strings.Split(string(b), "\n") {
		var kb uint64
		if n, _ := fmt.Sscanf(line, "MemAvailable: %d kB", &kb); n == 1 {
			return kb << 10
		}
	}
	return 0
}
