// Package c17 decides: the index stays within the memory it was given.
package c17

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"testing"
	"unsafe"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C17") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// ---------------------------------------------------------------------------- histories

// Op of a history.
type Op struct {
	Op     string `json:"op"`
	ID     uint64 `json:"id,omitempty"`
	N      int    `json:"n,omitempty"`
	W      int    `json:"w,omitempty"`
	Seed   uint64 `json:"seed,omitempty"`
	Budget int    `json:"budget,omitempty"`
	File   string `json:"file,omitempty"`
	Kind   string `json:"kind,omitempty"`
}

// Case of the histories.
type Case struct {
	Config  core.Config `json:"config"`
	AtStart bool        `json:"atstart,omitempty"`
	Ops     []Op        `json:"ops"`
}

var _ = core.Sub("histories", core.Spec[Case]{
	Quick: 9000, Thorough: 250000,
	Rule: "histories of adding, building, saving, loading, closing and querying on an index whose build allocator gives exactly the bytes asked for next to " +
		"inaccessible memory, moves the block at every request and makes the old one inaccessible, and whose file allocator gives read-only memory of the " +
		"same kind; every result and file byte is compared with those of an index with the built-in allocators; non-trivial: at least three blocks of " +
		"memory and a query or a loaded file",
	Gen: genCase, Run: runCase,
})

func genCase(t *rapid.T) Case {
	c := Case{Config: core.DrawConfig(t, core.Opt{
		Metrics: []string{"angular", "angular", "dot", "euclid", "manhattan"}, MaxDim: 80,
		GCMem: true, Hint: true, Rnd: true, Sorter: true, Verbose: true, Multi: true,
	})}
	c.AtStart = rapid.IntRange(0, 3).Draw(t, "atstart") == 0
	k := c.Config.Layout().K
	maxID := rapid.SampledFrom([]int{3, 40, 40, 200}).Draw(t, "maxid")
	if c.Config.Verbose {
		maxID = min(maxID, 20)
	}
	n := rapid.IntRange(2, 24).Draw(t, "len")
	file := func() string { return rapid.SampledFrom([]string{"x", "y"}).Draw(t, "file") }
	run := func() {
		most := rapid.SampledFrom([]int{2, k, 2*k + 3, maxID}).Draw(t, "run")
		c.Ops = append(c.Ops, Op{Op: "run", ID: uint64(rapid.IntRange(0, maxID).Draw(t, "id")), N: rapid.IntRange(1, min(most, 150)).Draw(t, "n"),
			Seed: rapid.Uint64Max(1<<32).Draw(t, "vseed"), Kind: rapid.SampledFrom([]string{"", "", "", "int", "same", "zero"}).Draw(t, "kind")})
	}
	build := func() {
		c.Ops = append(c.Ops, Op{Op: "build", N: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 6, -1}).Draw(t, "trees"), W: core.DrawWorkers(t, c.Config)})
	}
	query := func() {
		c.Ops = append(c.Ops, Op{Op: "query", ID: rapid.Uint64Max(1000).Draw(t, "which"), N: rapid.SampledFrom([]int{0, 1, 3, 10, 1000, -1}).Draw(t, "rn"),
			Seed: rapid.Uint64Max(1<<32).Draw(t, "vseed"), Budget: rapid.SampledFrom([]int{-1, -1, 0, 1, 10, 50, 1 << 40}).Draw(t, "budget")})
	}
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "usual"); i < n; i++ {
		run()
		build()
		query()
		if rapid.Bool().Draw(t, "saved") {
			c.Ops = append(c.Ops, Op{Op: "save", File: file()})
			query()
			if rapid.Bool().Draw(t, "reload") {
				c.Ops = append(c.Ops, Op{Op: "load", File: file()})
				query()
			}
		}
		if i < n-1 {
			c.Ops = append(c.Ops, Op{Op: "close"})
		}
	}
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 12).Draw(t, "op") {
		case 0, 1, 2:
			run()
		case 3:
			c.Ops = append(c.Ops, Op{Op: "far", ID: uint64(rapid.IntRange(0, 3000).Draw(t, "id")), N: 1, Seed: rapid.Uint64Max(1<<32).Draw(t, "vseed")})
		case 4, 5:
			build()
		case 6, 7, 8:
			query()
		case 9:
			c.Ops = append(c.Ops, Op{Op: "save", File: file()})
		case 10:
			c.Ops = append(c.Ops, Op{Op: "load", File: file()})
		case 11:
			c.Ops = append(c.Ops, Op{Op: "close"})
		default:
			c.Ops = append(c.Ops, Op{Op: "again"})
		}
	}
	return c
}

func vec(c core.Config, seed uint64, kind string) []float64 {
	p := core.NewPrng(seed)
	v := make([]float64, c.Dim)
	for z := range v {
		switch kind {
		case "int":
			v[z] = float64(p.Intn(3) - 1)
		case "same":
			v[z] = 1
		case "zero":
		default:
			v[z] = c.Round(p.Norm())
		}
	}
	return v
}

func runCase(c *core.Ctx, cs Case) error {
	g := &core.GuardAllocator{AtStart: cs.AtStart}
	gf := &core.GuardFiles{AtStart: cs.AtStart}
	c.Cleanup(func() { g.Release(); gf.Release() })
	exact := !cs.Config.Multi // else the forest depends on the schedule
	g.Check = func(size int) {
		if size%cs.Config.Layout().NodeSize != 0 && size != int(float64(cs.Config.Layout().NodeSize)*float64(cs.Config.Hint)*1.5) {
			c.Class("odd block size")
		}
	}
	guarded := core.Open(cs.Config, &core.Plug{BuildAlloc: g, FileAlloc: gf})
	c.Cleanup(func() { guarded.Close() })
	plain := core.Open(cs.Config, nil)
	c.Cleanup(func() { plain.Close() })
	pair := []core.Index{guarded, plain}
	dirs := []string{c.File("guarded"), c.File("plain")}
	for _, d := range dirs {
		core.Must(os.Mkdir(d, 0o755))
	}

	state, trees := "filling", 0
	mod := core.Model{}
	files := map[string]core.Model{}
	var ctxs []core.QCtx
	queries, loads := 0, 0
	ids := func() []uint64 { return mod.IDs() }
	check := func() error {
		for _, id := range ids() {
			if got := guarded.Item(id); !core.SameVec(got, mod[id]) {
				return fmt.Errorf("item %d reads %v, it is %v", id, got, mod[id])
			}
		}
		return nil
	}
	same := func(i uint64) error {
		l := ids()
		if len(l) == 0 {
			return nil
		}
		a, b := l[i%uint64(len(l))], l[(i*3+1)%uint64(len(l))]
		x, y := guarded.Dist(a, b), plain.Dist(a, b)
		if x != y && (x == x || y == y) {
			return fmt.Errorf("distance of %d and %d is %v, %v with the built-in allocators", a, b, x, y)
		}
		return nil
	}
	for i, op := range cs.Ops {
		err := func() error {
			switch op.Op {
			case "run", "far":
				if state != "filling" {
					return nil
				}
				for k := 0; k < op.N; k++ {
					v := vec(cs.Config, op.Seed+uint64(k), op.Kind)
					for _, ix := range pair {
						ix.Add(op.ID+uint64(k), v)
					}
					mod[op.ID+uint64(k)] = v
				}
				return same(op.Seed)
			case "build":
				if state != "filling" || (len(mod) == 0 && op.N == -1) {
					return nil
				}
				for _, ix := range pair {
					ix.Build(op.N, op.W)
				}
				state, trees = "built", op.N
				ctxs = nil
			case "save":
				if state == "filling" || trees == 0 {
					return nil
				}
				for k, ix := range pair {
					if err := ix.Save(filepath.Join(dirs[k], op.File)); err != nil {
						return err
					}
				}
				if exact {
					a, err := os.ReadFile(filepath.Join(dirs[0], op.File))
					core.Must(err)
					b, err := os.ReadFile(filepath.Join(dirs[1], op.File))
					core.Must(err)
					if !bytes.Equal(a, b) {
						return fmt.Errorf("the saved file is not the one an index with the built-in allocators gives (%d, %d bytes)", len(a), len(b))
					}
				}
				state = "loaded"
				m := core.Model{}
				for id, v := range mod {
					m[id] = v
				}
				files[op.File] = m
			case "load":
				m, ok := files[op.File]
				if !ok {
					for k, ix := range pair {
						if err := ix.Load(filepath.Join(dirs[k], op.File)); err == nil {
							return errors.New("a missing file was loaded")
						}
					}
					state, mod = "filling", core.Model{}
					return nil
				}
				for k, ix := range pair {
					if err := ix.Load(filepath.Join(dirs[k], op.File)); err != nil {
						return err
					}
				}
				loads++
				mod = core.Model{}
				for id, v := range m {
					mod[id] = v
				}
				state, trees = "loaded", 1
				ctxs = nil
			case "close", "again":
				for _, ix := range pair {
					if err := ix.Close(); err != nil {
						return err
					}
				}
				had := ids()
				state, mod = "filling", core.Model{}
				// an index that was closed has no memory to look at
				if len(had) > 0 {
					if err := untouched(g, gf, func() { guarded.Item(had[len(had)-1]) }); err != nil {
						return fmt.Errorf("reading an item of the closed index: %w", err)
					}
				}
				if op.Op == "again" && len(had) > 0 {
					for k, id := range had {
						v := vec(cs.Config, uint64(k)*31+uint64(i), "")
						for _, ix := range pair {
							ix.Add(id, v)
						}
						mod[id] = v
					}
				}
			case "query":
				if state == "filling" {
					return nil
				}
				queries++
				if ctxs == nil || op.Seed%3 == 0 {
					ctxs = []core.QCtx{guarded.Ctx(), plain.Ctx()}
				}
				if err := same(op.Seed); err != nil {
					return err
				}
				byItem := len(mod) > 0 && op.ID%2 == 0
				q := vec(cs.Config, op.Seed, "")
				var l []uint64
				if byItem {
					l = ids()
					q = mod[l[op.ID%uint64(len(l))]]
				}
				if op.ID%5 == 1 {
					q = make([]float64, cs.Config.Dim)
				}
				var got [2][]uint64
				var ds [2][]float64
				for k, ix := range pair {
					if byItem {
						got[k], ds[k] = ix.ByItem(l[op.ID%uint64(len(l))], op.N, op.Budget, ctxs[k])
					} else {
						got[k], ds[k] = ix.ByVector(q, op.N, op.Budget, ctxs[k])
					}
				}
				if exact {
					if err := core.SameAnswer(got[0], ds[0], got[1], ds[1]); err != nil {
						return fmt.Errorf("an index with the built-in allocators answers otherwise: %w", err)
					}
				}
			}
			return check()
		}()
		if err != nil {
			return fmt.Errorf("op %d %+v: %w", i, op, err)
		}
	}
	if err := guarded.Close(); err != nil {
		return err
	}
	if gf.Opens != gf.Closes || gf.Overlap {
		return fmt.Errorf("%d files opened, %d closed (some more than once: %v)", gf.Opens, gf.Closes, gf.Overlap)
	}
	if g.Moves >= 3 && (queries > 0 || loads > 0) {
		c.NonTrivial()
	}
	c.Class("%s %s", cs.Config.Metric, cs.Config.Types())
	c.ClassIf(loads > 0, "loaded")
	c.ClassIf(queries > 0, "queried")
	c.ClassIf(cs.AtStart, "block behind the inaccessible page")
	c.ClassIf(cs.Config.Multi, "multi worker policy")
	return nil
}

// untouched tells whether f touches memory that was handed out.
func untouched(g *core.GuardAllocator, gf *core.GuardFiles, f func()) error {
	err := core.Guard(func() error { f(); return nil })
	var pe *core.PanicError
	if errors.As(err, &pe) {
		if a, ok := pe.Value.(interface{ Addr() uintptr }); ok && core.Inside(a.Addr(), g, gf) {
			return fmt.Errorf("memory that was handed back is touched: %v", pe.Value)
		}
	}
	return nil
}

// ---------------------------------------------------------------------------- nodes

// NodeOp is an operation on one node of a block.
type NodeOp struct {
	Op   string `json:"op"`
	I    int    `json:"i"`
	J    int    `json:"j,omitempty"`
	N    int    `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// NodeCase is a block of nodes.
type NodeCase struct {
	Config  core.Config `json:"config"`
	Nodes   int         `json:"nodes"`
	AtStart bool        `json:"atstart,omitempty"`
	Ops     []NodeOp    `json:"ops"`
}

var _ = core.Sub("nodes", core.Spec[NodeCase]{
	Quick: 25000, Thorough: 800000,
	Rule: "operations on the nodes of a block next to inaccessible memory (the built-in distances and node layouts, every dimension): what one operation may " +
		"not change stays bit for bit, what was set is read back; non-trivial: an operation that writes on the first or last node of the block",
	Gen: func(t *rapid.T) NodeCase {
		c := NodeCase{Config: core.DrawConfig(t, core.Opt{Metrics: []string{"angular", "dot"}, Rnd: true})}
		c.Nodes = rapid.IntRange(2, 6).Draw(t, "nodes")
		c.AtStart = rapid.IntRange(0, 2).Draw(t, "atstart") == 0
		for i, n := 0, rapid.IntRange(1, 15).Draw(t, "len"); i < n; i++ {
			c.Ops = append(c.Ops, NodeOp{
				Op: rapid.SampledFrom([]string{
					"vector", "vector", "children", "children", "descendants", "norm", "init", "normalize", "copy", "distance", "margin", "side", "split", "preprocess",
				}).Draw(t, "op"),
				I: rapid.SampledFrom([]int{0, c.Nodes - 1, c.Nodes / 2}).Draw(t, "i"), J: rapid.IntRange(0, c.Nodes-1).Draw(t, "j"),
				N: rapid.IntRange(0, 1000).Draw(t, "n"), Seed: rapid.Uint64Max(1<<20).Draw(t, "seed"),
			})
		}
		return c
	},
	Run: func(c *core.Ctx, cs NodeCase) error {
		switch {
		case cs.Config.F64 && cs.Config.U64:
			return nodes[float64, uint64](c, cs)
		case cs.Config.F64:
			return nodes[float64, uint32](c, cs)
		case cs.Config.U64:
			return nodes[float32, uint64](c, cs)
		}
		return nodes[float32, uint32](c, cs)
	},
})

func nodes[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs NodeCase) error {
	d := core.MakeDistance[TV, TIX](cs.Config)
	l := cs.Config.Layout()
	if int(d.NodeSize()) != l.NodeSize || int(d.MaxNumChildren()) != l.K || int(d.VectorLength()) != cs.Config.Dim {
		return fmt.Errorf("node size %d, %d children, vector length %d; expected %d, %d, %d",
			d.NodeSize(), d.MaxNumChildren(), d.VectorLength(), l.NodeSize, l.K, cs.Config.Dim)
	}
	g := &core.GuardAllocator{AtStart: cs.AtStart}
	c.Cleanup(g.Release)
	size := cs.Nodes * l.NodeSize
	base := g.Reallocate(size)
	mem := unsafe.Slice((*byte)(base), size)
	dim := TIX(cs.Config.Dim)
	rnd := core.MakeRandom[TIX](cs.Config)
	node := func(i int) interfaces.Node[TV, TIX] { return d.MapNodeToMemory(base, TIX(i)) }
	for i := 0; i < cs.Nodes; i++ {
		n := node(i)
		n.SetNumberOfDescendants(1)
		n.SetVector(core.Conv[TV](vec(cs.Config, uint64(i), "")))
		d.InitNode(n)
	}
	for k, op := range cs.Ops {
		before := append([]byte(nil), mem...)
		n := node(op.I)
		// bytes of node i that the operation may change
		type span struct{ node, from, to int }
		var may []span
		whole := func(i int) span { return span{i, 0, l.NodeSize} }
		desc := span{op.I, 0, cs.Config.IDSize()}
		kids := func(k int) span { return span{op.I, cs.Config.IDSize(), (k + 1) * cs.Config.IDSize()} }
		vector := span{op.I, l.OffV, l.NodeSize}
		extra := span{op.I, kids(2).to, l.OffV} // what the layout has between children and vector
		err := func() error {
			switch op.Op {
			case "vector":
				v := core.Conv[TV](vec(cs.Config, op.Seed, ""))
				n.SetVector(v)
				may = append(may, vector)
				got := n.GetVector(dim)
				if len(got) != len(v) {
					return fmt.Errorf("vector of length %d", len(got))
				}
				for z := range v {
					if got[z] != v[z] {
						return fmt.Errorf("vector reads %v, %v was set", got, v)
					}
				}
				if *n.GetRawVector() != v[0] {
					return fmt.Errorf("raw vector reads %v", *n.GetRawVector())
				}
			case "children", "descendants":
				most := l.K
				if op.N%3 == 0 {
					most = min(2, l.K)
				}
				ch := make([]TIX, 1+op.N%most)
				if op.N%5 == 0 {
					ch = make([]TIX, most)
				}
				p := core.NewPrng(op.Seed)
				for z := range ch {
					ch[z] = TIX(p.U64())
				}
				if op.Op == "children" {
					n.SetChildren(ch)
					may = append(may, kids(len(ch)))
					if *n.GetRawChildren() != ch[0] {
						return fmt.Errorf("raw children read %d, not %d", *n.GetRawChildren(), ch[0])
					}
				}
				n.SetNumberOfDescendants(TIX(len(ch)))
				may = append(may, desc)
				if int(n.GetNumberOfDescendants()) != len(ch) {
					return fmt.Errorf("%d descendants, not %d", n.GetNumberOfDescendants(), len(ch))
				}
				if op.Op == "children" {
					got := n.GetChildren()
					if len(got) < len(ch) {
						return fmt.Errorf("%d children, not %d", len(got), len(ch))
					}
					for z := range ch {
						if got[z] != ch[z] {
							return fmt.Errorf("children %v, not %v", got, ch)
						}
					}
				}
			case "norm":
				n.SetNorm(TV(op.N))
				may = append(may, kids(2), extra)
			case "init":
				d.InitNode(n)
				may = append(may, kids(2), extra)
			case "normalize":
				d.Normalize(n)
				may = append(may, vector, extra)
			case "copy":
				utils.CopyNode(node(op.J), n, d.NodeSize())
				may = append(may, whole(op.J))
				a, b := mem[op.I*l.NodeSize:][:l.NodeSize], mem[op.J*l.NodeSize:][:l.NodeSize]
				if !bytes.Equal(a, b) {
					return fmt.Errorf("the copy of a node differs")
				}
			case "distance":
				d.Distance(n, node(op.J))
			case "margin":
				d.Margin(n, node(op.J).GetVector(dim))
			case "side":
				d.Side(n, node(op.J).GetVector(dim), rnd)
			case "split":
				var children []interfaces.Node[TV, TIX]
				for i := 0; i < cs.Nodes; i++ {
					if i != op.I {
						children = append(children, node(i))
					}
				}
				if len(children) < 2 {
					return nil
				}
				d.CreateSplit(children, d.NodeSize(), rnd, n)
				may = append(may, whole(op.I))
			case "preprocess":
				count := op.N % (cs.Nodes + 1)
				d.PreProcess(base, TIX(count))
				for i := 0; i < count; i++ {
					e := extra
					e.node = i
					may = append(may, e)
				}
			}
			return nil
		}()
		if err != nil {
			return fmt.Errorf("op %d %+v: %w", k, op, err)
		}
		for _, s := range may {
			if s.from >= s.to {
				continue
			}
			copy(before[s.node*l.NodeSize+s.from:], mem[s.node*l.NodeSize+s.from:s.node*l.NodeSize+s.to])
		}
		for i := range mem {
			if mem[i] != before[i] {
				return fmt.Errorf("op %d %+v changes byte %d of node %d", k, op, i%l.NodeSize, i/l.NodeSize)
			}
		}
		if len(may) > 0 && (op.I == cs.Nodes-1 || op.I == 0) {
			c.NonTrivial()
		}
		c.Class("%s", op.Op)
	}
	c.Class("%s %s", cs.Config.Metric, cs.Config.Types())
	return nil
}

// ---------------------------------------------------------------------------- build allocator

// GrowOp is a request to one of several build allocators.
type GrowOp struct {
	A    int    `json:"a"`
	Size int    `json:"size"` // 0: Free
	Seed uint64 `json:"seed"`
}

// GrowCase is a history of requests.
type GrowCase struct {
	Ops []GrowOp `json:"ops"`
}

var _ = core.Sub("growth", core.Spec[GrowCase]{
	Quick: 12000, Thorough: 300000,
	Rule: "requests of all sizes (growing, equal, smaller, after Free) to three built-in build allocators, the blocks filled with random bytes and the " +
		"garbage collector run in between: blocks keep their bytes, begin with zeros where they never were, and do not overlap; non-trivial: a block that " +
		"holds bytes grows",
	Gen: func(t *rapid.T) GrowCase {
		var c GrowCase
		last := [3]int{}
		for i, n := 0, rapid.IntRange(1, 14).Draw(t, "len"); i < n; i++ {
			op := GrowOp{A: rapid.IntRange(0, 2).Draw(t, "a"), Seed: rapid.Uint64Max(1<<30).Draw(t, "seed")}
			switch rapid.IntRange(0, 8).Draw(t, "kind") {
			case 0:
				op.Size = 0
			case 1:
				op.Size = rapid.IntRange(1, 5000).Draw(t, "size")
			case 2:
				op.Size = 1<<rapid.IntRange(3, 18).Draw(t, "pow") + rapid.IntRange(-1, 1).Draw(t, "off")
			case 3:
				op.Size = last[op.A] + rapid.IntRange(-1, 1).Draw(t, "off")
			case 4:
				op.Size = rapid.IntRange(1, 300000).Draw(t, "size")
			default:
				op.Size = last[op.A]*rapid.IntRange(100, 200).Draw(t, "percent")/100 + rapid.IntRange(1, 100).Draw(t, "more")
			}
			op.Size = max(0, min(op.Size, 1<<20))
			last[op.A] = op.Size
			c.Ops = append(c.Ops, op)
		}
		return c
	},
	Run: runGrow,
})

type block struct {
	alloc interfaces.BuildIndexAllocator
	ptr   unsafe.Pointer
	want  []byte
	high  int // what was ever asked for since Free
}

func runGrow(c *core.Ctx, cs GrowCase) error {
	blocks := [3]*block{}
	for i := range blocks {
		blocks[i] = &block{alloc: memory.GoGCIndexAllocator()}
	}
	intact := func() error {
		for i, b := range blocks {
			if b.ptr == nil {
				continue
			}
			if got := unsafe.Slice((*byte)(b.ptr), len(b.want)); !bytes.Equal(got, b.want) {
				return fmt.Errorf("the block of allocator %d lost its contents", i)
			}
			for j, o := range blocks {
				if j == i || o.ptr == nil {
					continue
				}
				if p, q := uintptr(b.ptr), uintptr(o.ptr); p < q+uintptr(len(o.want)) && q < p+uintptr(len(b.want)) {
					return fmt.Errorf("the blocks of allocators %d and %d overlap", i, j)
				}
			}
		}
		return nil
	}
	for k, op := range cs.Ops {
		b := blocks[op.A]
		if op.Size == 0 {
			b.alloc.Free()
			b.ptr, b.want, b.high = nil, nil, 0
			c.Class("free")
		} else {
			b.ptr = b.alloc.Reallocate(op.Size)
			if b.ptr == nil {
				return fmt.Errorf("op %d %+v: no memory", k, op)
			}
			if len(b.want) > 0 && op.Size > len(b.want) {
				c.NonTrivial()
			}
			got := unsafe.Slice((*byte)(b.ptr), op.Size)
			keep := min(len(b.want), op.Size)
			if !bytes.Equal(got[:keep], b.want[:keep]) {
				return fmt.Errorf("op %d %+v: the first %d bytes are not preserved", k, op, keep)
			}
			for i := b.high; i < op.Size; i++ {
				if got[i] != 0 {
					return fmt.Errorf("op %d %+v: byte %d of the new memory is %d", k, op, i, got[i])
				}
			}
			b.high = max(b.high, op.Size)
			p := core.NewPrng(op.Seed)
			for i := 0; i < op.Size; i++ {
				if op.Seed%2 == 0 || i%17 == 0 {
					got[i] = byte(p.U64()) | 1
				}
			}
			b.want = append([]byte(nil), got...)
		}
		if op.Seed%32 == 0 {
			runtime.GC()
			c.Class("garbage collected")
		}
		if err := intact(); err != nil {
			return fmt.Errorf("op %d %+v: %w", k, op, err)
		}
	}
	runtime.KeepAlive(blocks)
	return nil
}

// ---------------------------------------------------------------------------- file allocators

// FileOp is an operation on a file allocator.
type FileOp struct {
	Op   string `json:"op"`
	File int    `json:"file"`
	K    int    `json:"k,omitempty"`
	Size int    `json:"size,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// FileCase is a history of one file allocator.
type FileCase struct {
	GCMem bool     `json:"gcmem"`
	Ops   []FileOp `json:"ops"`
}

var _ = core.Sub("files", core.Spec[FileCase]{
	Quick: 6000, Thorough: 150000,
	Rule: "histories of opening files of any size, closing, looking up, and replacing files on disk with each built-in file allocator: an allocation shows " +
		"exactly the bytes and size of its file as long as it is open, whatever else is opened, closed or replaced; missing, empty and unreadable ones are " +
		"errors; every close gives descriptor and mapping back; non-trivial: two allocations open at once or a file replaced while open",
	Gen: func(t *rapid.T) FileCase {
		c := FileCase{GCMem: rapid.Bool().Draw(t, "gcmem")}
		for i, n := 0, rapid.IntRange(2, 16).Draw(t, "len"); i < n; i++ {
			op := FileOp{
				Op:   rapid.SampledFrom([]string{"write", "open", "open", "open", "close", "close", "get", "remove", "bad"}).Draw(t, "op"),
				File: rapid.IntRange(0, 2).Draw(t, "file"), K: rapid.IntRange(0, 9).Draw(t, "k"), Seed: rapid.Uint64Max(1<<30).Draw(t, "seed"),
			}
			switch rapid.IntRange(0, 3).Draw(t, "sizekind") {
			case 0:
				op.Size = rapid.IntRange(1, 40).Draw(t, "size")
			case 1:
				op.Size = rapid.IntRange(1, 3).Draw(t, "pages")*4096 + rapid.IntRange(-2, 2).Draw(t, "off")
			case 2:
				op.Size = rapid.IntRange(1, 200000).Draw(t, "size")
			default:
				op.Size = rapid.IntRange(1, 5000).Draw(t, "size")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	},
	Run: runFiles,
})

type opened struct {
	file  int
	a     interfaces.AllocatedIndex
	want  []byte
	found bool // Get has to find it
}

func runFiles(c *core.Ctx, cs FileCase) error {
	var fa interfaces.IndexAllocator = memory.MmapIndexAllocator()
	if cs.GCMem {
		fa = memory.FileIndexMemoryAllocator()
	}
	disk := map[int][]byte{}
	var open []*opened
	c.Cleanup(func() {
		for _, o := range open {
			o.a.Close()
		}
	})
	name := func(i int) string { return c.File(fmt.Sprint("f", i)) }
	seq := 0
	write := func(op FileOp) {
		b := make([]byte, op.Size)
		p := core.NewPrng(op.Seed)
		for i := range b {
			b[i] = byte(p.U64())
		}
		seq++
		tmp := c.File(fmt.Sprint("tmp", seq))
		core.Must(os.WriteFile(tmp, b, 0o644))
		core.Must(os.Rename(tmp, name(op.File)))
		disk[op.File] = b
	}
	intact := func() error {
		for i, o := range open {
			if o.a.Size() != int64(len(o.want)) {
				return fmt.Errorf("open file %d has size %d, not %d", i, o.a.Size(), len(o.want))
			}
			if got := unsafe.Slice((*byte)(o.a.Ptr()), len(o.want)); !bytes.Equal(got, o.want) {
				return fmt.Errorf("open file %d does not show the bytes of the file", i)
			}
		}
		fds, maps := core.Held(c.Dir)
		if len(fds) > len(open) || len(maps) > len(open) {
			return fmt.Errorf("%d files are open, %d descriptors and %d mappings are held", len(open), len(fds), len(maps))
		}
		return nil
	}
	for k, op := range cs.Ops {
		err := func() error {
			switch op.Op {
			case "write":
				for _, o := range open {
					if o.file == op.File {
						c.NonTrivial()
						c.Class("replaced while open")
					}
				}
				write(op)
			case "remove":
				os.Remove(name(op.File))
				delete(disk, op.File)
			case "open":
				if disk[op.File] == nil {
					if op.K < 7 {
						write(op)
					} else {
						if a, err := fa.Open(name(op.File)); err == nil {
							a.Close()
							return errors.New("a missing file was opened")
						}
						c.Class("missing")
						return nil
					}
				}
				a, err := fa.Open(name(op.File))
				if err != nil {
					return err
				}
				for _, o := range open {
					if o.file == op.File {
						o.found = false
						c.Class("opened twice")
					}
				}
				open = append(open, &opened{op.File, a, disk[op.File], true})
				if len(open) > 1 {
					c.NonTrivial()
				}
			case "close":
				if len(open) == 0 {
					return nil
				}
				i := op.K % len(open)
				o := open[i]
				open = append(open[:i], open[i+1:]...)
				if err := o.a.Close(); err != nil {
					return fmt.Errorf("close: %w", err)
				}
				if op.Seed%3 == 0 {
					// an index closes what it has once, but closing again must not touch others
					o.a.Close()
					c.Class("closed twice")
				}
			case "get":
				var want *opened
				any := false
				for _, o := range open {
					if o.file == op.File {
						any = true
						if o.found {
							want = o
						}
					}
				}
				a, ok := fa.Get(name(op.File))
				if ok && !any {
					return errors.New("Get finds a file that is not open")
				}
				if !ok && want != nil {
					return errors.New("Get does not find the open file")
				}
				if ok && want != nil && (a.Size() != int64(len(want.want)) || !bytes.Equal(unsafe.Slice((*byte)(a.Ptr()), len(want.want)), want.want)) {
					return errors.New("Get finds another file")
				}
			case "bad":
				p := c.File("bad")
				os.RemoveAll(p)
				if op.K%2 == 0 {
					core.Must(os.WriteFile(p, nil, 0o644))
				} else {
					core.Must(os.Mkdir(p, 0o755))
				}
				if a, err := fa.Open(p); err == nil {
					a.Close()
					return fmt.Errorf("an empty file or a directory was opened")
				}
				if _, ok := fa.Get(p); ok {
					return fmt.Errorf("Get finds a file that could not be opened")
				}
			}
			return nil
		}()
		if err == nil {
			err = intact()
		}
		if err != nil {
			return fmt.Errorf("op %d %+v: %w", k, op, err)
		}
	}
	for _, o := range open {
		if err := o.a.Close(); err != nil {
			return fmt.Errorf("close: %w", err)
		}
	}
	open = nil
	if err := intact(); err != nil {
		return fmt.Errorf("all closed: %w", err)
	}
	c.ClassIf(cs.GCMem, "into memory")
	c.ClassIf(!cs.GCMem, "mapped")
	return nil
}
