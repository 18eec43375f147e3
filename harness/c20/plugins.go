package c20

import (
	"fmt"
	"math"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance"
	"github.com/mariotoffia/goannoy/interfaces"

	"verifharness/core"
)

// broken keeps the first promise that was broken towards a plug-in. Plug-ins run in goroutines
// of the library's making, hence they do not panic.
type broken struct {
	mu  sync.Mutex
	msg string
}

func (b *broken) add(format string, a ...any) {
	b.mu.Lock()
	if b.msg == "" {
		b.msg = fmt.Sprintf(format, a...)
	}
	b.mu.Unlock()
}

func (b *broken) err() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.msg != "" {
		return fmt.Errorf("%s", b.msg)
	}
	return nil
}

// ---------------------------------------------------------------------------- distance

// Spec describes a generated distance: plain data.
type Spec struct {
	Fn    string `json:"fn"`    // l1, l2sq, linf, hamming, weighted, discrete
	Norm  string `json:"norm"`  // id, sqrt, affine
	Split string `json:"split"` // twomeans, axis, proj, lopsided, blind
	PQ    string `json:"pq"`    // min, level, flat
	Init  string `json:"init"`  // inf, max, zero
	Head  int    `json:"head"`  // which kind of memory lies before the node
	K     int    `json:"k"`     // at most so many items in a node, 0: what fits
	Tie   string `json:"tie"`   // random, left: side of what lies in the plane
}

// fn is the distance itself. The same code is the oracle: what the index reports must be this
// function of the vectors that were added, bit for bit.
func fn[TV interfaces.VectorType](kind string, a, b []TV) TV {
	var s TV
	for i := range a {
		d := a[i] - b[i]
		if d < 0 {
			d = -d
		}
		switch kind {
		case "l2sq":
			s += d * d
		case "linf":
			if d > s {
				s = d
			}
		case "hamming":
			if d > 0 {
				s++
			}
		case "weighted":
			s += d * TV(1+i%3)
		case "discrete":
			if d > 0 {
				s = 1
			}
		default:
			s += d
		}
	}
	return s
}

func norm[TV interfaces.VectorType](kind string, d TV) TV {
	switch kind {
	case "sqrt":
		return TV(math.Sqrt(float64(d)))
	case "affine":
		return 2*d + 3
	}
	return d
}

// node is what the distance keeps per item or split: not as the nodes of the library.
type node[TV interfaces.VectorType, TIX interfaces.IndexTypes, H any] struct {
	head     H
	sum      TV  // set by InitNode
	prepared TIX // set by PreProcess
	desc     TIX
	children [2]TIX
	offset   TV
	check    TIX // set by CreateSplit
	v        [0]TV
}

func (n *node[TV, TIX, H]) GetRawVector() *TV { return (*TV)(unsafe.Pointer(&n.v)) }
func (n *node[TV, TIX, H]) GetVector(l TIX) []TV {
	return unsafe.Slice((*TV)(unsafe.Pointer(&n.v)), l)
}
func (n *node[TV, TIX, H]) SetVector(v []TV)     { copy(n.GetVector(TIX(len(v))), v) }
func (n *node[TV, TIX, H]) GetRawChildren() *TIX { return (*TIX)(unsafe.Pointer(&n.children)) }
func (n *node[TV, TIX, H]) GetChildren() []TIX {
	return unsafe.Slice((*TIX)(unsafe.Pointer(&n.children)), n.desc)
}
func (n *node[TV, TIX, H]) SetChildren(c []TIX) {
	copy(unsafe.Slice((*TIX)(unsafe.Pointer(&n.children)), len(c)), c)
}
func (n *node[TV, TIX, H]) GetNumberOfDescendants() TIX  { return n.desc }
func (n *node[TV, TIX, H]) SetNumberOfDescendants(d TIX) { n.desc = d }
func (n *node[TV, TIX, H]) GetNorm() TV                  { return 0 }
func (n *node[TV, TIX, H]) SetNorm(TV)                   {}

type dist[TV interfaces.VectorType, TIX interfaces.IndexTypes, H any] struct {
	Spec
	dim, size, kids TIX
	lay             core.Layout
	b               *broken
	count           int // items to be built
	building        atomic.Bool
	prepares        atomic.Int32
	splits          atomic.Int64
	blind           atomic.Int64
}

type tested interface {
	layout() core.Layout
	expect(items, build int)
	stats() (prepares int, splits int64)
}

func newDist[TV interfaces.VectorType, TIX interfaces.IndexTypes, H any](s Spec, dim int, b *broken) *dist[TV, TIX, H] {
	n := node[TV, TIX, H]{}
	d := &dist[TV, TIX, H]{Spec: s, dim: TIX(dim), b: b}
	d.size = TIX(unsafe.Offsetof(n.v)) + TIX(dim)*TIX(unsafe.Sizeof(TV(0)))
	d.kids = (d.size - TIX(unsafe.Offsetof(n.children))) / TIX(unsafe.Sizeof(TIX(0)))
	if s.K >= 2 && TIX(s.K) < d.kids {
		d.kids = TIX(s.K)
	}
	d.lay = core.Layout{
		S: int(unsafe.Sizeof(TIX(0))), V: int(unsafe.Sizeof(TV(0))), Dim: dim, Extra: -1, OffV: int(unsafe.Offsetof(n.v)),
		NodeSize: int(d.size), K: int(d.kids), Head: int(unsafe.Offsetof(n.desc)),
	}
	return d
}

func makeDist[TV interfaces.VectorType, TIX interfaces.IndexTypes](s Spec, dim int, b *broken) any {
	switch s.Head {
	case 1:
		return newDist[TV, TIX, [1]uint64](s, dim, b)
	case 2:
		return newDist[TV, TIX, [7]uint32](s, dim, b)
	}
	return newDist[TV, TIX, struct{}](s, dim, b)
}

func (d *dist[TV, TIX, H]) layout() core.Layout { return d.lay }
func (d *dist[TV, TIX, H]) expect(count, n int) { d.count = count }
func (d *dist[TV, TIX, H]) stats() (int, int64) { return int(d.prepares.Load()), d.splits.Load() }
func (d *dist[TV, TIX, H]) node(n interfaces.Node[TV, TIX], what string) *node[TV, TIX, H] {
	x, ok := n.(*node[TV, TIX, H])
	if !ok || x == nil {
		d.b.add("%s is called with a %T that is not a node of this distance", what, n)
		panic("not a node of this distance")
	}
	return x
}

func sum[TV interfaces.VectorType](v []TV) (s TV) {
	for _, x := range v {
		s += x
	}
	return
}

func (d *dist[TV, TIX, H]) PreProcess(nodes unsafe.Pointer, n TIX) {
	d.prepares.Add(1)
	if d.splits.Load() > 0 {
		d.b.add("PreProcess is called after items were split")
	}
	for i := TIX(0); i < n; i++ {
		if x := d.at(nodes, i); x.desc > 0 {
			x.prepared = x.prepared*3 + 7
		}
	}
}

func (d *dist[TV, TIX, H]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	a, b := d.node(x, "Distance"), d.node(y, "Distance")
	av, bv := a.GetVector(d.dim), b.GetVector(d.dim)
	if a.sum != sum(av) || b.sum != sum(bv) {
		d.b.add("Distance is called with a node that InitNode has not seen with this vector")
	}
	return fn(d.Fn, av, bv)
}
func (d *dist[TV, TIX, H]) Normalize(interfaces.Node[TV, TIX]) {}
func (d *dist[TV, TIX, H]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	x := d.node(n, "Margin")
	// the root above a single item with a high id looks like a split
	if x.check != 99 && d.count > 1 {
		d.b.add("Margin is called with a node that CreateSplit has not made")
	}
	if TIX(len(y)) != d.dim {
		d.b.add("Margin is called with a vector of %d elements, the dimension is %d", len(y), d.dim)
	}
	return d.margin(x, y)
}
func (d *dist[TV, TIX, H]) margin(n *node[TV, TIX, H], y []TV) TV {
	s := n.offset
	for i, x := range n.GetVector(d.dim) {
		s += x * y[i]
	}
	return s
}

func (d *dist[TV, TIX, H]) CreateSplit(
	children []interfaces.Node[TV, TIX], nodeSize TIX, rnd interfaces.Random[TIX], m interfaces.Node[TV, TIX],
) {
	d.splits.Add(1)
	n := d.node(m, "CreateSplit")
	if len(children) < 2 {
		d.b.add("a split of %d nodes is asked for", len(children))
		return
	}
	if nodeSize != d.size {
		d.b.add("a split with nodes of %d bytes is asked for, they have %d", nodeSize, d.size)
	}
	if len(children) > d.count {
		d.b.add("a split of %d nodes is asked for, %d items were added", len(children), d.count)
	}
	for _, c := range children {
		x := d.node(c, "CreateSplit")
		if x.desc != 1 {
			d.b.add("a split of a node with %d descendants is asked for, which is no item", x.desc)
		}
		if x.prepared != 7 {
			d.b.add("an item is split that PreProcess has not seen, or more than once")
		}
	}
	nv := n.GetVector(d.dim)
	for i := range nv {
		nv[i] = 0
	}
	n.offset = 0
	n.check = 99
	draw := func() []TV { return children[rnd.NextIndex(TIX(len(children)))].GetVector(d.dim) }
	switch d.Split {
	case "axis":
		a := rnd.NextIndex(d.dim)
		nv[a] = 1
		n.offset = -(draw()[a] + draw()[a]) / 2
	case "proj":
		for i := range nv {
			nv[i] = 1 - 2*TV(rnd.NextSide())
		}
		x, y := d.margin(n, draw()), d.margin(n, draw())
		n.offset = -(x + y) / 2
	case "lopsided": // everything but the furthest along an axis to the left
		a := rnd.NextIndex(d.dim)
		nv[a] = 1
		max, next := TV(math.Inf(-1)), TV(math.Inf(-1))
		for _, c := range children {
			switch x := c.GetVector(d.dim)[a]; {
			case x > max:
				max, next = x, max
			case x < max && x > next:
				next = x
			}
		}
		if next > TV(math.Inf(-1)) {
			n.offset = -(max + next) / 2
		} else {
			n.offset = -max
		}
	case "blind": // no plane at all
	default:
		pm, qm := make([]byte, nodeSize), make([]byte, nodeSize)
		p, q := d.at(unsafe.Pointer(&pm[0]), 0), d.at(unsafe.Pointer(&qm[0]), 0)
		distance.TwoMeans[TV, TIX](children, d.dim, rnd, false, p, q, d)
		pv, qv := p.GetVector(d.dim), q.GetVector(d.dim)
		for i := range nv {
			nv[i] = pv[i] - qv[i]
			n.offset -= nv[i] * (pv[i] + qv[i]) / 2
		}
	}
}

func (d *dist[TV, TIX, H]) Side(m interfaces.Node[TV, TIX], v []TV, rnd interfaces.Random[TIX]) interfaces.Side {
	n := d.node(m, "Side")
	if n.check != 99 {
		d.b.add("Side is called with a node that CreateSplit has not made")
	}
	if TIX(len(v)) != d.dim {
		d.b.add("Side is called with a vector of %d elements, the dimension is %d", len(v), d.dim)
	}
	switch x := d.margin(n, v); {
	case x > 0:
		return interfaces.SideRight
	case x < 0 || d.Tie == "left":
		return interfaces.SideLeft
	}
	return rnd.NextSide()
}

func (d *dist[TV, TIX, H]) at(mem unsafe.Pointer, item TIX) *node[TV, TIX, H] {
	return (*node[TV, TIX, H])(unsafe.Add(mem, uintptr(item)*uintptr(d.size)))
}
func (d *dist[TV, TIX, H]) MapNodeToMemory(mem unsafe.Pointer, item TIX) interfaces.Node[TV, TIX] {
	return d.at(mem, item)
}
func (d *dist[TV, TIX, H]) PQDistance(x, margin TV, side interfaces.Side) TV {
	if side == interfaces.SideLeft {
		margin = -margin
	}
	switch d.PQ {
	case "level":
		return x - 1
	case "flat":
		return 0
	}
	if x < margin {
		return x
	}
	return margin
}
func (d *dist[TV, TIX, H]) NormalizedDistance(x TV) TV { return norm(d.Norm, x) }
func (d *dist[TV, TIX, H]) PQInitialValue() TV {
	switch d.Init {
	case "max":
		return 1e30
	case "zero":
		return 0
	}
	return TV(math.Inf(1))
}
func (d *dist[TV, TIX, H]) InitNode(n interfaces.Node[TV, TIX]) {
	x := d.node(n, "InitNode")
	x.sum = sum(x.GetVector(d.dim))
}
func (d *dist[TV, TIX, H]) MaxNumChildren() TIX { return d.kids }
func (d *dist[TV, TIX, H]) NodeSize() TIX       { return d.size }
func (d *dist[TV, TIX, H]) VectorLength() TIX   { return d.dim }

// ---------------------------------------------------------------------------- random

// gen is a generator that checks how it is used.
type gen[TIX interfaces.IndexTypes] struct {
	kind  string
	lib   interfaces.Random[TIX]
	seed  TIX
	n     uint64
	b     *broken
	max   *int // most nodes an index may be drawn for
	busy  *atomic.Int32
	drawn *atomic.Int64
}

func makeGen[TIX interfaces.IndexTypes](kind string, cfg core.Config, b *broken, max *int) any {
	g := &gen[TIX]{kind: kind, b: b, max: max, busy: &atomic.Int32{}, drawn: &atomic.Int64{}}
	switch kind {
	case "kiss", "go", "xorshift":
		cfg.Rnd = kind
		g.lib = core.MakeRandom[TIX](cfg)
		g.seed = g.lib.GetSeed()
	default:
		g.SetSeed(TIX(cfg.Seed))
	}
	return g
}

func (g *gen[TIX]) use() func() {
	if !g.busy.CompareAndSwap(0, 1) {
		g.b.add("two workers draw from one generator at once")
	}
	g.drawn.Add(1)
	return func() { g.busy.Store(0) }
}

func (g *gen[TIX]) step() uint64 {
	g.n++
	z := (g.n + uint64(g.seed)) * 0x9e3779b97f4a7c15
	return (z ^ z>>29) * 0xbf58476d1ce4e5b9 >> 11
}

func (g *gen[TIX]) Next() TIX {
	defer g.use()()
	if g.lib != nil {
		return g.lib.Next()
	}
	return TIX(g.step())
}

func (g *gen[TIX]) NextSide() interfaces.Side {
	defer g.use()()
	switch {
	case g.lib != nil:
		return g.lib.NextSide()
	case g.kind == "biased": // one in eight
		if g.step()%8 == 0 {
			return interfaces.SideRight
		}
		return interfaces.SideLeft
	case g.kind == "short": // period 7
		g.n++
		return interfaces.Side(0b1011001 >> (g.n % 7) & 1)
	}
	g.n++
	return interfaces.Side(g.n & 1)
}

func (g *gen[TIX]) NextIndex(n TIX) TIX {
	defer g.use()()
	if n < 1 {
		g.b.add("an index below 0 is drawn from a generator")
		return 0
	}
	if uint64(n) > uint64(*g.max) {
		g.b.add("an index below %d is drawn from a generator, there are %d items", n, *g.max)
	}
	switch {
	case g.lib != nil:
		return g.lib.NextIndex(n)
	case g.kind == "biased":
		a, b := g.step(), g.step()
		if b < a {
			a = b
		}
		return TIX(a % uint64(n))
	case g.kind == "first":
		return 0
	case g.kind == "last":
		return n - 1
	}
	g.n++
	return TIX((g.n + uint64(g.seed)) % uint64(n))
}

func (g *gen[TIX]) SetSeed(seed TIX) {
	if g.lib != nil {
		g.lib.SetSeed(seed)
	}
	g.seed, g.n = seed, 0
}
func (g *gen[TIX]) GetSeed() TIX { return g.seed }
func (g *gen[TIX]) CloneAndReset() interfaces.Random[TIX] {
	c := *g
	c.busy = &atomic.Int32{}
	if g.lib != nil {
		c.lib = g.lib.CloneAndReset()
	}
	c.n = 0
	return &c
}

// ---------------------------------------------------------------------------- sorter

type sorter[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	kind string
	lib  interfaces.Sorter[TV, TIX]
	b    *broken
}

func makeSorter[TV interfaces.VectorType, TIX interfaces.IndexTypes](kind string, b *broken) any {
	s := &sorter[TV, TIX]{kind: kind, b: b}
	switch kind {
	case "":
		return nil
	case "lib2", "lib3", "std", "user":
		s.lib = core.MakeSorter[TV, TIX](kind)
	}
	return s
}

func (s *sorter[TV, TIX]) SortSlice(x []TIX) {
	if s.lib != nil {
		s.lib.SortSlice(x)
		return
	}
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
}

func (s *sorter[TV, TIX]) SortPairs(x []*interfaces.Pair[TV, TIX]) {
	if s.lib != nil {
		s.lib.SortPairs(x)
		return
	}
	sort.Slice(x, func(i, j int) bool { return x[i].Less(x[j]) })
}

func (s *sorter[TV, TIX]) PartialSortSlice(p interfaces.Pairs[TV, TIX], begin, middle, end int) {
	if begin < 0 || middle < begin || end < middle || len(p) < end {
		s.b.add("a sorter is asked to sort [%d, %d) of [%d, %d) of %d pairs", begin, middle, begin, end, len(p))
		return
	}
	for i := begin; i < end; i++ {
		if p[i] == nil {
			s.b.add("a sorter is given no pair at %d of [%d, %d)", i, begin, end)
			return
		}
	}
	if s.lib != nil {
		s.lib.PartialSortSlice(p, begin, middle, end)
		return
	}
	x := p[begin:end]
	switch s.kind {
	case "values": // moves the values instead of the pointers, the rest of the pairs in descending order
		vals := make([]interfaces.Pair[TV, TIX], len(x))
		for i := range x {
			vals[i] = *x[i]
		}
		sort.SliceStable(vals, func(i, j int) bool { return vals[i].Less(&vals[j]) })
		for i, j := middle-begin, len(vals)-1; i < j; i, j = i+1, j-1 {
			vals[i], vals[j] = vals[j], vals[i]
		}
		for i := range x {
			*x[i] = vals[i]
		}
	default: // "select": one after another
		for i := 0; i < middle-begin; i++ {
			m := i
			for j := i + 1; j < len(x); j++ {
				if x[j].Less(x[m]) {
					m = j
				}
			}
			x[i], x[m] = x[m], x[i]
		}
	}
}

// ---------------------------------------------------------------------------- policy

// seqPolicy lets the workers build one after another, in any order and under any number, and
// checks that they lock in an order that cannot deadlock.
type seqPolicy struct {
	b      *broken
	shares []int
	ids    []int
	trees  int
	builds int

	mu    sync.Mutex
	order [3][3]bool // lock i was held when lock j was taken
}

type seqWorker struct {
	*seqPolicy
	nnodes, nodes, shared, roots bool
}

func (p *seqPolicy) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	p.builds++
	if trees != p.trees {
		p.b.add("the policy is asked for %d trees, the index was asked for %d", trees, p.trees)
	}
	for i, n := range p.shares {
		w := &seqWorker{seqPolicy: p}
		b.ThreadBuild(n, p.ids[i], w)
		if w.nnodes || w.nodes || w.shared || w.roots {
			p.b.add("a worker ended holding a lock")
		}
	}
}

func (w *seqWorker) Build(interfaces.AnnoyIndexBuilder, int, int) { w.b.add("a worker starts a build") }

// take notes the order of locks: 0 number of nodes, 1 nodes (also shared), 2 roots.
func (w *seqWorker) take(what string, held *bool, lock int) {
	if *held {
		w.b.add("a worker takes the lock of %s, which it holds", what)
	}
	w.mu.Lock()
	for h, holds := range []bool{w.nnodes, w.nodes || w.shared, w.roots} {
		if !holds {
			continue
		}
		w.order[h][lock] = true
		third := 3 - h - lock
		if h == lock || w.order[lock][h] || (third >= 0 && third < 3 && w.order[lock][third] && w.order[third][h]) {
			w.b.add("workers may deadlock: a worker takes the lock of %s while it holds (number of nodes %v, nodes %v, shared nodes %v, "+
				"roots %v), but locks were also taken in another order", what, w.nnodes, w.nodes, w.shared, w.roots)
		}
	}
	w.mu.Unlock()
	*held = true
}

func (w *seqWorker) give(what string, held *bool) {
	if !*held {
		w.b.add("a worker gives back the lock of %s, which it does not hold", what)
	}
	*held = false
}

func (w *seqWorker) LockNNodes()        { w.take("the number of nodes", &w.nnodes, 0) }
func (w *seqWorker) UnlockNNodes()      { w.give("the number of nodes", &w.nnodes) }
func (w *seqWorker) LockNodes()         { w.take("the nodes", &w.nodes, 1) }
func (w *seqWorker) UnlockNodes()       { w.give("the nodes", &w.nodes) }
func (w *seqWorker) LockSharedNodes()   { w.take("shared nodes", &w.shared, 1) }
func (w *seqWorker) UnlockSharedNodes() { w.give("shared nodes", &w.shared) }
func (w *seqWorker) LockRoots()         { w.take("the roots", &w.roots, 2) }
func (w *seqWorker) UnlockRoots()       { w.give("the roots", &w.roots) }

func (p *seqPolicy) own() {
	p.b.add("a lock of the policy given to the index is used instead of that of the worker")
}
func (p *seqPolicy) LockNNodes()        { p.own() }
func (p *seqPolicy) UnlockNNodes()      { p.own() }
func (p *seqPolicy) LockNodes()         { p.own() }
func (p *seqPolicy) UnlockNodes()       { p.own() }
func (p *seqPolicy) LockSharedNodes()   { p.own() }
func (p *seqPolicy) UnlockSharedNodes() { p.own() }
func (p *seqPolicy) LockRoots()         { p.own() }
func (p *seqPolicy) UnlockRoots()       { p.own() }

// threadPolicy lets the workers build at the same time under locks of package sync, each the
// owner of what it locks.
type threadPolicy struct {
	seqPolicy
	exclusive bool // LockSharedNodes is a plain mutex
}

type threadWorker struct {
	seqWorker
	l *threadLocks
}

type threadLocks struct {
	exclusive     bool
	nodes         sync.RWMutex
	nnodes, roots sync.Mutex
}

func (p *threadPolicy) Build(b interfaces.AnnoyIndexBuilder, trees, workers int) {
	p.builds++
	if trees != p.trees {
		p.b.add("the policy is asked for %d trees, the index was asked for %d", trees, p.trees)
	}
	l := &threadLocks{exclusive: p.exclusive}
	var wg sync.WaitGroup
	for i, n := range p.shares {
		wg.Add(1)
		go func(n, id int) {
			defer wg.Done()
			w := &threadWorker{seqWorker{seqPolicy: &p.seqPolicy}, l}
			b.ThreadBuild(n, id, w)
			if w.nnodes || w.nodes || w.shared || w.roots {
				p.b.add("a worker ended holding a lock")
			}
		}(n, p.ids[i])
	}
	wg.Wait()
}

func (w *threadWorker) LockNNodes()   { w.seqWorker.LockNNodes(); w.l.nnodes.Lock() }
func (w *threadWorker) UnlockNNodes() { w.seqWorker.UnlockNNodes(); w.l.nnodes.Unlock() }
func (w *threadWorker) LockNodes()    { w.seqWorker.LockNodes(); w.l.nodes.Lock() }
func (w *threadWorker) UnlockNodes()  { w.seqWorker.UnlockNodes(); w.l.nodes.Unlock() }
func (w *threadWorker) LockSharedNodes() {
	w.seqWorker.LockSharedNodes()
	if w.l.exclusive {
		w.l.nodes.Lock()
	} else {
		w.l.nodes.RLock()
	}
}
func (w *threadWorker) UnlockSharedNodes() {
	w.seqWorker.UnlockSharedNodes()
	if w.l.exclusive {
		w.l.nodes.Unlock()
	} else {
		w.l.nodes.RUnlock()
	}
}
func (w *threadWorker) LockRoots()   { w.seqWorker.LockRoots(); w.l.roots.Lock() }
func (w *threadWorker) UnlockRoots() { w.seqWorker.UnlockRoots(); w.l.roots.Unlock() }

// ---------------------------------------------------------------------------- allocators

// bufAlloc is a plain build allocator that moves the block now and then only.
type bufAlloc struct {
	b    *broken
	keep [][]uint64
	size int
}

func (a *bufAlloc) Free() { a.keep = nil; a.size = 0 }

func (a *bufAlloc) Reallocate(size int) unsafe.Pointer {
	if size < 0 {
		a.b.add("%d bytes are asked for", size)
		size = 0
	}
	words := (size+7)/8 + 1
	var cur []uint64
	if n := len(a.keep); n > 0 {
		cur = a.keep[n-1]
	}
	if words > len(cur) {
		next := make([]uint64, words+words/3)
		copy(next, cur)
		a.keep = [][]uint64{next}
		cur = next
	}
	a.size = size
	return unsafe.Pointer(&cur[0])
}

// readAlloc is a file allocator that reads the file.
type readAlloc struct{ b *broken }

type readFile struct {
	b      *broken
	data   []uint64
	size   int64
	closed bool
}

func (r *readAlloc) Open(name string) (interfaces.AllocatedIndex, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	f := &readFile{b: r.b, data: make([]uint64, len(b)/8+1), size: int64(len(b))}
	copy(unsafe.Slice((*byte)(unsafe.Pointer(&f.data[0])), len(b)), b)
	return f, nil
}
func (r *readAlloc) Get(string) (interfaces.AllocatedIndex, bool) { return nil, false }
func (f *readFile) Ptr() unsafe.Pointer                           { return unsafe.Pointer(&f.data[0]) }
func (f *readFile) Size() int64                                   { return f.size }
func (f *readFile) Close() error {
	if f.closed {
		f.b.add("an allocation is closed twice")
	}
	f.closed = true
	return nil
}
