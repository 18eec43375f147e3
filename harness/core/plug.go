package core

import (
	"math"
	"sort"
	"unsafe"

	"github.com/mariotoffia/goannoy/distance"
	"github.com/mariotoffia/goannoy/interfaces"
	libsort "github.com/mariotoffia/goannoy/sort"
)

// ---------------------------------------------------------------------------- random

// Xorshift is a user written generator.
type Xorshift[TIX interfaces.IndexTypes] struct {
	seed TIX
	s    uint64
}

// NewXorshift makes one.
func NewXorshift[TIX interfaces.IndexTypes](seed TIX) *Xorshift[TIX] {
	x := &Xorshift[TIX]{}
	x.SetSeed(seed)
	return x
}

func (x *Xorshift[TIX]) Next() TIX {
	x.s ^= x.s << 13
	x.s ^= x.s >> 7
	x.s ^= x.s << 17
	return TIX(x.s >> 5)
}

func (x *Xorshift[TIX]) NextSide() interfaces.Side {
	return interfaces.Side(x.Next() >> 3 & 1)
}

func (x *Xorshift[TIX]) NextIndex(n TIX) TIX { return x.Next() % n }

func (x *Xorshift[TIX]) SetSeed(seed TIX) {
	x.seed = seed
	x.s = uint64(seed)*0x9e3779b97f4a7c15 + 0x1234567
	if x.s == 0 {
		x.s = 1
	}
}
func (x *Xorshift[TIX]) GetSeed() TIX { return x.seed }
func (x *Xorshift[TIX]) CloneAndReset() interfaces.Random[TIX] {
	return NewXorshift(x.seed)
}

// CounterRandom is a deterministic "generator" that walks through the indexes and alternates
// the sides.
type CounterRandom[TIX interfaces.IndexTypes] struct {
	seed, n TIX
	side    int
}

func (c *CounterRandom[TIX]) Next() TIX { c.n++; return c.n + c.seed }
func (c *CounterRandom[TIX]) NextSide() interfaces.Side {
	c.side ^= 1
	return interfaces.Side(c.side)
}
func (c *CounterRandom[TIX]) NextIndex(n TIX) TIX { return c.Next() % n }
func (c *CounterRandom[TIX]) SetSeed(seed TIX)    { c.seed = seed; c.n = 0; c.side = 0 }
func (c *CounterRandom[TIX]) GetSeed() TIX        { return c.seed }
func (c *CounterRandom[TIX]) CloneAndReset() interfaces.Random[TIX] {
	return &CounterRandom[TIX]{seed: c.seed}
}

type watchedRandom[TIX interfaces.IndexTypes] struct {
	interfaces.Random[TIX]
	w *Watch
}

func (r *watchedRandom[TIX]) note(op string, n uint64) {
	if r.w.Gen != nil && op != "clone" {
		r.w.Gen(r)
	}
	if r.w.Random != nil {
		r.w.Random(op, n)
	}
}
func (r *watchedRandom[TIX]) Next() TIX { r.note("next", 1); return r.Random.Next() }
func (r *watchedRandom[TIX]) NextSide() interfaces.Side {
	r.note("side", 2)
	return r.Random.NextSide()
}
func (r *watchedRandom[TIX]) NextIndex(n TIX) TIX {
	r.note("index", uint64(n))
	return r.Random.NextIndex(n)
}
func (r *watchedRandom[TIX]) SetSeed(seed TIX) { r.note("setseed", 1); r.Random.SetSeed(seed) }
func (r *watchedRandom[TIX]) CloneAndReset() interfaces.Random[TIX] {
	r.note("clone", 1)
	return &watchedRandom[TIX]{r.Random.CloneAndReset(), r.w}
}

// ---------------------------------------------------------------------------- sorter

type userSorter[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct{}

func (userSorter[TV, TIX]) SortSlice(s []TIX) {
	// insertion into a binary heap, popped from the end
	n := len(s)
	down := func(i, n int) {
		for {
			c := 2*i + 1
			if c >= n {
				return
			}
			if c+1 < n && s[c] < s[c+1] {
				c++
			}
			if s[i] >= s[c] {
				return
			}
			s[i], s[c] = s[c], s[i]
			i = c
		}
	}
	for i := n/2 - 1; i >= 0; i-- {
		down(i, n)
	}
	for n > 1 {
		n--
		s[0], s[n] = s[n], s[0]
		down(0, n)
	}
}

func (userSorter[TV, TIX]) SortPairs(p []*interfaces.Pair[TV, TIX]) {
	sort.SliceStable(p, func(i, j int) bool { return p[i].Less(p[j]) })
}

func (u userSorter[TV, TIX]) PartialSortSlice(s interfaces.Pairs[TV, TIX], begin, middle, end int) {
	if begin >= end || middle <= begin || middle > end {
		return
	}
	u.SortPairs(s[begin:end])
	// everything behind middle is in no particular order: turn it around
	for i, j := middle, end-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

// MakeSorter gives a conforming sorter, nil being the default of the library.
func MakeSorter[TV interfaces.VectorType, TIX interfaces.IndexTypes](kind string) interfaces.Sorter[TV, TIX] {
	switch kind {
	case "lib2":
		return &interfaces.SorterFunctions[TV, TIX]{
			SortSliceFunc:        libsort.SortSlice2[TIX],
			SortPairsFunc:        func(p []*interfaces.Pair[TV, TIX]) { libsort.SortPairs2[TV, TIX](p) },
			PartialSortSliceFunc: libsort.PartialSortSlice2[TV, TIX],
		}
	case "lib3":
		return &interfaces.SorterFunctions[TV, TIX]{
			SortSliceFunc:        libsort.SortSlice3[TIX],
			SortPairsFunc:        libsort.SortPairs[TV, TIX],
			PartialSortSliceFunc: libsort.PartialSortSlice[TV, TIX],
		}
	case "std":
		return &interfaces.SorterFunctions[TV, TIX]{
			SortSliceFunc: func(s []TIX) { sort.Slice(s, func(i, j int) bool { return s[i] < s[j] }) },
			SortPairsFunc: func(p []*interfaces.Pair[TV, TIX]) {
				sort.Slice(p, func(i, j int) bool { return p[i].Less(p[j]) })
			},
			PartialSortSliceFunc: func(s interfaces.Pairs[TV, TIX], b, m, e int) {
				if b < e && m > b && m <= e {
					p := s[b:e]
					sort.Slice(p, func(i, j int) bool { return p[i].Less(p[j]) })
				}
			},
		}
	case "user":
		return userSorter[TV, TIX]{}
	}
	return nil
}

type watchedSorter[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	interfaces.Sorter[TV, TIX]
	w *Watch
}

func (s *watchedSorter[TV, TIX]) PartialSortSlice(p interfaces.Pairs[TV, TIX], begin, middle, end int) {
	if s.w.Sort != nil {
		s.w.Sort(begin, middle, end, len(p))
	}
	s.Sorter.PartialSortSlice(p, begin, middle, end)
}

// ---------------------------------------------------------------------------- distance

// MinkowskiNode is a user written node: as the angular one, with the offset of the split plane.
type MinkowskiNode[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	desc     TIX
	children [2]TIX
	offset   TV
	v        [0]TV
}

func (n *MinkowskiNode[TV, TIX]) GetRawVector() *TV { return (*TV)(unsafe.Pointer(&n.v)) }
func (n *MinkowskiNode[TV, TIX]) GetVector(l TIX) []TV {
	return unsafe.Slice((*TV)(unsafe.Pointer(&n.v)), l)
}
func (n *MinkowskiNode[TV, TIX]) SetVector(v []TV) { copy(n.GetVector(TIX(len(v))), v) }
func (n *MinkowskiNode[TV, TIX]) GetRawChildren() *TIX {
	return (*TIX)(unsafe.Pointer(&n.children))
}
func (n *MinkowskiNode[TV, TIX]) GetChildren() []TIX {
	return unsafe.Slice((*TIX)(unsafe.Pointer(&n.children)), n.desc)
}
func (n *MinkowskiNode[TV, TIX]) SetChildren(c []TIX) {
	copy(unsafe.Slice((*TIX)(unsafe.Pointer(&n.children)), len(c)), c)
}
func (n *MinkowskiNode[TV, TIX]) GetNumberOfDescendants() TIX  { return n.desc }
func (n *MinkowskiNode[TV, TIX]) SetNumberOfDescendants(d TIX) { n.desc = d }
func (n *MinkowskiNode[TV, TIX]) GetNorm() TV                  { return 0 }
func (n *MinkowskiNode[TV, TIX]) SetNorm(TV)                   {}

// Minkowski is a user written distance: Euclidean or Manhattan.
type Minkowski[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	dim    TIX
	euclid bool
	size   TIX
	kids   TIX
}

// NewMinkowski makes one.
func NewMinkowski[TV interfaces.VectorType, TIX interfaces.IndexTypes](dim int, euclid bool) *Minkowski[TV, TIX] {
	n := MinkowskiNode[TV, TIX]{}
	m := &Minkowski[TV, TIX]{dim: TIX(dim), euclid: euclid}
	m.size = TIX(unsafe.Offsetof(n.v)) + TIX(dim)*TIX(unsafe.Sizeof(TV(0)))
	m.kids = (m.size - TIX(unsafe.Offsetof(n.children))) / TIX(unsafe.Sizeof(TIX(0)))
	return m
}

func (m *Minkowski[TV, TIX]) PreProcess(unsafe.Pointer, TIX) {}
func (m *Minkowski[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	a, b := x.GetVector(m.dim), y.GetVector(m.dim)
	var s TV
	for i := range a {
		d := a[i] - b[i]
		if m.euclid {
			s += d * d
		} else if d < 0 {
			s -= d
		} else {
			s += d
		}
	}
	return s
}
func (m *Minkowski[TV, TIX]) Normalize(node interfaces.Node[TV, TIX]) {
	v := node.GetVector(m.dim)
	var s float64
	for _, x := range v {
		s += float64(x) * float64(x)
	}
	if s = math.Sqrt(s); s > 0 {
		for i := range v {
			v[i] = TV(float64(v[i]) / s)
		}
	}
}
func (m *Minkowski[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	s := n.(*MinkowskiNode[TV, TIX]).offset
	for i, x := range n.GetVector(m.dim) {
		s += x * y[i]
	}
	return s
}
func (m *Minkowski[TV, TIX]) CreateSplit(
	children []interfaces.Node[TV, TIX], nodeSize TIX, rnd interfaces.Random[TIX], n interfaces.Node[TV, TIX],
) {
	pm, qm := make([]byte, nodeSize), make([]byte, nodeSize)
	p := (*MinkowskiNode[TV, TIX])(unsafe.Pointer(&pm[0]))
	q := (*MinkowskiNode[TV, TIX])(unsafe.Pointer(&qm[0]))
	distance.TwoMeans[TV, TIX](children, m.dim, rnd, false, p, q, m)
	nv, pv, qv := n.GetVector(m.dim), p.GetVector(m.dim), q.GetVector(m.dim)
	for i := range nv {
		nv[i] = pv[i] - qv[i]
	}
	m.Normalize(n)
	var off TV
	for i := range nv {
		off -= nv[i] * (pv[i] + qv[i]) / 2
	}
	n.(*MinkowskiNode[TV, TIX]).offset = off
}
func (m *Minkowski[TV, TIX]) Side(n interfaces.Node[TV, TIX], v []TV, rnd interfaces.Random[TIX]) interfaces.Side {
	switch d := m.Margin(n, v); {
	case d > 0:
		return interfaces.SideRight
	case d < 0:
		return interfaces.SideLeft
	}
	return rnd.NextSide()
}
func (m *Minkowski[TV, TIX]) MapNodeToMemory(mem unsafe.Pointer, item TIX) interfaces.Node[TV, TIX] {
	return (*MinkowskiNode[TV, TIX])(unsafe.Add(mem, uintptr(item)*uintptr(m.size)))
}
func (m *Minkowski[TV, TIX]) PQDistance(d, margin TV, side interfaces.Side) TV {
	if side == interfaces.SideLeft {
		margin = -margin
	}
	if d < margin {
		return d
	}
	return margin
}
func (m *Minkowski[TV, TIX]) NormalizedDistance(d TV) TV {
	if m.euclid {
		if d < 0 {
			d = 0
		}
		return TV(math.Sqrt(float64(d)))
	}
	return d
}
func (m *Minkowski[TV, TIX]) PQInitialValue() TV                { return TV(math.Inf(1)) }
func (m *Minkowski[TV, TIX]) InitNode(interfaces.Node[TV, TIX]) {}
func (m *Minkowski[TV, TIX]) MaxNumChildren() TIX               { return m.kids }
func (m *Minkowski[TV, TIX]) NodeSize() TIX                     { return m.size }
func (m *Minkowski[TV, TIX]) VectorLength() TIX                 { return m.dim }

type inner[TV interfaces.VectorType, TIX interfaces.IndexTypes] interface {
	interfaces.Distance[TV, TIX]
}

type watchedDistance[TV interfaces.VectorType, TIX interfaces.IndexTypes] struct {
	inner[TV, TIX]
	w *Watch
}

func (d *watchedDistance[TV, TIX]) op(name string) {
	if d.w.Dist != nil {
		d.w.Dist(name)
	}
}
func (d *watchedDistance[TV, TIX]) PreProcess(nodes unsafe.Pointer, n TIX) {
	d.op("preprocess")
	d.inner.PreProcess(nodes, n)
}
func (d *watchedDistance[TV, TIX]) Margin(n interfaces.Node[TV, TIX], y []TV) TV {
	d.op("margin")
	return d.inner.Margin(n, y)
}
func (d *watchedDistance[TV, TIX]) Distance(x, y interfaces.Node[TV, TIX]) TV {
	if d.w.Measured != nil {
		d.w.Measured()
	}
	return d.inner.Distance(x, y)
}
func (d *watchedDistance[TV, TIX]) Side(m interfaces.Node[TV, TIX], v []TV, r interfaces.Random[TIX]) interfaces.Side {
	d.op("side")
	return d.inner.Side(m, v, r)
}
func (d *watchedDistance[TV, TIX]) InitNode(n interfaces.Node[TV, TIX]) {
	d.op("init")
	d.inner.InitNode(n)
}
func (d *watchedDistance[TV, TIX]) CreateSplit(
	c []interfaces.Node[TV, TIX], size TIX, r interfaces.Random[TIX], m interfaces.Node[TV, TIX],
) {
	d.op("split")
	if d.w.Split != nil {
		d.w.Split(len(c))
	}
	d.inner.CreateSplit(c, size, r, m)
}
func (d *watchedDistance[TV, TIX]) MapNodeToMemory(mem unsafe.Pointer, item TIX) interfaces.Node[TV, TIX] {
	if d.w.Map != nil {
		d.w.Map(uintptr(mem), uint64(item))
	}
	return d.inner.MapNodeToMemory(mem, item)
}
