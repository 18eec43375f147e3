package core

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
)

// Layout is how a node lies in memory and in the file, written down independently of the
// library: number of descendants, children (which overlay norm and vector), [dot factor or
// offset,] vector.
type Layout struct {
	S, V     int // sizes of index and element
	Dim      int
	Extra    int // offset of the extra element (dot product, Minkowski), -1 if none
	OffV     int
	NodeSize int
	K        int
	Head     int // bytes before the number of descendants (user written nodes)
}

// Layout of the nodes of this index.
func (c Config) Layout() Layout {
	l := Layout{S: c.IDSize(), V: c.ElemSize(), Dim: c.Dim, Extra: -1}
	off := (3*l.S + l.V - 1) / l.V * l.V
	if c.Metric != "angular" {
		l.Extra = off
		off += l.V
	}
	l.OffV = off
	l.NodeSize = off + l.V*c.Dim
	l.K = (l.NodeSize - l.S) / l.S
	return l
}

// Forest is the parsed content of an index file.
type Forest struct {
	Layout
	B       []byte
	Nodes   int
	NItems  uint64   // highest id + 1
	Trees   int      // number of trees
	Roots   []uint64 // the trees, in the order they were built
	Copies  []uint64 // their copies at the end, in order of the file
	present map[uint64]bool
}

// ReadForest parses a file.
func ReadForest(path string, l Layout) (*Forest, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("the saved file cannot be read: %v", err)
	}
	return ParseForest(b, l)
}

// ParseForest parses bytes.
func ParseForest(b []byte, l Layout) (*Forest, error) {
	f := &Forest{Layout: l, B: b}
	if len(b) == 0 || len(b)%l.NodeSize != 0 {
		return nil, fmt.Errorf("file has %d bytes, not a positive multiple of the node size %d", len(b), l.NodeSize)
	}
	f.Nodes = len(b) / l.NodeSize
	f.NItems = f.Desc(uint64(f.Nodes - 1))
	if f.NItems == 0 || f.NItems > uint64(f.Nodes) {
		return nil, fmt.Errorf("last node (a root) has %d descendants, the file has %d nodes", f.NItems, f.Nodes)
	}
	var marked []uint64
	for i := f.NItems; i < uint64(f.Nodes); i++ {
		if f.Desc(i) == f.NItems {
			marked = append(marked, i)
		}
	}
	if len(marked)%2 != 0 || len(marked) == 0 {
		return nil, fmt.Errorf("%d nodes look like roots (%d descendants), want an even number: every root and its copy", len(marked), f.NItems)
	}
	f.Trees = len(marked) / 2
	f.Roots, f.Copies = marked[:f.Trees], marked[f.Trees:]
	for i, c := range f.Copies {
		if want := uint64(f.Nodes - f.Trees + i); c != want {
			return nil, fmt.Errorf("node %d looks like a root, but the last %d nodes of %d should be the copies of the roots", c, f.Trees, f.Nodes)
		}
	}
	return f, nil
}

func (f *Forest) node(i uint64) []byte {
	return f.B[int(i)*f.NodeSize : (int(i)+1)*f.NodeSize]
}

func (f *Forest) idx(b []byte) uint64 {
	if f.S == 8 {
		return binary.LittleEndian.Uint64(b)
	}
	return uint64(binary.LittleEndian.Uint32(b))
}

func (f *Forest) elem(b []byte) float64 {
	if f.V == 8 {
		return math.Float64frombits(binary.LittleEndian.Uint64(b))
	}
	return float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
}

// Desc is the recorded number of descendants.
func (f *Forest) Desc(i uint64) uint64 { return f.idx(f.node(i)[f.Head:]) }

// Child is the k-th child.
func (f *Forest) Child(i uint64, k int) uint64 {
	return f.idx(f.node(i)[f.Head+f.S*(1+k):])
}

// Vec is the vector of an item or the normal of a split node.
func (f *Forest) Vec(i uint64) []float64 {
	r := make([]float64, f.Dim)
	n := f.node(i)
	for z := range r {
		r[z] = f.elem(n[f.OffV+z*f.V:])
	}
	return r
}

// ExtraOf is the extra element of a node.
func (f *Forest) ExtraOf(i uint64) float64 {
	if f.Extra < 0 {
		return 0
	}
	return f.elem(f.node(i)[f.Extra:])
}

// Kind of node.
type Kind int

// What a node is when it is reached on the way down from a root.
const (
	Item Kind = iota
	List
	Split
	Empty
)

// Kind of node i.
func (f *Forest) Kind(i uint64) Kind {
	d := f.Desc(i)
	switch {
	case i < f.NItems && d == 1:
		return Item
	case d == 0:
		return Empty
	case d <= uint64(f.K):
		return List
	}
	return Split
}

// Check tests the structure of the forest against the ids that were added.
func (f *Forest) Check(ids map[uint64][]float64) error {
	var max uint64
	for id := range ids {
		if id+1 > max {
			max = id + 1
		}
	}
	if f.NItems != max {
		return fmt.Errorf("roots record %d descendants, want highest id + 1 = %d", f.NItems, max)
	}
	for i := uint64(0); i < f.NItems; i++ {
		_, added := ids[i]
		want := uint64(0)
		if added {
			want = 1
		}
		if f.Desc(i) != want {
			return fmt.Errorf("node of item %d (added: %v) records %d descendants", i, added, f.Desc(i))
		}
	}
	used := make([]int, f.Nodes)
	for t, r := range f.Roots {
		seen := map[uint64]int{}
		n, err := f.walk(r, true, len(ids), seen, used, 0)
		if err != nil {
			return fmt.Errorf("tree %d (root node %d): %w", t, r, err)
		}
		if n != len(ids) {
			return fmt.Errorf("tree %d (root node %d) reaches %d items, %d were added", t, r, n, len(ids))
		}
		for id, c := range seen {
			if _, ok := ids[id]; !ok || c != 1 {
				return fmt.Errorf("tree %d (root node %d) reaches item %d %d times (added: %v)", t, r, id, c, ok)
			}
		}
	}
	for i := f.NItems; i < uint64(f.Nodes-f.Trees); i++ {
		if used[i] != 1 {
			return fmt.Errorf("node %d is used %d times by the %d trees", i, used[i], f.Trees)
		}
	}
	// the copies are the roots, in any order
	a, b := map[string]int{}, map[string]int{}
	for i := range f.Roots {
		a[string(f.node(f.Roots[i]))]++
		b[string(f.node(f.Copies[i]))]++
	}
	for k, n := range a {
		if b[k] != n {
			return fmt.Errorf("the %d nodes at the end of the file are not the roots, node for node", f.Trees)
		}
	}
	return nil
}

func (f *Forest) walk(i uint64, isRoot bool, all int, seen map[uint64]int, used []int, depth int) (int, error) {
	if i >= uint64(f.Nodes-f.Trees) {
		return 0, fmt.Errorf("child %d lies outside of the %d nodes before the copies of the roots", i, f.Nodes-f.Trees)
	}
	if depth > 10000 {
		return 0, fmt.Errorf("deeper than 10000 levels")
	}
	if i < f.NItems {
		if isRoot {
			return 0, fmt.Errorf("root among the items")
		}
		seen[i]++
		return 1, nil
	}
	used[i]++
	d := f.Desc(i)
	if isRoot && d != f.NItems {
		return 0, fmt.Errorf("root records %d descendants, want %d", d, f.NItems)
	}
	if isRoot && (all == 1 || (d <= uint64(f.K) && all < int(d))) {
		// A root records the highest id + 1, whatever the number of items below. With a single
		// item, or with gaps in the ids, the entries behind the items are fillers: they name
		// an id never added or repeat an item.
		n := 2
		if d <= uint64(f.K) {
			n = int(d)
		}
		items := map[uint64]bool{}
		for k := 0; k < n; k++ {
			c := f.Child(i, k)
			if c >= f.NItems {
				return 0, fmt.Errorf("root lists %d, which is no item", c)
			}
			if f.Desc(c) != 0 {
				items[c] = true
			}
		}
		for c := range items {
			seen[c]++
		}
		return len(items), nil
	}
	if d <= uint64(f.K) {
		// the items are listed
		if d == 0 {
			return 0, fmt.Errorf("node %d lists no items", i)
		}
		for k := 0; k < int(d); k++ {
			c := f.Child(i, k)
			if c >= f.NItems {
				return 0, fmt.Errorf("node %d lists %d, which is no item", i, c)
			}
			seen[c]++
		}
		return int(d), nil
	}
	n := 0
	for k := 0; k < 2; k++ {
		m, err := f.walk(f.Child(i, k), false, all, seen, used, depth+1)
		if err != nil {
			return 0, err
		}
		n += m
	}
	if !isRoot && uint64(n) != d {
		return 0, fmt.Errorf("node %d records %d descendants and has %d items below", i, d, n)
	}
	if n <= f.K && !(isRoot && f.NItems > uint64(f.K)) {
		return 0, fmt.Errorf("node %d is split though its %d items fit into one node (%d)", i, n, f.K)
	}
	return n, nil
}

// Canonical gives each tree as a string that does not depend on the numbering of nodes.
func (f *Forest) Canonical() []string {
	var r []string
	for _, t := range f.Roots {
		r = append(r, f.CanonicalTree(t))
	}
	return r
}

// CanonicalTree of one root.
func (f *Forest) CanonicalTree(root uint64) string {
	var sb strings.Builder
	var rec func(i uint64, isRoot bool)
	rec = func(i uint64, isRoot bool) {
		if i < f.NItems {
			fmt.Fprintf(&sb, "i%d ", i)
			return
		}
		d := f.Desc(i)
		if d <= uint64(f.K) || (isRoot && len(f.presentIDs()) == 1) {
			n := int(d)
			if isRoot && len(f.presentIDs()) == 1 {
				n = 1
			}
			var l []uint64
			for k := 0; k < n; k++ {
				l = append(l, f.Child(i, k))
			}
			sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
			fmt.Fprintf(&sb, "L%d%v ", d, l)
			return
		}
		fmt.Fprintf(&sb, "S%d(%x", d, f.node(i)[f.tailOff():])
		rec(f.Child(i, 0), false)
		rec(f.Child(i, 1), false)
		sb.WriteString(")")
	}
	rec(root, true)
	return sb.String()
}

func (f *Forest) tailOff() int {
	if f.Extra >= 0 {
		return f.Extra
	}
	return f.OffV
}

func (f *Forest) presentIDs() map[uint64]bool {
	if f.present == nil {
		f.present = map[uint64]bool{}
		for i := uint64(0); i < f.NItems; i++ {
			if f.Desc(i) != 0 {
				f.present[i] = true
			}
		}
	}
	return f.present
}

// Depth is the longest way from a root of tree t to an item, Splits the number of splits and
// Degenerate the number of splits with a zero normal.
func (f *Forest) Stats(root uint64) (depth, splits, degenerate int) {
	if len(f.presentIDs()) == 1 {
		return
	}
	var rec func(i uint64, d int)
	rec = func(i uint64, d int) {
		if d > depth {
			depth = d
		}
		if f.Kind(i) != Split {
			return
		}
		splits++
		zero := true
		for _, x := range f.Vec(i) {
			if x != 0 {
				zero = false
			}
		}
		if zero {
			degenerate++
		}
		rec(f.Child(i, 0), d+1)
		rec(f.Child(i, 1), d+1)
	}
	rec(root, 0)
	return
}
