package core

import (
	"math"
	"sort"
)

// BestFirst gives the items that a best-first search of the forest under a budget must and may
// inspect (they differ where rounding leaves the order open).
func (f *Forest) BestFirst(cf Config, q []float64, budget int) (must, may map[uint64]bool) {
	return classify(leaves(f, cf, q), budget)
}

// MayVisit is how many nodes such a search may look at: the leaves of the items it may inspect
// and the splits that may be more promising than the least promising of these.
func (f *Forest) MayVisit(cf Config, q []float64, budget int) (nodes int) {
	var his []float64
	ls := visit(f, cf, q, func(hi float64) { his = append(his, hi) })
	los := append([]leaf(nil), ls...)
	sort.Slice(los, func(a, b int) bool { return los[a].lo > los[b].lo })
	before := make([]int, len(ls)+1)
	for i := range los {
		before[i+1] = before[i] + los[i].count
	}
	worst := math.Inf(1)
	for _, l := range ls {
		k := sort.Search(len(los), func(j int) bool { return los[j].lo <= l.hi })
		if before[k] < budget {
			nodes++
			worst = math.Min(worst, l.lo)
		}
	}
	for _, hi := range his {
		if hi >= worst {
			nodes++
		}
	}
	return
}

// leaf of a tree with the interval its priority lies in.
type leaf struct {
	lo, hi float64
	count  int
	items  []uint64
}

// leaves of all trees; own margins are evaluated in float64.
func leaves(f *Forest, cf Config, q []float64) []leaf { return visit(f, cf, q, func(float64) {}) }

func visit(f *Forest, cf Config, q []float64, split func(hi float64)) []leaf {
	var r []leaf
	var rec func(i uint64, lo, hi float64)
	rec = func(i uint64, lo, hi float64) {
		switch f.Kind(i) {
		case Item:
			r = append(r, leaf{lo, hi, 1, []uint64{i}})
			return
		case Empty:
			return
		case List:
			l := leaf{lo: lo, hi: hi, count: int(f.Desc(i))}
			for k := 0; k < l.count; k++ {
				l.items = append(l.items, f.Child(i, k))
			}
			r = append(r, l)
			return
		}
		split(hi)
		m, tol := f.MarginOf(cf, i, q)
		rec(f.Child(i, 0), math.Min(lo, -m-tol), math.Min(hi, -m+tol))
		rec(f.Child(i, 1), math.Min(lo, m-tol), math.Min(hi, m+tol))
	}
	for _, root := range f.Roots {
		rec(root, math.Inf(1), math.Inf(1))
	}
	return r
}

// MarginOf is the margin of q at the split i, and what rounding can do to it.
func (f *Forest) MarginOf(cf Config, i uint64, q []float64) (m, tol float64) {
	m, abs := Dot(f.Vec(i), q)
	e := f.ExtraOf(i)
	m += e * e
	return m, float64(cf.Dim+4) * cf.U() * (abs + e*e) * 1.1
}

// classify gives the items that must and that may be found.
func classify(ls []leaf, budget int) (must, may map[uint64]bool) {
	must, may = map[uint64]bool{}, map[uint64]bool{}
	// entries that may come before leaf i: hi >= its lo; that must come before: lo > its hi
	his, los := append([]leaf(nil), ls...), append([]leaf(nil), ls...)
	sort.Slice(his, func(a, b int) bool { return his[a].hi > his[b].hi })
	sort.Slice(los, func(a, b int) bool { return los[a].lo > los[b].lo })
	hc, lc := make([]int, len(ls)+1), make([]int, len(ls)+1)
	for i := range ls {
		hc[i+1] = hc[i] + his[i].count
		lc[i+1] = lc[i] + los[i].count
	}
	for _, l := range ls {
		k := sort.Search(len(his), func(j int) bool { return his[j].hi < l.lo })
		if hc[k]-l.count < budget {
			for _, id := range l.items {
				must[id] = true
			}
		}
		k = sort.Search(len(los), func(j int) bool { return los[j].lo <= l.hi })
		if lc[k] < budget {
			for _, id := range l.items {
				may[id] = true
			}
		}
	}
	return
}
