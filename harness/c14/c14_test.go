// Package c14 decides: sorting primitives sort, keep every element and stay in range.
package c14

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"strconv"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	gsort "github.com/mariotoffia/goannoy/sort"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C14") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// List describes the elements to sort.
type List struct {
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Dups int    `json:"dups"` // number of distinct values, 0: as many as there are
	Seed uint64 `json:"seed"`
}

var kinds = []string{"random", "random", "random", "sorted", "reversed", "almost", "organ", "saw", "constant", "extreme", "secondonly"}

func drawList(t *rapid.T, max int) List {
	var n int
	switch rapid.IntRange(0, 9).Draw(t, "size") {
	case 0, 1, 2:
		n = rapid.IntRange(0, 12).Draw(t, "n")
	case 3, 4, 5:
		n = rapid.IntRange(13, 60).Draw(t, "n")
	case 6:
		n = rapid.SampledFrom([]int{14, 15, 16, 17, 19, 20, 21, 22, 63, 64, 65, 127, 128, 129, 255, 256, 499, 500, 501, 502}).Draw(t, "n")
	case 7:
		n = rapid.IntRange(61, 600).Draw(t, "n")
	default:
		n = rapid.IntRange(0, max).Draw(t, "n")
	}
	return List{
		N: n, Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
		Dups: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 10, 100}).Draw(t, "dups"),
		Seed: rapid.Uint64Max(1<<32).Draw(t, "seed"),
	}
}

// ranks gives numbers whose order is the one described.
func (l List) ranks() []int {
	p := core.NewPrng(l.Seed)
	r := make([]int, l.N)
	for i := range r {
		switch l.Kind {
		case "sorted":
			r[i] = i
		case "reversed":
			r[i] = l.N - i
		case "almost":
			r[i] = i
			if p.Intn(20) == 0 {
				r[i] = p.Intn(l.N)
			}
		case "organ":
			r[i] = min(i, l.N-i)
		case "saw":
			r[i] = i % 7
		case "constant", "secondonly":
			r[i] = 3
		default:
			r[i] = p.Intn(1 << 30)
		}
		if l.Dups > 0 {
			r[i] %= l.Dups
		}
	}
	return r
}

func less[T, S cmp.Ordered](a, b *interfaces.Pair[T, S]) bool {
	return a.First < b.First || a.First == b.First && a.Second < b.Second
}

func pairs[TV interfaces.VectorType, TIX interfaces.IndexTypes](l List) []*interfaces.Pair[TV, TIX] {
	p := core.NewPrng(l.Seed ^ 0x55)
	r := make([]*interfaces.Pair[TV, TIX], l.N)
	for i, k := range l.ranks() {
		f := TV(k)/7 - 3
		if l.Kind == "extreme" {
			f = []TV{TV(math.Inf(1)), TV(math.Inf(-1)), 0, TV(math.Copysign(0, -1)), 1e-38, -1e-38, 3e38, -3e38, 1}[k%9]
		}
		s := TIX(i)
		switch p.Intn(4) {
		case 0:
			s = TIX(p.Intn(3))
		case 1:
			s = TIX(p.U64())
		}
		if l.Kind == "secondonly" {
			s = TIX(p.Intn(l.N))
		}
		r[i] = &interfaces.Pair[TV, TIX]{First: f, Second: s}
	}
	return r
}

func show[TV interfaces.VectorType, TIX interfaces.IndexTypes](s []*interfaces.Pair[TV, TIX]) string {
	r := ""
	for i, p := range s {
		if i == 40 {
			return r + " ..."
		}
		r += fmt.Sprintf(" (%v,%d)", p.First, p.Second)
	}
	return r
}

// SortCase sorts a whole slice.
type SortCase struct {
	List List   `json:"list"`
	Fn   string `json:"fn"`
	F64  bool   `json:"f64"`
	U64  bool   `json:"u64"`
}

var _ = core.Sub("sort", core.Spec[SortCase]{
	Quick: 40000, Thorough: 1200000,
	Rule: "every sort of the package (three for indices, two for pairs) on lists of 0 to 6000 elements: random, sorted, reversed, few values, extreme " +
		"values; result ascending and a permutation; non-trivial: at least two elements out of order",
	Gen: func(t *rapid.T) SortCase {
		return SortCase{
			List: drawList(t, 6000), Fn: rapid.SampledFrom([]string{"SortSlice", "SortSlice2", "SortSlice3", "SortPairs", "SortPairs2"}).Draw(t, "fn"),
			F64: rapid.Bool().Draw(t, "f64"), U64: rapid.Bool().Draw(t, "u64"),
		}
	},
	Run: runSort,
})

func runSort(c *core.Ctx, cs SortCase) error {
	c.Class("%s", cs.Fn)
	c.Class("%s, %s", cs.List.Kind, size(cs.List.N))
	switch {
	case cs.F64 && cs.U64:
		return sortAll[float64, uint64](c, cs)
	case cs.F64:
		return sortAll[float64, uint32](c, cs)
	case cs.U64:
		return sortAll[float32, uint64](c, cs)
	}
	return sortAll[float32, uint32](c, cs)
}

func size(n int) string {
	for _, x := range []int{1, 15, 20, 60, 500, 6000} {
		if n <= x {
			return fmt.Sprintf("up to %d", x)
		}
	}
	return "more"
}

func sortAll[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs SortCase) error {
	if cs.Fn == "SortPairs" || cs.Fn == "SortPairs2" {
		back, s := window(pairs[TV, TIX](cs.List))
		before := slices.Clone(back)
		vals := values(back)
		if !slices.IsSortedFunc(s, compare[TV, TIX]) {
			c.NonTrivial()
		}
		if cs.Fn == "SortPairs" {
			if cs.List.Seed%2 == 0 {
				gsort.SortPairs(s)
			} else {
				(&interfaces.SorterFunctions[TV, TIX]{SortPairsFunc: gsort.SortPairs[TV, TIX]}).SortPairs(s)
			}
		} else {
			gsort.SortPairs2(s)
		}
		return verify(before, vals, back, len(s), 0, len(s), len(s))
	}
	ranks := cs.List.ranks()
	back := make([]TIX, len(ranks)+4)
	for i := range back {
		back[i] = TIX(1000 + i)
	}
	s := back[2 : 2+len(ranks)]
	for i, k := range ranks {
		s[i] = TIX(k)
		if cs.List.Kind == "extreme" {
			s[i] = []TIX{0, 1, ^TIX(0), ^TIX(0) - 1, ^TIX(0) >> 1, ^TIX(0)>>1 + 1, TIX(k)}[k%7]
		}
	}
	want := slices.Clone(s)
	if !slices.IsSorted(want) {
		c.NonTrivial()
	}
	slices.Sort(want)
	switch cs.Fn {
	case "SortSlice":
		gsort.SortSlice(s)
	case "SortSlice2":
		gsort.SortSlice2(s)
	default:
		gsort.SortSlice3(s)
	}
	for i := range s {
		if s[i] != want[i] {
			return fmt.Errorf("%s of %d elements: element %d is %d, expected %d", cs.Fn, len(s), i, s[i], want[i])
		}
	}
	for i, x := range back {
		if (i < 2 || i >= 2+len(s)) && x != TIX(1000+i) {
			return fmt.Errorf("%s changed an element outside the slice", cs.Fn)
		}
	}
	return nil
}

func compare[TV interfaces.VectorType, TIX interfaces.IndexTypes](a, b *interfaces.Pair[TV, TIX]) int {
	switch {
	case less(a, b):
		return -1
	case less(b, a):
		return 1
	}
	return 0
}

// window puts the elements into the middle of a larger array.
func window[TV interfaces.VectorType, TIX interfaces.IndexTypes](s []*interfaces.Pair[TV, TIX]) (back, in []*interfaces.Pair[TV, TIX]) {
	back = append(back, &interfaces.Pair[TV, TIX]{First: -9e9, Second: 1}, &interfaces.Pair[TV, TIX]{First: 9e9, Second: 2})
	back = append(back, s...)
	back = append(back, &interfaces.Pair[TV, TIX]{First: -9e9, Second: 3}, &interfaces.Pair[TV, TIX]{First: 9e9, Second: 4})
	return back, back[2 : 2+len(s)]
}

func values[TV interfaces.VectorType, TIX interfaces.IndexTypes](s []*interfaces.Pair[TV, TIX]) []interfaces.Pair[TV, TIX] {
	r := make([]interfaces.Pair[TV, TIX], len(s))
	for i, p := range s {
		r[i] = *p
	}
	return r
}

// verify: [begin, middle) of the window holds the smallest of [begin, end) in order, the rest of
// [begin, end) the others, everything else is as before.
func verify[TV interfaces.VectorType, TIX interfaces.IndexTypes](
	before []*interfaces.Pair[TV, TIX], vals []interfaces.Pair[TV, TIX], after []*interfaces.Pair[TV, TIX], n, begin, middle, end int,
) error {
	for i := range after {
		if (i < 2+begin || i >= 2+end) && after[i] != before[i] {
			return fmt.Errorf("element %d lies outside the range [%d, %d) and was replaced", i-2, begin, end)
		}
		if *before[i] != vals[i] {
			return fmt.Errorf("the sort changed the element (%v, %d) to (%v, %d)", vals[i].First, vals[i].Second, before[i].First, before[i].Second)
		}
	}
	count := map[*interfaces.Pair[TV, TIX]]int{}
	for _, p := range before[2+begin : 2+end] {
		count[p]++
	}
	for _, p := range after[2+begin : 2+end] {
		count[p]--
	}
	for p, k := range count {
		if k != 0 {
			return fmt.Errorf("element (%v, %d) occurs %d times too few after sorting", p.First, p.Second, k)
		}
	}
	want := slices.Clone(before[2+begin : 2+end])
	slices.SortFunc(want, compare[TV, TIX])
	got := after[2+begin : 2+end]
	for i := 0; i < middle-begin; i++ {
		if compare(got[i], want[i]) != 0 {
			return fmt.Errorf("element %d of the sorted part is (%v, %d), expected (%v, %d); got %s", i, got[i].First, got[i].Second,
				want[i].First, want[i].Second, show(got))
		}
	}
	return nil
}

// PartialCase is a partial sort.
type PartialCase struct {
	List   List `json:"list"`
	Second bool `json:"second"`
	F64    bool `json:"f64"`
	U64    bool `json:"u64"`
	Begin  int  `json:"begin"`
	Middle int  `json:"middle"`
	End    int  `json:"end"`
}

var _ = core.Sub("partial", core.Spec[PartialCase]{
	Quick: 40000, Thorough: 1200000,
	Rule: "both partial sorts on all ranges 0 <= begin <= middle <= end <= length and on invalid ones (empty, middle outside [begin, end], reversed); " +
		"non-trivial: a valid range whose smallest elements are not already in place",
	Gen: func(t *rapid.T) PartialCase {
		c := PartialCase{List: drawList(t, 3000), Second: rapid.Bool().Draw(t, "second"), F64: rapid.Bool().Draw(t, "f64"), U64: rapid.Bool().Draw(t, "u64")}
		n := c.List.N
		switch rapid.IntRange(0, 5).Draw(t, "range") {
		case 0:
			c.Begin, c.Middle, c.End = 0, rapid.IntRange(0, n).Draw(t, "middle"), n
		case 1, 2, 3:
			c.Begin = rapid.IntRange(0, n).Draw(t, "begin")
			c.End = rapid.IntRange(c.Begin, n).Draw(t, "end")
			c.Middle = rapid.IntRange(c.Begin, c.End).Draw(t, "middle")
		default:
			// any three places
			c.Begin = rapid.IntRange(0, n).Draw(t, "begin")
			c.End = rapid.IntRange(0, n).Draw(t, "end")
			c.Middle = rapid.IntRange(0, n).Draw(t, "middle")
		}
		return c
	},
	Run: runPartial,
})

func runPartial(c *core.Ctx, cs PartialCase) error {
	switch {
	case cs.F64 && cs.U64:
		return partial[float64, uint64](c, cs)
	case cs.F64:
		return partial[float64, uint32](c, cs)
	case cs.U64:
		return partial[float32, uint64](c, cs)
	}
	return partial[float32, uint32](c, cs)
}

func partial[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs PartialCase) error {
	back, s := window(pairs[TV, TIX](cs.List))
	before, vals := slices.Clone(back), values(back)
	b, m, e := cs.Begin, cs.Middle, cs.End
	fn := gsort.PartialSortSlice[TV, TIX]
	if cs.Second {
		fn = gsort.PartialSortSlice2[TV, TIX]
	}
	if cs.List.Seed%3 == 0 {
		fn = (&interfaces.SorterFunctions[TV, TIX]{PartialSortSliceFunc: fn}).PartialSortSlice
	}
	fn(s, b, m, e)
	c.Class("second %v, %s", cs.Second, size(e-b))
	if b > m || m > e || b >= e {
		c.Class("invalid range")
		for i := range back {
			if back[i] != before[i] || *back[i] != vals[i] {
				return fmt.Errorf("the range [%d, %d, %d) is not valid, element %d of %d was replaced", b, m, e, i-2, len(s))
			}
		}
		return nil
	}
	c.ClassIf(m == b, "nothing to sort")
	c.ClassIf(m == e, "everything to sort")
	c.ClassIf(b > 0, "begins inside")
	c.ClassIf(e < len(s), "ends inside")
	for i := b; i < m; i++ {
		if back[2+i] != before[2+i] {
			c.NonTrivial()
			break
		}
	}
	if err := verify(before, vals, back, len(s), b, m, e); err != nil {
		return fmt.Errorf("partial sort of [%d, %d, %d) of %d: %w", b, m, e, len(s), err)
	}
	return nil
}

// HugeCase crosses the switch at five million elements.
type HugeCase struct {
	N      int    `json:"n"`
	K      int    `json:"k"`
	Begin  int    `json:"begin"`
	Second bool   `json:"second"`
	Seed   uint64 `json:"seed"`
}

var _ = core.Sub("huge", core.Spec[HugeCase]{
	Quick: 3, Thorough: 40, OneShard: true,
	Rule: "partial sorts of about five million elements, where the algorithm switches; every case is non-trivial",
	Gen: func(t *rapid.T) HugeCase {
		return HugeCase{
			N: 5000000 + rapid.IntRange(-1, 3).Draw(t, "n"), K: rapid.IntRange(1, 25).Draw(t, "k"), Begin: rapid.IntRange(0, 2).Draw(t, "begin"),
			Second: rapid.Bool().Draw(t, "second"), Seed: rapid.Uint64().Draw(t, "seed"),
		}
	},
	Run: func(c *core.Ctx, cs HugeCase) error {
		p := core.NewPrng(cs.Seed)
		all := make([]interfaces.Pair[float32, uint32], cs.N)
		s := make(interfaces.Pairs[float32, uint32], cs.N)
		for i := range all {
			all[i] = interfaces.Pair[float32, uint32]{First: float32(p.U64() >> 44), Second: uint32(i)}
			s[i] = &all[i]
		}
		end := cs.N - int(cs.Seed%2)
		// the smallest, by selection
		var want []*interfaces.Pair[float32, uint32]
		for i := cs.Begin; i < end; i++ {
			if len(want) == cs.K && !less(s[i], want[cs.K-1]) {
				continue
			}
			at, _ := slices.BinarySearchFunc(want, s[i], compare[float32, uint32])
			want = slices.Insert(want, at, s[i])
			if len(want) > cs.K {
				want = want[:cs.K]
			}
		}
		want = slices.Clone(want)
		head, last := slices.Clone(s[:cs.Begin]), s[cs.N-1]
		if cs.Second {
			gsort.PartialSortSlice2(s, cs.Begin, cs.Begin+cs.K, end)
		} else {
			gsort.PartialSortSlice(s, cs.Begin, cs.Begin+cs.K, end)
		}
		for i := range want {
			if s[cs.Begin+i] != want[i] {
				return fmt.Errorf("element %d is (%v, %d), expected (%v, %d)", i, s[cs.Begin+i].First, s[cs.Begin+i].Second, want[i].First, want[i].Second)
			}
		}
		seen := make([]bool, cs.N)
		for _, x := range s {
			if seen[x.Second] {
				return fmt.Errorf("element %d occurs twice", x.Second)
			}
			seen[x.Second] = true
		}
		if !slices.Equal(head, s[:cs.Begin]) || end < cs.N && s[cs.N-1] != last {
			return fmt.Errorf("an element outside the range was replaced")
		}
		c.Class("second %v", cs.Second)
		c.NonTrivial()
		return nil
	},
})

// QueueCase is a history of a priority queue.
type QueueCase struct {
	Type string `json:"type"`
	Kind string `json:"kind"`
	Ops  string `json:"ops"` // p: push, o: pop, t: top
	Seed uint64 `json:"seed"`
	Vals int    `json:"vals"`
}

var _ = core.Sub("queue", core.Spec[QueueCase]{
	Quick: 40000, Thorough: 1200000,
	Rule: "histories of up to 400 pushes, pops and looks at a priority queue, with few or many distinct values, against a sorted list; non-trivial: a " +
		"push follows a pop and at least three elements are in the queue at once",
	Gen: func(t *rapid.T) QueueCase {
		c := QueueCase{
			Type: rapid.SampledFrom([]string{"f32u32", "f64u64", "f32int", "intstring"}).Draw(t, "type"),
			Kind: rapid.SampledFrom([]string{"random", "random", "ascending", "descending", "frontier"}).Draw(t, "values"),
			Seed: rapid.Uint64Max(1<<32).Draw(t, "seed"), Vals: rapid.SampledFrom([]int{1, 2, 5, 50, 1 << 20}).Draw(t, "distinct"),
		}
		bias := rapid.IntRange(1, 4).Draw(t, "bias")
		ops := rapid.SliceOfN(rapid.IntRange(0, 6), 1, 400).Draw(t, "ops")
		b := make([]byte, len(ops))
		for i, o := range ops {
			switch {
			case o <= bias:
				b[i] = 'p'
			case o == 6:
				b[i] = 't'
			default:
				b[i] = 'o'
			}
		}
		c.Ops = string(b)
		return c
	},
	Run: func(c *core.Ctx, cs QueueCase) error {
		c.Class("%s", cs.Type)
		switch cs.Type {
		case "f32u32":
			return queue(c, cs, func(k int) float32 { return float32(k)/3 - 1 }, func(k int) uint32 { return uint32(k) })
		case "f64u64":
			return queue(c, cs, func(k int) float64 {
				if k == 0 {
					return math.Inf(1)
				}
				return float64(-k)
			}, func(k int) uint64 { return uint64(k) << 30 })
		case "f32int":
			return queue(c, cs, func(k int) float32 { return -float32(k) }, func(k int) int { return -k })
		}
		return queue(c, cs, func(k int) int { return k - 2 }, func(k int) string { return strconv.Itoa(k) })
	},
})

func queue[T, S constraints.Ordered](c *core.Ctx, cs QueueCase, first func(int) T, second func(int) S) error {
	p := core.NewPrng(cs.Seed)
	q := gsort.NewPriorityQueue[T, S]()
	type pair = interfaces.Pair[T, S]
	var model []pair // ascending
	cmpp := func(a, b pair) int {
		if less(&a, &b) {
			return -1
		}
		if less(&b, &a) {
			return 1
		}
		return 0
	}
	var given []*pair
	var gave []pair
	popped, most := false, 0
	step := func(i int, op byte) error {
		switch op {
		case 'p':
			k := p.Intn(cs.Vals)
			switch cs.Kind {
			case "ascending":
				k = i % cs.Vals
			case "descending":
				k = (1<<20 - i) % cs.Vals
			case "frontier":
				k = min(k, p.Intn(cs.Vals))
			}
			x := pair{First: first(k), Second: second(p.Intn(cs.Vals))}
			q.Push(x.First, x.Second)
			at, _ := slices.BinarySearchFunc(model, x, cmpp)
			model = slices.Insert(model, at, x)
			if popped && most > 2 {
				c.NonTrivial()
			}
		case 'o':
			if len(model) == 0 {
				return nil
			}
			x := q.Pop()
			if x == nil || *x != model[0] {
				return fmt.Errorf("popped %v, the smallest of %d is %v", x, len(model), model[0])
			}
			given, gave = append(given, x), append(gave, *x)
			model = model[1:]
			popped = true
		}
		most = max(most, len(model))
		if q.Len() != len(model) || q.Empty() != (len(model) == 0) {
			return fmt.Errorf("length %d, empty %v, there are %d elements", q.Len(), q.Empty(), len(model))
		}
		top := q.Top()
		if (top == nil) != (len(model) == 0) || top != nil && *top != model[0] {
			return fmt.Errorf("top is %v of %d elements", top, len(model))
		}
		return nil
	}
	for i := range cs.Ops {
		if err := step(i, cs.Ops[i]); err != nil {
			return fmt.Errorf("step %d (%s): %w", i, cs.Ops[:i+1], err)
		}
	}
	for len(model) > 0 {
		if err := step(0, 'o'); err != nil {
			return fmt.Errorf("emptying: %w", err)
		}
	}
	for i := range given {
		if *given[i] != gave[i] {
			return fmt.Errorf("an element changed after it was popped")
		}
	}
	return nil
}

// LargeCase sorts, partially sorts or queues a large list.
type LargeCase struct {
	List List   `json:"list"`
	Fn   string `json:"fn"`
	F64  bool   `json:"f64"`
	U64  bool   `json:"u64"`
	Part []int  `json:"part"` // begin, middle, end in percent
}

var _ = core.Sub("large", core.Spec[LargeCase]{
	Quick: 96, Thorough: 3000,
	Rule: "all of the above on lists of 5 000 to 200 000 elements, many around powers of two; non-trivial: as above, queues always",
	Gen: func(t *rapid.T) LargeCase {
		c := LargeCase{
			List: drawList(t, 6000), F64: rapid.Bool().Draw(t, "f64"), U64: rapid.Bool().Draw(t, "u64"),
			Fn: rapid.SampledFrom([]string{"SortSlice", "SortSlice2", "SortSlice3", "SortPairs", "SortPairs2", "partial", "partial", "partial2", "queue"}).Draw(t, "fn"),
		}
		c.List.N = rapid.IntRange(5000, 200000).Draw(t, "n")
		if rapid.Bool().Draw(t, "pow") {
			c.List.N = 1<<rapid.IntRange(12, 17).Draw(t, "exp") + rapid.IntRange(-2, 2).Draw(t, "off")
		}
		c.Part = rapid.SliceOfN(rapid.IntRange(0, 100), 3, 3).Draw(t, "part")
		slices.Sort(c.Part)
		return c
	},
	Run: func(c *core.Ctx, cs LargeCase) error {
		n := cs.List.N
		switch cs.Fn {
		case "queue":
			return bulk(c, cs)
		case "partial", "partial2":
			p := PartialCase{List: cs.List, Second: cs.Fn == "partial2", F64: cs.F64, U64: cs.U64}
			p.Begin, p.Middle, p.End = n*cs.Part[0]/100, n*cs.Part[1]/100, n*cs.Part[2]/100
			return runPartial(c, p)
		}
		return runSort(c, SortCase{List: cs.List, Fn: cs.Fn, F64: cs.F64, U64: cs.U64})
	},
})

func bulk(c *core.Ctx, cs LargeCase) error {
	q := gsort.NewPriorityQueue[int, int]()
	var want []interfaces.Pair[int, int]
	for i, k := range cs.List.ranks() {
		q.Push(k, i*7919%cs.List.N)
		want = append(want, interfaces.Pair[int, int]{First: k, Second: i * 7919 % cs.List.N})
	}
	slices.SortFunc(want, func(a, b interfaces.Pair[int, int]) int {
		if a.First != b.First {
			return cmp.Compare(a.First, b.First)
		}
		return cmp.Compare(a.Second, b.Second)
	})
	c.NonTrivial()
	c.Class("queue")
	for i, w := range want {
		if q.Len() != len(want)-i {
			return fmt.Errorf("length %d after %d of %d were popped", q.Len(), i, len(want))
		}
		if x := q.Top(); x == nil || *x != w {
			return fmt.Errorf("top %d of %d is %v, expected %v", i, len(want), x, w)
		}
		if x := q.Pop(); x == nil || *x != w {
			return fmt.Errorf("pop %d of %d is %v, expected %v", i, len(want), x, w)
		}
	}
	if !q.Empty() {
		return fmt.Errorf("not empty after %d pops", len(want))
	}
	return nil
}

// SetCase looks at a list of pairs.
type SetCase struct {
	List List   `json:"list"`
	Seed uint64 `json:"seed"`
}

var _ = core.Sub("pairs", core.Spec[SetCase]{
	Quick: 8000, Thorough: 200000,
	Rule: "the list of pairs as the queue uses it: length, order, swap, push, pop, top and the two membership tests; non-trivial: at least two elements",
	Gen: func(t *rapid.T) SetCase {
		return SetCase{List: drawList(t, 100), Seed: rapid.Uint64Max(1<<32).Draw(t, "probe")}
	},
	Run: func(c *core.Ctx, cs SetCase) error {
		p := core.NewPrng(cs.Seed)
		s := interfaces.Pairs[float32, uint32](pairs[float32, uint32](cs.List))
		n := len(s)
		if s.Len() != n {
			return fmt.Errorf("length %d of %d", s.Len(), n)
		}
		if n == 0 {
			if s.Top() != nil {
				return fmt.Errorf("an empty list has the top %v", s.Top())
			}
		} else if s.Top() != s[0] {
			return fmt.Errorf("top is not the first element")
		}
		for k := 0; k < 20 && n > 0; k++ {
			i, j := p.Intn(n), p.Intn(n)
			if s.Less(i, j) != less(s[i], s[j]) || s[i].Less(s[j]) != less(s[i], s[j]) {
				return fmt.Errorf("order of (%v, %d) and (%v, %d)", s[i].First, s[i].Second, s[j].First, s[j].Second)
			}
			a, b := s[i], s[j]
			s.Swap(i, j)
			if s[i] != b || s[j] != a {
				return fmt.Errorf("swap of %d and %d", i, j)
			}
			v, w := s[i].First+float32(p.Intn(2)), s[j].Second+uint32(p.Intn(2))
			hasV, hasW := false, false
			for _, x := range s {
				hasV = hasV || x.First == v
				hasW = hasW || x.Second == w
			}
			if s.ContainsFirst(v) != hasV || s.ContainsSecond(w) != hasW {
				return fmt.Errorf("membership of %v: %v, of %d: %v", v, s.ContainsFirst(v), w, s.ContainsSecond(w))
			}
			c.NonTrivial()
		}
		before := slices.Clone(s)
		x := &interfaces.Pair[float32, uint32]{First: 1, Second: 2}
		s.Push(x)
		if s.Len() != n+1 || s[n] != x {
			return fmt.Errorf("push does not append")
		}
		if y := s.Pop(); y != x || s.Len() != n || !slices.Equal(s, before) {
			return fmt.Errorf("pop does not take the last")
		}
		return nil
	},
})
