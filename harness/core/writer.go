package core

import (
	"encoding/binary"
	"math"

	"pgregory.net/rapid"
)

// Foreign describes a forest that another program wrote: plain data. The trees know nothing of
// where the items lie; the file is well-formed all the same.
type Foreign struct {
	Seed    uint64 `json:"seed"`
	Shape   string `json:"shape"`   // balanced, random, chain, greedy
	Normals string `json:"normals"` // gauss, unit, zero, same, axis, big, mixed
	Order   string `json:"order"`   // of the nodes of the trees: post, pre, shuffled
	Copies  string `json:"copies"`  // order of the copies: same, reversed, shuffled
	NoNorms bool   `json:"nonorms"` // items carry no norm
	Junk    bool   `json:"junk"`    // bytes without meaning are not zero
	Ones    bool   `json:"ones"`    // some single items are in a list of their own
}

// DrawForeign draws one.
func DrawForeign(t *rapid.T) Foreign {
	return Foreign{
		Seed:    rapid.Uint64Max(1<<32).Draw(t, "treeseed"),
		Shape:   rapid.SampledFrom([]string{"balanced", "random", "random", "chain", "greedy"}).Draw(t, "shape"),
		Normals: rapid.SampledFrom([]string{"gauss", "gauss", "unit", "zero", "same", "axis", "big", "mixed"}).Draw(t, "normals"),
		Order:   rapid.SampledFrom([]string{"post", "pre", "shuffled"}).Draw(t, "order"),
		Copies:  rapid.SampledFrom([]string{"same", "reversed", "shuffled"}).Draw(t, "copies"),
		NoNorms: rapid.IntRange(0, 3).Draw(t, "nonorms") == 3,
		Junk:    rapid.Bool().Draw(t, "junk"),
		Ones:    rapid.Bool().Draw(t, "ones"),
	}
}

type foreignNode struct {
	desc uint64
	kids []int // an item, or -1-index of a node
	list bool
	vec  []float64
	ext  float64
}

// Write gives the bytes of the file.
func (w Foreign) Write(cf Config, items []ItemT, trees int) []byte {
	p := NewPrng(w.Seed)
	l := cf.Layout()
	nItems := uint64(MaxID(items))
	present := map[uint64]bool{}
	var ids []int
	for _, it := range items {
		ids = append(ids, int(it.ID))
		present[it.ID] = true
	}
	var nodes []foreignNode
	same := w.normal(cf, p, "gauss", items)
	splitNode := func() (n foreignNode) {
		kind := w.Normals
		if kind == "mixed" {
			kind = []string{"gauss", "unit", "zero", "same", "axis", "big"}[p.Intn(6)]
		}
		if kind == "same" {
			n.vec = same
		} else {
			n.vec = w.normal(cf, p, kind, items)
		}
		if l.Extra >= 0 && p.Intn(2) == 0 {
			n.ext = cf.Round(math.Abs(p.Norm()))
		}
		return
	}
	add := func(n foreignNode) int { nodes = append(nodes, n); return -len(nodes) }
	var sub func(s []int) int
	split := func(s []int) (n foreignNode) {
		n = splitNode()
		left := w.left(p, len(s), l.K)
		a, b := s[:left], s[left:]
		if p.Intn(2) == 0 {
			x := sub(a)
			n.kids = []int{x, sub(b)}
		} else {
			x := sub(b)
			n.kids = []int{sub(a), x}
		}
		return
	}
	sub = func(s []int) int {
		if len(s) == 1 && !(w.Ones && p.Intn(3) == 0) {
			return s[0]
		}
		if len(s) <= l.K {
			return add(foreignNode{desc: uint64(len(s)), kids: append([]int(nil), s...), list: true})
		}
		n := split(s)
		n.desc = uint64(len(s))
		return add(n)
	}
	var roots []int
	for t := 0; t < trees; t++ {
		s := make([]int, len(ids))
		for i, j := range p.Perm(len(ids)) {
			s[i] = ids[j]
		}
		var n foreignNode
		switch {
		case nItems <= uint64(l.K):
			n = foreignNode{kids: s, list: true}
			for uint64(len(n.kids)) < nItems { // fillers
				n.kids = append(n.kids, 0)
			}
		case len(s) == 1:
			n = foreignNode{kids: []int{s[0], 0}, vec: make([]float64, cf.Dim)}
		default:
			n = split(s)
		}
		n.desc = nItems
		roots = append(roots, add(n))
	}

	// where the nodes are
	at := make([]uint64, len(nodes))
	for i := range at {
		at[i] = uint64(i)
	}
	switch w.Order {
	case "pre":
		for i := range at {
			at[i] = uint64(len(at) - 1 - i)
		}
	case "shuffled":
		for i, j := range p.Perm(len(at)) {
			at[i] = uint64(j)
		}
	}
	all := int(nItems) + len(nodes) + trees
	b := make([]byte, all*l.NodeSize)
	node := func(i uint64) []byte { return b[int(i)*l.NodeSize:][:l.NodeSize] }
	junk := func(b []byte) {
		if w.Junk {
			for i := range b {
				b[i] = byte(p.U64())
			}
		}
	}
	for _, it := range items {
		n := node(it.ID)
		junk(n)
		l.putIdx(n[l.Head:], 1)
		if l.Extra < 0 {
			norm, _ := Dot(it.V, it.V)
			if w.NoNorms {
				norm = 0
			}
			l.putElem(n[l.Head+l.S:], cf.Round(norm))
		} else {
			l.putElem(n[l.Extra:], cf.Round(math.Abs(p.Norm())))
		}
		for z, x := range it.V {
			l.putElem(n[l.OffV+z*l.V:], x)
		}
	}
	for i, fn := range nodes {
		n := node(nItems + at[i])
		junk(n)
		l.putIdx(n[l.Head:], fn.desc)
		for k, c := range fn.kids {
			x := uint64(c)
			if c < 0 {
				x = nItems + at[-c-1]
			}
			l.putIdx(n[l.Head+l.S*(1+k):], x)
		}
		if !fn.list {
			if l.Extra >= 0 {
				l.putElem(n[l.Extra:], fn.ext)
			}
			for z, x := range fn.vec {
				l.putElem(n[l.OffV+z*l.V:], x)
			}
		}
	}
	order := p.Perm(trees)
	for i := 0; i < trees; i++ {
		r := i
		switch w.Copies {
		case "reversed":
			r = trees - 1 - i
		case "shuffled":
			r = order[i]
		}
		copy(node(uint64(all-trees+i)), node(nItems+at[-roots[r]-1]))
	}
	return b
}

// left is how many of n items go to the left.
func (w Foreign) left(p *Prng, n, k int) int {
	x := n / 2
	switch w.Shape {
	case "random":
		x = 1 + p.Intn(n-1)
	case "chain": // a few on one side
		x = 1 + p.Intn(3)
		if p.Intn(2) == 0 {
			x = n - x
		}
	case "greedy": // full lists
		x = k
	}
	return max(1, min(n-1, x))
}

func (w Foreign) normal(cf Config, p *Prng, kind string, items []ItemT) []float64 {
	v := make([]float64, cf.Dim)
	switch kind {
	case "zero":
		return v
	case "axis":
		v[p.Intn(len(v))] = float64(1 - 2*p.Intn(2))
		return v
	}
	var s float64
	for z := range v {
		v[z] = p.Norm()
		s += v[z] * v[z]
	}
	f := 1.0
	switch kind {
	case "unit":
		f = 1 / math.Sqrt(s)
	case "big":
		f = 1000
	}
	for z := range v {
		v[z] = cf.Round(v[z] * f)
	}
	return v
}

func (l Layout) putIdx(b []byte, x uint64) {
	if l.S == 8 {
		binary.LittleEndian.PutUint64(b, x)
	} else {
		binary.LittleEndian.PutUint32(b, uint32(x))
	}
}

func (l Layout) putElem(b []byte, x float64) {
	if l.V == 8 {
		binary.LittleEndian.PutUint64(b, math.Float64bits(x))
	} else {
		binary.LittleEndian.PutUint32(b, math.Float32bits(float32(x)))
	}
}
