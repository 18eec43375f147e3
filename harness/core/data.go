package core

import (
	"fmt"
	"math"
	"sort"

	"pgregory.net/rapid"
)

// Prng expands drawn seeds into large data sets (splitmix64).
type Prng struct{ s uint64 }

// NewPrng makes one.
func NewPrng(seed uint64) *Prng { return &Prng{seed} }

// U64 draws 64 bits.
func (p *Prng) U64() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn draws from 0..n-1.
func (p *Prng) Intn(n int) int { return int(p.U64() % uint64(n)) }

// F draws from [0, 1).
func (p *Prng) F() float64 { return float64(p.U64()>>11) / (1 << 53) }

// Norm draws a normal deviate.
func (p *Prng) Norm() float64 {
	for {
		u := p.F()
		if u > 0 {
			return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*p.F())
		}
	}
}

// Perm draws a permutation.
func (p *Prng) Perm(n int) []int {
	r := make([]int, n)
	for i := range r {
		j := p.Intn(i + 1)
		r[i] = r[j]
		r[j] = i
	}
	return r
}

// Data describes a set of items: plain data.
type Data struct {
	Kind string  `json:"kind"`
	Seed uint64  `json:"seed"`
	N    int     `json:"n"`
	IDs  string  `json:"ids"`
	Gap  int     `json:"gap,omitempty"`
	Amp  float64 `json:"amp,omitempty"`
	// Vecs, when given, are the vectors (small cases).
	Vecs [][]float64 `json:"vecs,omitempty"`
}

// ItemT is one item to add.
type ItemT struct {
	ID uint64
	V  []float64
}

// Kinds of item sets.
var Kinds = []string{
	"gauss", "grid", "onehot", "dup", "zero", "mixzero", "collinear", "cluster", "scale", "sparse",
	"positive", "tight", "plane", "fewdistinct", "opposite", "tiny", "wide", "vast",
}

// Vec draws a vector of the kind.
func (d Data) vec(p *Prng, c Config, i int, base [][]float64) []float64 {
	dim := c.Dim
	v := make([]float64, dim)
	gauss := func() {
		for z := range v {
			v[z] = p.Norm()
		}
	}
	switch d.Kind {
	case "grid":
		for z := range v {
			v[z] = float64(p.Intn(5) - 2)
		}
	case "onehot":
		v[p.Intn(dim)] = float64(1 + p.Intn(3))
	case "dup":
		copy(v, base[0])
	case "zero":
	case "mixzero":
		if p.Intn(3) > 0 {
			gauss()
		}
	case "collinear":
		s := float64(p.Intn(9)-4) / 2
		for z := range v {
			v[z] = base[0][z] * s
		}
	case "cluster":
		b := base[p.Intn(len(base))]
		for z := range v {
			v[z] = b[z] + 0.01*p.Norm()
		}
	case "scale":
		gauss()
		s := math.Pow(10, p.F()*6-3)
		for z := range v {
			v[z] *= s
		}
	case "wide":
		gauss()
		s := math.Pow(10, p.F()*28-14)
		for z := range v {
			v[z] *= s
		}
	case "vast":
		// as far as the squares of the norms reach
		e := 15.5
		if c.F64 {
			e = 145
		}
		gauss()
		s := math.Pow(10, (p.F()*2-1)*e)
		for z := range v {
			v[z] *= s
		}
	case "beyond":
		// finite, but the squares of some norms are not (their products with the other vectors are)
		gauss()
		e := -12 + 20*p.F()
		if p.Intn(5) == 0 {
			e = 19 + 7*p.F()
		}
		if c.F64 {
			e *= 8
		}
		for z, s := 0, math.Pow(10, e); z < dim; z++ {
			v[z] *= s
		}
	case "sparse":
		for k := 0; k < 2; k++ {
			v[p.Intn(dim)] = p.Norm()
		}
	case "positive":
		for z := range v {
			v[z] = math.Abs(p.Norm())
		}
	case "tight":
		for z := range v {
			v[z] = base[0][z] + 1e-3*p.Norm()
		}
	case "plane":
		gauss()
		v[dim-1] = 0
		if dim > 2 {
			v[0] = v[1]
		}
	case "fewdistinct":
		copy(v, base[p.Intn(min(3, len(base)))])
	case "opposite":
		s := float64(1 - 2*p.Intn(2))
		b := base[p.Intn(len(base))]
		for z := range v {
			v[z] = b[z] * s
		}
	case "tiny":
		gauss()
		for z := range v {
			v[z] *= 1e-3
		}
	default:
		gauss()
	}
	amp := d.Amp
	if amp == 0 {
		amp = 1
	}
	for z := range v {
		v[z] = c.Round(v[z] * amp)
	}
	return v
}

// Items expands the description.
func (d Data) Items(c Config) []ItemT {
	p := NewPrng(d.Seed)
	base := make([][]float64, 8)
	for i := range base {
		base[i] = make([]float64, c.Dim)
		for z := range base[i] {
			base[i][z] = p.Norm()
		}
	}
	n := d.N
	if d.Vecs != nil {
		n = len(d.Vecs)
	}
	ids := d.ids(n, p)
	items := make([]ItemT, n)
	for i := range items {
		items[i].ID = ids[i]
		if d.Vecs != nil {
			items[i].V = d.Vecs[i]
		} else {
			items[i].V = d.vec(p, c, i, base)
		}
	}
	return items
}

// MoreVecs gives k further vectors of the same kind.
func (d Data) MoreVecs(c Config, k int, salt uint64) [][]float64 {
	if d.Vecs != nil {
		d = Data{Kind: "grid", Seed: d.Seed}
	}
	d.N = k
	d.IDs = ""
	// the same base vectors, other draws
	p := NewPrng(d.Seed)
	base := make([][]float64, 8)
	for i := range base {
		base[i] = make([]float64, c.Dim)
		for z := range base[i] {
			base[i][z] = p.Norm()
		}
	}
	p = NewPrng(d.Seed ^ salt*0x9e3779b97f4a7c15 ^ 0xabcdef)
	r := make([][]float64, k)
	for i := range r {
		r[i] = d.vec(p, c, i, base)
	}
	return r
}

func (d Data) ids(n int, p *Prng) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = uint64(i)
	}
	switch d.IDs {
	case "reversed":
		for i := range r {
			r[i] = uint64(n - 1 - i)
		}
	case "shuffled":
		for i, j := range p.Perm(n) {
			r[i] = uint64(j)
		}
	case "gaps": // every id skipped now and then
		next := uint64(p.Intn(d.Gap + 1))
		for i := range r {
			r[i] = next
			next += uint64(1 + p.Intn(d.Gap+1))
		}
	case "gapshuffled":
		next := uint64(p.Intn(d.Gap + 1))
		for i := range r {
			r[i] = next
			next += uint64(1 + p.Intn(d.Gap+1))
		}
		for i, j := range p.Perm(n) {
			r[i], r[j] = r[j], r[i]
		}
	case "offset":
		for i := range r {
			r[i] = uint64(i + d.Gap)
		}
	case "far": // one item far away
		if n > 0 {
			r[p.Intn(n)] = uint64(n + 20*d.Gap)
		}
	}
	return r
}

// Model is the plain map of what was added.
type Model map[uint64][]float64

// ModelOf the items.
func ModelOf(items []ItemT) Model {
	m := Model{}
	for _, it := range items {
		m[it.ID] = it.V
	}
	return m
}

// IDs in ascending order.
func (m Model) IDs() []uint64 {
	r := make([]uint64, 0, len(m))
	for id := range m {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// ---------------------------------------------------------------------------- generators

// Opt bounds what DrawConfig and DrawData draw.
type Opt struct {
	Metrics  []string // default angular
	MaxDim   int      // default 300
	Builder  bool     // allow the builder
	Multi    bool     // allow the multi worker policy
	GCMem    bool
	Rnd      bool // any generator
	Sorter   bool
	Hint     bool
	Verbose  bool
	MinN     int
	MaxN     int // default 3000
	MaxCells int // bound of items x dimension, default 60000
	NoGaps   bool
	Kinds    []string
}

// DrawConfig draws an index description.
func DrawConfig(t *rapid.T, o Opt) Config {
	c := Config{
		F64: rapid.IntRange(0, 2).Draw(t, "f64") == 2,
		U64: rapid.IntRange(0, 2).Draw(t, "u64") == 2,
	}
	c.Metric = "angular"
	if len(o.Metrics) > 0 {
		c.Metric = rapid.SampledFrom(o.Metrics).Draw(t, "metric")
	}
	max := o.MaxDim
	if max == 0 {
		max = 300
	}
	c.Dim = DrawDim(t, max)
	if o.Builder && c.Metric == "angular" {
		c.Builder = rapid.Bool().Draw(t, "builder")
	}
	if o.Multi {
		c.Multi = rapid.IntRange(0, 2).Draw(t, "multi") == 2
	}
	if o.GCMem {
		c.GCMem = rapid.Bool().Draw(t, "gcmem")
	}
	c.Seed = DrawSeed(t, c)
	if o.Rnd {
		c.Rnd = rapid.SampledFrom([]string{"", "", "", "kiss", "go", "xorshift", "counter"}).Draw(t, "rnd")
	}
	if o.Sorter {
		c.Sorter = rapid.SampledFrom([]string{"", "", "", "lib2", "lib3", "std", "user"}).Draw(t, "sorter")
	}
	if o.Hint {
		c.Hint = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 17, 100, 5000}).Draw(t, "hint")
	}
	if o.Verbose {
		c.Verbose = rapid.IntRange(0, 15).Draw(t, "verbose") == 15
	}
	return c
}

// DrawSeed draws a seed of the generator of an index; 0 is the default.
func DrawSeed(t *rapid.T, c Config) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "seedkind") {
	case 0:
		return 0
	case 1:
		return uint64(rapid.IntRange(1, 100).Draw(t, "seed"))
	}
	if c.U64 {
		return rapid.Uint64().Draw(t, "seed")
	}
	return uint64(rapid.Uint32().Draw(t, "seed"))
}

// DrawDim draws a dimension.
func DrawDim(t *rapid.T, max int) int {
	var d int
	switch k := rapid.IntRange(0, 19).Draw(t, "dimkind"); {
	case k < 6:
		d = rapid.IntRange(1, 4).Draw(t, "dim")
	case k < 12:
		d = rapid.IntRange(5, 20).Draw(t, "dim")
	case k < 17:
		d = rapid.IntRange(21, 64).Draw(t, "dim")
	case k < 19:
		d = rapid.IntRange(65, 300).Draw(t, "dim")
	default:
		d = rapid.SampledFrom([]int{128, 256, 257, 512, 1536}).Draw(t, "dim")
		if max > 1536 && rapid.IntRange(0, 7).Draw(t, "huge") == 0 {
			d = rapid.SampledFrom([]int{1025, 2048, 4097, 8191, 16384, 32769, 65537, 70000}).Draw(t, "dim")
		}
	}
	if d > max {
		d = 1 + d%max
	}
	return d
}

// DrawData draws an item set for an index.
func DrawData(t *rapid.T, c Config, o Opt) Data {
	k := c.Layout().K
	maxN := o.MaxN
	if maxN == 0 {
		maxN = 3000
	}
	cells := o.MaxCells
	if cells == 0 {
		cells = 60000
	}
	if maxN*c.Dim > cells {
		maxN = cells / c.Dim
	}
	if maxN < 4 {
		maxN = 4
	}
	d := Data{Seed: rapid.Uint64().Draw(t, "dataseed"), IDs: "dense"}
	switch s := rapid.IntRange(0, 11).Draw(t, "sizekind"); {
	case s < 2:
		d.N = rapid.IntRange(1, 6).Draw(t, "n")
	case s < 4:
		d.N = k + rapid.IntRange(-2, 2).Draw(t, "nk")
	case s < 6:
		d.N = 2*k + rapid.IntRange(-2, 4).Draw(t, "nk")
	case s < 9:
		d.N = rapid.IntRange(1, 150).Draw(t, "n")
	case s < 11:
		d.N = rapid.IntRange(100, 600).Draw(t, "n")
	default:
		d.N = rapid.IntRange(300, 3000).Draw(t, "n")
	}
	if d.N > maxN {
		d.N = 1 + d.N%maxN
	}
	if d.N < o.MinN {
		d.N = o.MinN + (d.N & 7)
	}
	if d.N < 1 {
		d.N = 1
	}
	kinds := o.Kinds
	if kinds == nil {
		kinds = Kinds
	}
	if rapid.IntRange(0, 2).Draw(t, "plainkind") == 0 && o.Kinds == nil {
		d.Kind = "gauss"
	} else {
		d.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	}
	ids := []string{"dense", "dense", "reversed", "shuffled"}
	if !o.NoGaps {
		ids = append(ids, "gaps", "gapshuffled", "offset", "far")
	}
	d.IDs = rapid.SampledFrom(ids).Draw(t, "ids")
	switch d.IDs {
	case "gaps", "gapshuffled":
		d.Gap = rapid.IntRange(1, 5).Draw(t, "gap")
	case "offset", "far":
		d.Gap = rapid.IntRange(1, 60).Draw(t, "gap")
	}
	if rapid.IntRange(0, 3).Draw(t, "ampkind") == 0 {
		d.Amp = rapid.SampledFrom([]float64{0.001, 0.5, 3, 255, 1000}).Draw(t, "amp")
		if d.Kind == "scale" || d.Kind == "tiny" || d.Kind == "wide" || d.Kind == "vast" {
			d.Amp = 1
		}
	}
	// tiny sets of small numbers are drawn one by one, so that they shrink
	if d.N <= 12 && c.Dim <= 6 && rapid.Bool().Draw(t, "explicit") {
		d.Vecs = make([][]float64, d.N)
		for i := range d.Vecs {
			d.Vecs[i] = make([]float64, c.Dim)
			for z := range d.Vecs[i] {
				d.Vecs[i][z] = float64(rapid.IntRange(-3, 3).Draw(t, "x"))
			}
		}
		d.Kind = "explicit"
	}
	return d
}

// DrawTrees draws a number of trees, -1 (automatic) included.
func DrawTrees(t *rapid.T) int {
	return rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 5, 7, 10, -1}).Draw(t, "trees")
}

// DrawWorkers draws a number of workers for a config.
func DrawWorkers(t *rapid.T, c Config) int {
	if !c.Multi {
		return rapid.SampledFrom([]int{1, 1, 0, -1, 3}).Draw(t, "workers")
	}
	return rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 4, 7, 8, 13}).Draw(t, "workers")
}

// SizeClass names the size of an item set relative to the capacity of a node.
func SizeClass(n, k int) string {
	switch {
	case n == 1:
		return "n=1"
	case n <= k:
		return "1<n<=K"
	case n <= 4*k:
		return "K<n<=4K"
	default:
		return "n>4K"
	}
}

// ErrIf makes an error when the condition holds.
func ErrIf(b bool, format string, a ...any) error {
	if b {
		return fmt.Errorf(format, a...)
	}
	return nil
}
