// Package c15 decides: random generators are faithful, reproducible and in range.
package c15

import (
	"fmt"
	"math"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/random"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C15") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// The published generators (G. Marsaglia; D. Jones, Good Practice in (Pseudo) Random Number
// Generation), written down independently of the library.
type kiss32 struct{ x, y, z, c uint32 }

func newKiss32(seed uint32) *kiss32 {
	if seed == 0 {
		seed = 123456789
	}
	return &kiss32{seed, 362436000, 521288629, 7654321}
}

func (k *kiss32) next() uint32 {
	k.x = k.x*69069 + 12345
	y := k.y
	y = y ^ y<<13
	y = y ^ y>>17
	y = y ^ y<<5
	k.y = y
	t := uint64(k.z)*698769069 + uint64(k.c)
	k.z, k.c = uint32(t&0xffffffff), uint32(t/(1<<32))
	return k.x + k.y + k.z
}

type kiss64 struct{ x, y, z, c uint64 }

func newKiss64(seed uint64) *kiss64 {
	if seed == 0 {
		seed = 1234567890987654321
	}
	return &kiss64{x: seed, y: 362436362436362436, z: 1066149217761810, c: 123456123456123456}
}

func (k *kiss64) next() uint64 {
	// congruential
	k.z = k.z*6906969069 + 1234567
	// xorshift
	k.y = k.y ^ k.y<<13
	k.y = k.y ^ k.y>>17
	k.y = k.y ^ k.y<<43
	// multiply with carry
	t := k.x<<58 + k.c
	c := k.x >> 6
	x := k.x + t
	if x < t {
		c++
	}
	k.x, k.c = x, c
	return k.x + k.y + k.z
}

// gen is a generator of any type.
type gen interface {
	next() uint64
	side() interfaces.Side
	index(n uint64) uint64
	setSeed(s uint64)
	seed() uint64
	clone() gen
	flip() (bool, bool)
}

type wrap[TIX interfaces.IndexTypes] struct{ r interfaces.Random[TIX] }

func (w wrap[TIX]) next() uint64          { return uint64(w.r.Next()) }
func (w wrap[TIX]) side() interfaces.Side { return w.r.NextSide() }
func (w wrap[TIX]) index(n uint64) uint64 { return uint64(w.r.NextIndex(TIX(n))) }
func (w wrap[TIX]) setSeed(s uint64)      { w.r.SetSeed(TIX(s)) }
func (w wrap[TIX]) seed() uint64          { return uint64(w.r.GetSeed()) }
func (w wrap[TIX]) clone() gen            { return wrap[TIX]{w.r.CloneAndReset()} }
func (w wrap[TIX]) flip() (bool, bool) {
	if b, ok := w.r.(interface{ NextBool() bool }); ok {
		return b.NextBool(), true
	}
	return false, false
}

var kinds = []string{"kiss32", "kiss32", "kiss32/64", "kiss64", "kiss64", "go", "go"}

func create(kind string, seed uint64) gen {
	switch kind {
	case "kiss32":
		return wrap[uint32]{random.NewKiss32Random(uint32(seed))}
	case "kiss32/64":
		return wrap[uint64]{random.NewKiss32Random(seed)}
	case "kiss64":
		return wrap[uint64]{random.NewKiss64Random(seed)}
	}
	return wrap[uint32]{random.NewGoRandomWithSeed(uint32(seed))}
}

func width(kind string) uint64 {
	if kind == "kiss32" || kind == "go" {
		return math.MaxUint32
	}
	return math.MaxUint64
}

// zeroState is the seed that brings the multiply-with-carry part of kiss64 to 0: x + x<<58 + c = 0.
var zeroState = func() uint64 {
	m := uint64(1)<<58 + 1 // times its inverse is 1
	inv := uint64(1)
	for i := 0; i < 7; i++ {
		inv *= 2 - m*inv
	}
	return -(inv * 123456123456123456)
}()

func drawSeed(t *rapid.T, kind string) uint64 {
	m := width(kind)
	if kind == "kiss64" && rapid.IntRange(0, 11).Draw(t, "zero") == 0 {
		return zeroState
	}
	switch rapid.IntRange(0, 4).Draw(t, "seedkind") {
	case 0:
		return rapid.Uint64Max(3).Draw(t, "seed")
	case 1:
		return m - rapid.Uint64Max(3).Draw(t, "seed")
	case 2:
		return (uint64(1) << rapid.IntRange(0, 63).Draw(t, "bit")) & m
	case 3:
		return rapid.SampledFrom([]uint64{123456789, 1234567890987654321 & m}).Draw(t, "seed")
	}
	return rapid.Uint64Max(m).Draw(t, "seed")
}

// SeqCase compares with the published sequence.
type SeqCase struct {
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`
	Len  int    `json:"len"`
	Via  string `json:"via"` // new, setseed, clone, interfaceclone
	Skip int    `json:"skip"`
}

var _ = core.Sub("published", core.Spec[SeqCase]{
	Quick: 40000, Thorough: 2000000,
	Rule: "32 and 64 bit KISS generator for any seed, newly made, re-seeded or cloned after any number of draws; up to 2000 (now and then a million) values against the published " +
		"algorithm; non-trivial: more than 10 values",
	Gen: func(t *rapid.T) SeqCase {
		c := SeqCase{Kind: rapid.SampledFrom([]string{"kiss32", "kiss64"}).Draw(t, "kind")}
		c.Seed = drawSeed(t, c.Kind)
		c.Len = rapid.SampledFrom([]int{1, 2, 10, 100, 2000}).Draw(t, "len")
		if rapid.IntRange(0, 399).Draw(t, "long") == 0 {
			c.Len = rapid.IntRange(2000, 1000000).Draw(t, "len")
		}
		c.Via = rapid.SampledFrom([]string{"new", "new", "setseed", "clone"}).Draw(t, "via")
		if c.Via != "new" {
			c.Skip = rapid.IntRange(0, 50).Draw(t, "skip")
		}
		return c
	},
	Run: func(c *core.Ctx, cs SeqCase) error {
		g := create(cs.Kind, cs.Seed)
		if cs.Via == "setseed" {
			g = create(cs.Kind, cs.Seed+5)
		}
		for i := 0; i < cs.Skip; i++ {
			g.next()
		}
		switch cs.Via {
		case "setseed":
			g.setSeed(cs.Seed)
		case "clone":
			g = g.clone()
		}
		ref := func() func() uint64 {
			if cs.Kind == "kiss32" {
				k := newKiss32(uint32(cs.Seed))
				return func() uint64 { return uint64(k.next()) }
			}
			return newKiss64(cs.Seed).next
		}()
		for i := 0; i < cs.Len; i++ {
			if got, want := g.next(), ref(); got != want {
				return fmt.Errorf("%s of seed %d (%s): value %d is %d, published is %d", cs.Kind, cs.Seed, cs.Via, i, got, want)
			}
		}
		c.Class("%s %s", cs.Kind, cs.Via)
		c.ClassIf(cs.Seed == 0, "default seed")
		if cs.Len > 10 {
			c.NonTrivial()
		}
		return nil
	},
})

// Op of a history.
type Op struct {
	Op  string `json:"op"`
	Gen int    `json:"gen"`
	Arg uint64 `json:"arg,omitempty"`
	N   int    `json:"n,omitempty"`
}

// HistCase is a history over several generators.
type HistCase struct {
	Kind  string   `json:"kind"`
	Seeds []uint64 `json:"seeds"`
	Ops   []Op     `json:"ops"`
}

var _ = core.Sub("history", core.Spec[HistCase]{
	Quick: 40000, Thorough: 1500000,
	Rule: "up to 60 draws, re-seedings and clonings over up to ten generators of one type; at the end a new generator of the same seed replays what each " +
		"gave since it was made or seeded; indices stay below their bound; non-trivial: a clone or a re-seeding happens after draws",
	Gen: func(t *rapid.T) HistCase {
		c := HistCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		for i, k := 0, rapid.IntRange(1, 3).Draw(t, "gens"); i < k; i++ {
			c.Seeds = append(c.Seeds, drawSeed(t, c.Kind))
		}
		n := rapid.IntRange(1, 60).Draw(t, "ops")
		for i := 0; i < n; i++ {
			o := Op{Op: rapid.SampledFrom([]string{"next", "next", "side", "side", "flip", "index", "index", "index", "seed", "clone", "get"}).Draw(t, "op")}
			o.Gen = rapid.IntRange(0, 9).Draw(t, "gen")
			switch o.Op {
			case "index":
				o.Arg = drawBound(t, c.Kind)
			case "seed":
				o.Arg = drawSeed(t, c.Kind)
			case "next":
				o.N = rapid.IntRange(1, 5).Draw(t, "n")
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	},
	Run: runHistory,
})

func drawBound(t *rapid.T, kind string) uint64 {
	m := width(kind)
	switch rapid.IntRange(0, 3).Draw(t, "boundkind") {
	case 0:
		return rapid.Uint64Range(1, 4).Draw(t, "bound")
	case 1:
		return rapid.Uint64Range(1, 10000).Draw(t, "bound")
	case 2:
		return m - rapid.Uint64Max(2).Draw(t, "bound")
	}
	return max(1, rapid.Uint64Max(m).Draw(t, "bound"))
}

func perform(g gen, o Op) (out []uint64) {
	switch o.Op {
	case "next":
		for i := 0; i < o.N; i++ {
			out = append(out, g.next())
		}
	case "side":
		out = append(out, uint64(g.side()))
	case "index":
		out = append(out, g.index(o.Arg))
	case "flip":
		if b, ok := g.flip(); ok && b {
			out = append(out, 1)
		} else {
			out = append(out, 0)
		}
	}
	return
}

func runHistory(c *core.Ctx, cs HistCase) error {
	// the default of the generators of seed 0, as documented
	def := map[string]uint64{"kiss32": 123456789, "kiss32/64": 123456789, "kiss64": 1234567890987654321}
	type state struct {
		g    gen
		seed uint64
		ops  []Op
		outs [][]uint64
		from string
	}
	var gens []*state
	for _, s := range cs.Seeds {
		gens = append(gens, &state{g: create(cs.Kind, s), seed: s, from: "new"})
	}
	seedOf := func(s uint64) (uint64, bool) {
		if d, ok := def[cs.Kind]; s == 0 && ok {
			return d, true
		}
		return s, false
	}
	for i, o := range cs.Ops {
		s := gens[o.Gen%len(gens)]
		switch o.Op {
		case "seed":
			s.g.setSeed(o.Arg)
			if len(s.ops) > 0 {
				c.NonTrivial()
				c.Class("re-seeded after draws")
			}
			s.seed, s.ops, s.outs, s.from = o.Arg, nil, nil, "re-seeded"
		case "clone":
			if len(gens) < 10 {
				gens = append(gens, &state{g: s.g.clone(), seed: s.seed, from: "cloned"})
				if len(s.ops) > 0 {
					c.NonTrivial()
					c.Class("cloned after draws")
				}
			}
		case "get":
			want, isDef := seedOf(s.seed)
			if got := s.g.seed(); got != want && !(isDef && got == 0) {
				return fmt.Errorf("step %d: the seed is reported as %d, it is %d", i, got, want)
			}
		default:
			out := perform(s.g, o)
			if o.Op == "index" && out[0] >= o.Arg {
				return fmt.Errorf("step %d: index %d drawn, the bound is %d", i, out[0], o.Arg)
			}
			if o.Op == "side" && out[0] > 1 {
				return fmt.Errorf("step %d: side %d", i, out[0])
			}
			s.ops, s.outs = append(s.ops, o), append(s.outs, out)
		}
	}
	for k, s := range gens {
		seed, isDef := seedOf(s.seed)
		for pass := 0; pass < 2; pass++ {
			fresh := create(cs.Kind, seed)
			if pass == 1 {
				if !isDef {
					continue
				}
				fresh = create(cs.Kind, 0)
			}
			for i, o := range s.ops {
				out := perform(fresh, o)
				for z := range out {
					if out[z] != s.outs[i][z] {
						return fmt.Errorf("generator %d (%s, seed %d): its draw %d (%s) gave %d, a new one of the same seed gives %d", k, s.from,
							s.seed, i, o.Op, s.outs[i][z], out[z])
					}
				}
			}
		}
	}
	c.Class(cs.Kind)
	return nil
}

// FreqCase counts what is drawn.
type FreqCase struct {
	Kind    string   `json:"kind"`
	Seed    uint64   `json:"seed"`
	Bounds  []uint64 `json:"bounds"`
	Pattern string   `json:"pattern"` // i: index, s: side, n: next
	Draws   int      `json:"draws"`
}

var _ = core.Sub("frequency", core.Spec[FreqCase]{
	Quick: 1600, Thorough: 40000,
	Rule: "30000 draws of sides and indices of one to three bounds up to 2^20, interleaved in a fixed pattern: every index (large bounds: every " +
		"64th of the range) and either side within nine standard deviations of its share (chance of a false alarm below 1e-12 over all runs); " +
		"every case is non-trivial",
	Gen: func(t *rapid.T) FreqCase {
		c := FreqCase{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Draws: 30000}
		c.Seed = drawSeed(t, c.Kind)
		for i, k := 0, rapid.IntRange(1, 3).Draw(t, "bounds"); i < k; i++ {
			c.Bounds = append(c.Bounds, rapid.OneOf(rapid.Uint64Range(1, 12), rapid.Uint64Range(1, 300), rapid.Uint64Range(1, 1<<20),
				rapid.SampledFrom([]uint64{2, 4, 16, 64, 256, 65536, 1 << 20})).Draw(t, "bound"))
		}
		c.Pattern = rapid.SampledFrom([]string{"i", "s", "is", "iis", "si", "ns", "ni", "iiiiis"}).Draw(t, "pattern")
		return c
	},
	Run: runFrequency,
})

func runFrequency(c *core.Ctx, cs FreqCase) error {
	g := create(cs.Kind, cs.Seed)
	var sides [2]int
	type bucket struct {
		counts []int
		total  int
	}
	ix := make([]bucket, len(cs.Bounds))
	for i, b := range cs.Bounds {
		ix[i].counts = make([]int, min(b, 64))
	}
	k := 0
	for d := 0; d < cs.Draws; d++ {
		switch cs.Pattern[d%len(cs.Pattern)] {
		case 's':
			s := g.side()
			if s != 0 && s != 1 {
				return fmt.Errorf("side %d", s)
			}
			sides[s]++
		case 'i':
			b := cs.Bounds[k%len(cs.Bounds)]
			x := g.index(b)
			if x >= b {
				return fmt.Errorf("index %d drawn, the bound is %d", x, b)
			}
			bu := &ix[k%len(cs.Bounds)]
			bu.counts[x*uint64(len(bu.counts))/b]++
			bu.total++
			k++
		default:
			g.next()
		}
	}
	if n := sides[0] + sides[1]; n > 0 {
		if dev := math.Abs(float64(sides[0]) - float64(n)/2); dev > 9*math.Sqrt(float64(n))/2+2 {
			return fmt.Errorf("%d draws gave %d left and %d right", n, sides[0], sides[1])
		}
	}
	for i, b := range cs.Bounds {
		m := uint64(len(ix[i].counts))
		for z, got := range ix[i].counts {
			// how many indices fall into the bucket
			lo, hi := (uint64(z)*b+m-1)/m, ((uint64(z)+1)*b+m-1)/m
			p := float64(hi-lo) / float64(b)
			want := p * float64(ix[i].total)
			if math.Abs(float64(got)-want) > 9*math.Sqrt(want*(1-p))+12 {
				return fmt.Errorf("%d draws below %d gave %d of the %d indices from %d, expected %.0f", ix[i].total, b, got, hi-lo, lo, want)
			}
		}
	}
	c.Class("%s %s", cs.Kind, cs.Pattern)
	c.NonTrivial()
	return nil
}

// FreshCase looks at generators made without a seed.
type FreshCase struct {
	Draws int `json:"draws"`
}

var _ = core.Sub("unseeded", core.Spec[FreshCase]{
	Quick: 800, Thorough: 20000,
	Rule: "a generator made without a seed tells the seed that reproduces it; every case is non-trivial",
	Gen:  func(t *rapid.T) FreshCase { return FreshCase{rapid.IntRange(0, 50).Draw(t, "draws")} },
	Run: func(c *core.Ctx, cs FreshCase) error {
		a := random.NewGoRandom()
		b := random.NewGoRandomWithSeed(a.GetSeed())
		for i := 0; i < cs.Draws; i++ {
			if x, y := a.Next(), b.Next(); x != y {
				return fmt.Errorf("value %d of seed %d: %d and %d", i, a.GetSeed(), x, y)
			}
		}
		x := a.CloneAndReset()
		b.SetSeed(a.GetSeed())
		for i := 0; i < 5; i++ {
			if x, y := x.Next(), b.Next(); x != y {
				return fmt.Errorf("value %d of a clone of seed %d: %d and %d", i, a.GetSeed(), x, y)
			}
		}
		c.NonTrivial()
		return nil
	},
})
