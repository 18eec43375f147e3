// Package c21 decides: vector and set helpers compute what they are named for.
package c21

import (
	"fmt"
	"math"
	"math/big"
	"slices"
	"testing"

	"github.com/mariotoffia/goannoy/interfaces"
	"github.com/mariotoffia/goannoy/utils"
	"github.com/mariotoffia/goannoy/vector"
	"pgregory.net/rapid"

	"verifharness/core"
)

func TestMain(m *testing.M)  { core.Main(m, "C21") }
func TestCheck(t *testing.T) { core.RunAll(t) }

// VecCase is two vectors and a prefix of them.
type VecCase struct {
	F64  bool           `json:"f64"`
	U64  bool           `json:"u64"`
	Dim  int            `json:"dim"`
	Vecs []core.VecSpec `json:"vecs"`
	N    int            `json:"n"`    // length asked for
	Junk string         `json:"junk"` // what follows the prefix
	Offs int            `json:"offs"` // start of the vectors in their arrays
}

var _ = core.Sub("vectors", core.Spec[VecCase]{
	Quick: 60000, Thorough: 2500000,
	Rule: "two related vectors of dimension 1 to 70000, any prefix (what follows is not a number, infinite or huge), both element and index types: " +
		"seven helpers against compensated float64 arithmetic; non-trivial: the prefix is shorter than the slice or the inner product is not zero",
	Gen: func(t *rapid.T) VecCase {
		c := VecCase{F64: rapid.Bool().Draw(t, "f64"), U64: rapid.Bool().Draw(t, "u64"), Dim: core.DrawDim(t, 70000)}
		c.Vecs = core.DrawVecs(t, core.Config{F64: c.F64}, 2, 2)
		c.N = c.Dim
		if rapid.Bool().Draw(t, "prefix") {
			c.N = rapid.IntRange(0, c.Dim).Draw(t, "n")
		}
		c.Junk = rapid.SampledFrom([]string{"", "nan", "inf", "huge"}).Draw(t, "junk")
		c.Offs = rapid.IntRange(0, 3).Draw(t, "offs")
		return c
	},
	Run: func(c *core.Ctx, cs VecCase) error {
		switch {
		case cs.F64 && cs.U64:
			return vectors[float64, uint64](c, cs)
		case cs.F64:
			return vectors[float64, uint32](c, cs)
		case cs.U64:
			return vectors[float32, uint64](c, cs)
		}
		return vectors[float32, uint32](c, cs)
	},
})

func vectors[TV interfaces.VectorType, TIX interfaces.IndexTypes](c *core.Ctx, cs VecCase) error {
	cfg := core.Config{F64: cs.F64, U64: cs.U64, Metric: "angular", Dim: cs.Dim}
	v := cfg.Vecs(cs.Vecs)
	a, b := v[0], v[1]
	for z := cs.N; z < cs.Dim; z++ {
		switch cs.Junk {
		case "nan":
			a[z], b[z] = math.NaN(), math.NaN()
		case "inf":
			a[z], b[z] = math.Inf(1), math.Inf(-1)
		case "huge":
			a[z], b[z] = 1e30, 3e30
		}
	}
	pad := make([]float64, cs.Offs)
	for i := range pad {
		pad[i] = 77
	}
	x := core.Conv[TV](append(append([]float64{}, pad...), a...))[cs.Offs:]
	y := core.Conv[TV](append(append([]float64{}, pad...), b...))[cs.Offs:]
	x0, y0 := slices.Clone(x), slices.Clone(y)
	n := TIX(cs.N)
	pa, pb := a[:cs.N], b[:cs.N]

	u, nn := cfg.U(), float64(cs.N)
	tiny := (nn + 1) * 0x1p-148
	if cs.F64 {
		tiny = (nn + 1) * 0x1p-1060
	}
	expect := func(name string, got TV, want, tol float64) error {
		if math.IsNaN(float64(got)) || math.Abs(float64(got)-want) > tol {
			return fmt.Errorf("%s of the first %d of %d elements is %v, expected %v (within %v)", name, cs.N, cs.Dim, got, want, tol)
		}
		return nil
	}
	dot, abs := core.Dot(pa, pb)
	aa, _ := core.Dot(pa, pa)
	var euclid, manhattan float64
	for z := range pa {
		d := pa[z] - pb[z]
		euclid += d * d
		manhattan += math.Abs(d)
	}
	norm := math.Sqrt(aa)
	// what underflow of the squares can do to the root of their sum
	lost := math.Min(math.Sqrt(tiny), tiny/norm)
	if slices.Max(append([]float64{0}, pa...)) == 0 && slices.Min(append([]float64{0}, pa...)) == 0 {
		lost = 0
	}
	checks := []error{
		expect("inner product", vector.Dot(x, y, n), dot, (nn+4)*u*abs*1.1+tiny),
		expect("inner product (raw)", vector.DotUnsafe(&x[0], &y[0], n), dot, (nn+4)*u*abs*1.1+tiny),
		expect("inner product with itself", vector.Dot(x, x, n), aa, (nn+4)*u*aa*1.1+tiny),
		expect("squared Euclidean distance", vector.EuclideanDistance(x, y, n), euclid, (nn+6)*u*euclid*1.1+tiny),
		expect("squared Euclidean distance to itself", vector.EuclideanDistance(x, x, n), 0, 0),
		expect("Manhattan distance", vector.ManhattanDistance(x, y, n), manhattan, (nn+4)*u*manhattan*1.1+tiny),
		expect("norm", vector.GetNorm(x, n), norm, (nn+6)*u*norm*1.1+lost),
		expect("norm (raw)", vector.GetNormUnsafe(&x[0], n), norm, (nn+6)*u*norm*1.1+lost),
	}
	for _, err := range checks {
		if err != nil {
			return err
		}
	}
	for z := range x {
		if bits(x[z]) != bits(x0[z]) || bits(y[z]) != bits(y0[z]) {
			return fmt.Errorf("a helper changed element %d", z)
		}
		if got := vector.Abs(x[z]); float64(got) != math.Abs(float64(x[z])) && z < cs.N {
			return fmt.Errorf("absolute value of %v is %v", x[z], got)
		}
	}
	if cs.N < cs.Dim || dot != 0 {
		c.NonTrivial()
	}
	c.Class(cfg.Types())
	c.ClassIf(cs.N < cs.Dim, "prefix")
	c.ClassIf(cs.N == 0, "nothing")
	return nil
}

func bits[TV interfaces.VectorType](x TV) uint64 { return math.Float64bits(float64(x)) }

// ValueCase is a single number.
type ValueCase struct {
	F float64 `json:"f"`
	G float64 `json:"g"`
}

var _ = core.Sub("absolute", core.Spec[ValueCase]{
	Quick: 8000, Thorough: 300000,
	Rule: "absolute values of any finite number, in both element types, and the larger of two indices; non-trivial: the number is negative",
	Gen: func(t *rapid.T) ValueCase {
		return ValueCase{rapid.Float64().Draw(t, "f"), rapid.Float64().Draw(t, "g")}
	},
	Run: func(c *core.Ctx, cs ValueCase) error {
		if cs.F < 0 {
			c.NonTrivial()
		}
		if got := vector.Abs(cs.F); got != math.Abs(cs.F) {
			return fmt.Errorf("absolute value of %v is %v", cs.F, got)
		}
		if f := float32(cs.F); vector.Abs(f) != float32(math.Abs(float64(f))) {
			return fmt.Errorf("absolute value of %v is %v", f, vector.Abs(f))
		}
		a, b := math.Float64bits(cs.F), math.Float64bits(cs.G)
		if got := utils.Max(a, b); got != max(a, b) {
			return fmt.Errorf("larger of %d and %d is %d", a, b, got)
		}
		if got := utils.Max(uint32(a>>32), uint32(b>>32)); got != max(uint32(a>>32), uint32(b>>32)) {
			return fmt.Errorf("larger of %d and %d is %d", uint32(a>>32), uint32(b>>32), got)
		}
		return nil
	},
})

// RoundCase is a number to round.
type RoundCase struct {
	F      float64 `json:"f"`
	Places int     `json:"places"`
}

var _ = core.Sub("rounding", core.Spec[RoundCase]{
	Quick: 60000, Thorough: 2500000,
	Rule: "numbers that are exact halves, next to a half or anything, positive and negative, rounded to whole numbers and to -3 to 9 places, against " +
		"exact rational arithmetic (where scaling by the power of ten cannot be exact, either neighbour of a number that close to a half); " +
		"non-trivial: the number is not whole",
	Gen: func(t *rapid.T) RoundCase {
		c := RoundCase{Places: rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3, 4, 6, 9, -1, -2, -3}).Draw(t, "places")}
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0: // halves of whole numbers
			c.F = float64(rapid.IntRange(-2000, 2000).Draw(t, "halves")) / 2
		case 1: // halves of the last place
			c.F = float64(rapid.IntRange(-200000, 200000).Draw(t, "halves")) / 2 / math.Pow(10, float64(c.Places))
		case 2: // next to a half
			c.F = float64(rapid.IntRange(-200, 200).Draw(t, "half")) + 0.5
			c.F = math.Nextafter(c.F, rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1)}).Draw(t, "to"))
		case 3:
			c.F = rapid.Float64Range(-1e6, 1e6).Draw(t, "f")
		case 4: // dyadic
			c.F = math.Ldexp(float64(rapid.IntRange(-1<<20, 1<<20).Draw(t, "m")), -rapid.IntRange(0, 12).Draw(t, "e"))
		default: // large
			c.F = math.Ldexp(float64(rapid.Int64Range(-1<<53, 1<<53).Draw(t, "m")), rapid.IntRange(-3, 8).Draw(t, "e"))
		}
		return c
	},
	Run: runRound,
})

// halfUp is the exact x rounded half up.
func halfUp(x *big.Rat) *big.Int {
	y := new(big.Rat).Add(x, big.NewRat(1, 2))
	// Div is the Euclidean division, which for positive divisors is the floor
	return new(big.Int).Div(y.Num(), y.Denom())
}

func runRound(c *core.Ctx, cs RoundCase) error {
	x := new(big.Rat).SetFloat64(cs.F)
	if !x.IsInt() {
		c.NonTrivial()
	}
	want, _ := new(big.Float).SetInt(halfUp(x)).Float64()
	if got := utils.Round(cs.F); got != want {
		return fmt.Errorf("%v rounded is %v, expected %v", cs.F, got, want)
	}
	ten := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(cs.Places, -cs.Places))), nil))
	if cs.Places < 0 {
		ten.Inv(ten)
	}
	scaled := new(big.Rat).Mul(x, ten)
	k := halfUp(scaled)
	got := utils.RoundPlus(cs.F, cs.Places)
	near := func(k *big.Int) bool {
		w, _ := new(big.Rat).Quo(new(big.Rat).SetInt(k), ten).Float64()
		return math.Abs(got-w) <= 4*0x1p-53*math.Abs(w)
	}
	c.Class("%d places", cs.Places)
	if near(k) {
		return nil
	}
	// is the scaled number that close to the next half that rounding of the product decides?
	shift := math.Pow(10, float64(cs.Places))
	exact := new(big.Rat).SetFloat64(cs.F * shift)
	if cs.Places >= 0 && exact.Cmp(scaled) == 0 {
		return fmt.Errorf("%v rounded to %d places is %v, expected %v", cs.F, cs.Places, got, k)
	}
	s, _ := scaled.Float64()
	slack := new(big.Rat).SetFloat64(math.Abs(s) * 4 * 0x1p-53)
	for _, side := range []int64{1, -1} {
		moved := new(big.Rat).Add(scaled, new(big.Rat).Mul(slack, big.NewRat(side, 1)))
		if near(halfUp(moved)) {
			c.Class("decided by the rounding of the product")
			return nil
		}
	}
	return fmt.Errorf("%v rounded to %d places is %v, expected %v/10^%d", cs.F, cs.Places, got, k, cs.Places)
}

// SetCase is two index lists.
type SetCase struct {
	U64  bool   `json:"u64"`
	A    []int  `json:"a"`
	B    []int  `json:"b"`
	High bool   `json:"high"` // at the upper end of the index type
	More int    `json:"more"` // random elements on top, of a range as large
	Seed uint64 `json:"seed"`
	Same bool   `json:"same"` // intersect a list with itself
}

var _ = core.Sub("intersection", core.Spec[SetCase]{
	Quick: 40000, Thorough: 1500000,
	Rule: "two lists of up to 3000 (now and then 300 000) indices with duplicates, in any order, empty ones included: the multiset intersection in ascending order; " +
		"non-trivial: the intersection is neither empty nor one of the lists",
	Gen: func(t *rapid.T) SetCase {
		c := SetCase{U64: rapid.Bool().Draw(t, "u64"), High: rapid.IntRange(0, 3).Draw(t, "high") == 0}
		small := rapid.SliceOfN(rapid.IntRange(0, 12), 0, 12)
		c.A, c.B = small.Draw(t, "a"), small.Draw(t, "b")
		if rapid.IntRange(0, 3).Draw(t, "large") == 0 {
			c.More = rapid.IntRange(1, 3000).Draw(t, "more")
			if rapid.IntRange(0, 99).Draw(t, "largest") == 0 {
				c.More = rapid.IntRange(30000, 300000).Draw(t, "more")
			}
			c.Seed = rapid.Uint64Max(1<<32).Draw(t, "seed")
		}
		c.Same = rapid.IntRange(0, 19).Draw(t, "same") == 0
		return c
	},
	Run: func(c *core.Ctx, cs SetCase) error {
		if cs.U64 {
			return intersect[uint64](c, cs)
		}
		return intersect[uint32](c, cs)
	},
})

func intersect[TIX interfaces.IndexTypes](c *core.Ctx, cs SetCase) error {
	p := core.NewPrng(cs.Seed)
	list := func(s []int) (r []TIX) {
		for _, x := range s {
			r = append(r, TIX(x))
		}
		for i, n := 0, p.Intn(cs.More+1); i < n; i++ {
			r = append(r, TIX(p.Intn(cs.More)))
		}
		if cs.High {
			for i := range r {
				r[i] = ^TIX(0) - r[i]
			}
		}
		return
	}
	a, b := list(cs.A), list(cs.B)
	if cs.Same {
		b = a
	}
	count := map[TIX]int{}
	for _, x := range a {
		count[x]++
	}
	var want []TIX
	for _, x := range b {
		if count[x] > 0 {
			count[x]--
			want = append(want, x)
		}
	}
	slices.Sort(want)
	got := utils.Intersection(slices.Clone(a), slices.Clone(b))
	if cs.Same {
		s := slices.Clone(a)
		got = utils.Intersection(s, s)
	}
	if !slices.Equal(got, want) {
		return fmt.Errorf("intersection of %v and %v is %v, expected %v", a, b, got, want)
	}
	if len(want) > 0 && len(want) < len(a) && len(want) < len(b) {
		c.NonTrivial()
	}
	c.ClassIf(len(a) == 0 || len(b) == 0, "an empty list")
	c.ClassIf(cs.Same, "one list twice")
	return nil
}
