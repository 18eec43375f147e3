package core

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// VecSpec describes one vector, some kinds in relation to a base vector.
type VecSpec struct {
	Kind  string  `json:"kind"`
	Seed  uint64  `json:"seed"`
	Scale float64 `json:"scale"`
}

var vecKinds = []string{
	"gauss", "gauss", "positive", "int", "onehot", "sparse", "const", "mixed", "cancel", "zero",
	"parallel", "parallel", "opposite", "near", "near", "disjoint", "same", "swapsign",
}

// DrawVecs draws several; the squares of their norms lie well within the range of the element type.
func DrawVecs(t *rapid.T, c Config, min, max int) []VecSpec {
	n := rapid.IntRange(min, max).Draw(t, "vectors")
	r := make([]VecSpec, n)
	for i := range r {
		r[i] = drawVec(t, c)
	}
	return r
}

func drawVec(t *rapid.T, c Config) VecSpec {
	v := VecSpec{
		Kind: rapid.SampledFrom(vecKinds).Draw(t, "kind"),
		Seed: rapid.Uint64Max(1<<32).Draw(t, "seed"),
	}
	exp := rapid.SampledFrom([]int{6, 14, 18}).Draw(t, "magnitude")
	if c.F64 && exp == 18 {
		exp = 150
	}
	switch rapid.IntRange(0, 3).Draw(t, "scaled") {
	case 0, 1:
		v.Scale = 1
	case 2:
		v.Scale = rapid.SampledFrom([]float64{0.5, 2, 3, 1e-3, 1e3, 0x1p-10, 0x1p12}).Draw(t, "scale")
	default:
		v.Scale = math.Pow(10, float64(rapid.IntRange(-exp, exp).Draw(t, "exp")))
		if c.Metric == "angular" && exp > 14 && rapid.IntRange(0, 3).Draw(t, "extreme") == 0 {
			// the longest and shortest vectors whose squared norm is a normal number
			v.Scale = rapid.SampledFrom([]float64{1.8e19, 1.15e-19}).Draw(t, "end")
			if c.F64 {
				v.Scale = map[bool]float64{true: 1.3e154, false: 1.6e-154}[v.Scale > 1]
			}
		}
	}
	return v
}

// Vec expands the description: a vector of the asked norm (or zero).
func (c Config) Vec(s VecSpec, base []float64) []float64 {
	p := NewPrng(s.Seed)
	v := make([]float64, c.Dim)
	for z := range v {
		v[z] = p.Norm()
	}
	if base == nil {
		base = append([]float64{}, v...)
	}
	unit := true
	switch s.Kind {
	case "positive":
		for z := range v {
			v[z] = math.Abs(v[z])
		}
	case "int":
		for z := range v {
			v[z] = float64(p.Intn(7) - 3)
		}
		unit = s.Scale != 1
	case "onehot":
		k := p.Intn(c.Dim)
		for z := range v {
			v[z] = 0
		}
		v[k] = 1
	case "sparse":
		for z := range v {
			if p.Intn(4) > 0 {
				v[z] = 0
			}
		}
	case "const":
		for z := range v {
			v[z] = 1
		}
	case "mixed":
		for z := range v {
			v[z] *= math.Pow(10, p.F()*6-3)
		}
	case "cancel":
		// inner product with the base near zero
		var ab, bb float64
		for z := range v {
			ab += v[z] * base[z]
			bb += base[z] * base[z]
		}
		if bb > 0 {
			for z := range v {
				v[z] -= ab / bb * base[z]
			}
		}
	case "zero":
		for z := range v {
			v[z] = 0
		}
	case "parallel", "same":
		copy(v, base)
	case "opposite":
		for z := range v {
			v[z] = -base[z]
		}
	case "near":
		var n float64
		for z := range base {
			n = math.Max(n, math.Abs(base[z]))
		}
		e := math.Pow(10, -float64(1+p.Intn(8))) * n
		for z := range v {
			v[z] = base[z] + e*v[z]
		}
	case "disjoint":
		for z := range v {
			if base[z] != 0 && (z%2 == 0 || p.Intn(2) == 0) {
				v[z] = 0
			}
		}
	case "swapsign":
		for z := range v {
			v[z] = base[z]
			if z%2 == 1 {
				v[z] = -v[z]
			}
		}
	}
	if s.Kind == "same" || s.Kind == "parallel" && (s.Scale == 2 || s.Scale == 0.5) {
		unit = false
	}
	if unit {
		var big float64
		for z := range v {
			big = math.Max(big, math.Abs(v[z]))
		}
		for z := range v {
			if big > 1e100 || big < 1e-100 && big > 0 {
				v[z] /= big
			}
		}
		n, _ := Dot(v, v)
		n = math.Sqrt(n)
		for z := range v {
			if n > 0 {
				v[z] = v[z] / n
			}
			v[z] *= s.Scale
		}
	} else if s.Kind == "parallel" {
		n, _ := Dot(base, base)
		f := s.Scale
		// keep within the magnitudes promised: those of the base, or 1e-6 to 1e6
		if n*f*f > math.Max(n, 1e12) || n*f*f < math.Min(n, 1e-12) {
			f = 1
		}
		for z := range v {
			v[z] *= f
		}
	}
	for z := range v {
		v[z] = c.Round(v[z])
	}
	return v
}

// Vecs expands a list; the first is the base of the others.
func (c Config) Vecs(s []VecSpec) [][]float64 {
	var r [][]float64
	for _, x := range s {
		var base []float64
		if len(r) > 0 {
			base = r[0]
		}
		r = append(r, c.Vec(x, base))
	}
	return r
}

// Conv gives a vector as a slice of the element type.
func Conv[TV ~float32 | ~float64](v []float64) []TV {
	r := make([]TV, len(v))
	for i := range v {
		r[i] = TV(v[i])
	}
	return r
}

// PairwiseCase is an index of a few vectors, all of whose distances are looked at.
type PairwiseCase struct {
	Config  Config    `json:"config"`
	Vecs    []VecSpec `json:"vecs"`
	Queries []VecSpec `json:"queries"`
	Step    int       `json:"step"` // ids are multiples of it
	Trees   int       `json:"trees"`
	Workers int       `json:"workers"`
}

// DrawPairwise draws one.
func DrawPairwise(t *rapid.T, metric string, maxVecs, maxDim int) PairwiseCase {
	o := Opt{Metrics: []string{metric}, MaxDim: maxDim, Builder: true, Multi: true, GCMem: true}
	c := PairwiseCase{Config: DrawConfig(t, o)}
	c.Vecs = DrawVecs(t, c.Config, 2, maxVecs)
	c.Queries = DrawVecs(t, c.Config, 1, 3)
	c.Step = rapid.SampledFrom([]int{1, 1, 1, 3}).Draw(t, "step")
	c.Trees = rapid.IntRange(1, 4).Draw(t, "trees")
	c.Workers = DrawWorkers(t, c.Config)
	return c
}

// RunPairwise checks every reported distance in every phase of the life of the index against
// the reference, and that an unrestricted search gives the nearest by the reference.
func RunPairwise(c *Ctx, cs PairwiseCase) error {
	cfg := cs.Config
	m := MetricOf(cfg)
	vecs := cfg.Vecs(cs.Vecs)
	var queries [][]float64
	for _, q := range cs.Queries {
		queries = append(queries, cfg.Vec(q, vecs[0]))
	}
	for _, s := range append(append([]VecSpec{}, cs.Vecs...), cs.Queries...) {
		c.Class("%s vector", s.Kind)
	}
	mod := Model{}
	ix := Open(cfg, nil)
	c.Cleanup(func() { ix.Close() })
	id := func(i int) uint64 { return uint64(i * cs.Step) }
	for i, v := range vecs {
		ix.Add(id(i), v)
		mod[id(i)] = v
	}
	pairs := func(phase string) error {
		for i := range vecs {
			for j := range vecs {
				got := ix.Dist(id(i), id(j))
				d, tol := m.D(vecs[i], vecs[j])
				if !m.SameReported(got, d, tol) {
					return fmt.Errorf("%s: the distance of items %d and %d is %v, expected %v", phase, id(i), id(j), got, m.Reported(d))
				}
			}
		}
		return nil
	}
	search := func(phase string) error {
		ctx := ix.Ctx()
		n := len(vecs)
		for _, q := range queries {
			ids, ds := ix.ByVector(q, n, 1<<30, ctx)
			if err := m.Exact(mod, q, n, ids, ds); err != nil {
				return fmt.Errorf("%s: query %v: %w", phase, q, err)
			}
			ids, ds = ix.ByVector(q, (n+1)/2, 1<<30, ctx)
			if err := m.Exact(mod, q, (n+1)/2, ids, ds); err != nil {
				return fmt.Errorf("%s: query %v, half of the items: %w", phase, q, err)
			}
		}
		for i := range vecs {
			ids, ds := ix.ByItem(id(i), n, 1<<30, ctx)
			if err := m.Exact(mod, vecs[i], n, ids, ds); err != nil {
				return fmt.Errorf("%s: query by item %d: %w", phase, id(i), err)
			}
		}
		return nil
	}
	if err := pairs("items added"); err != nil {
		return err
	}
	ix.Build(cs.Trees, cs.Workers)
	both := func(phase string) error {
		if err := pairs(phase); err != nil {
			return err
		}
		return search(phase)
	}
	if err := both("built"); err != nil {
		return err
	}
	if err := ix.Save(c.File("a")); err != nil {
		return err
	}
	if err := both("saved"); err != nil {
		return err
	}
	ix2 := Open(cfg, nil)
	c.Cleanup(func() { ix2.Close() })
	if err := ix2.Load(c.File("a")); err != nil {
		return err
	}
	ix = ix2
	if err := both("loaded"); err != nil {
		return err
	}
	c.Class(cfg.Types())
	c.ClassIf(len(vecs) > cfg.Layout().K, "items are split")
	c.NonTrivial()
	return nil
}
