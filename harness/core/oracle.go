package core

import (
	"fmt"
	"math"
	"sort"
)

// Metric is the float64 reference of a distance with error bounds.
type Metric struct {
	c Config
}

// MetricOf a config.
func MetricOf(c Config) Metric { return Metric{c} }

// Dot is the inner product in float64 with compensation and the sum of absolute products.
func Dot(a, b []float64) (s, abs float64) {
	var comp float64
	for i := range a {
		p := a[i] * b[i]
		e := math.FMA(a[i], b[i], -p)
		abs += math.Abs(p)
		t := s + p
		if math.Abs(s) >= math.Abs(p) {
			comp += (s - t) + p
		} else {
			comp += (p - t) + s
		}
		comp += e
		s = t
	}
	return s + comp, abs
}

// D is the reference distance on the scale the order is decided on (smaller is nearer): the
// square of the angular or Euclidean distance, the Manhattan distance, the negated inner
// product. tol bounds what rounding can do to it.
func (m Metric) D(a, b []float64) (d, tol float64) {
	u := m.c.U()
	n := float64(len(a))
	switch m.c.Metric {
	case "dot":
		s, abs := Dot(a, b)
		return -s, (n+4)*u*abs*1.1 + 2*n*m.c.Tiny()
	case "euclid":
		for i := range a {
			x := a[i] - b[i]
			d += x * x
		}
		return d, (n + 6) * u * d * 1.1
	case "manhattan":
		for i := range a {
			d += math.Abs(a[i] - b[i])
		}
		return d, (n + 4) * u * d * 1.1
	}
	aa, _ := Dot(a, a)
	bb, _ := Dot(b, b)
	if aa == 0 || bb == 0 {
		return 2, 0
	}
	ab, _ := Dot(a, b)
	d = 2 - 2*(ab/(math.Sqrt(aa)*math.Sqrt(bb)))
	if d < 0 {
		d = 0
	}
	// squares and products of short vectors lose bits to underflow
	return d, (4*n+16)*u + 4*n*m.c.Tiny()/math.Min(aa, bb)
}

// Reported is what a user sees for a D value.
func (m Metric) Reported(d float64) float64 {
	switch m.c.Metric {
	case "dot":
		return -d
	case "manhattan":
		return d
	}
	return math.Sqrt(math.Max(d, 0))
}

// SameReported reports whether a reported distance is right for a reference value.
func (m Metric) SameReported(got, d, tol float64) bool {
	u := m.c.U()
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	switch m.c.Metric {
	case "dot":
		return math.Abs(-got-d) <= tol+4*u*math.Abs(d)
	case "manhattan":
		return math.Abs(got-d) <= tol+4*u*math.Abs(d)
	}
	if got < 0 {
		return false
	}
	// compared as squares: the root is correctly rounded, but amplifies near zero
	return math.Abs(got*got-d) <= tol+8*u*math.Abs(d)
}

// Key orders reported distances: smaller is nearer.
func (m Metric) Key(reported float64) float64 {
	if m.c.Metric == "dot" {
		return -reported
	}
	return reported
}

// WellFormed checks what every answer must satisfy (C03), apart from its length.
func (m Metric) WellFormed(mod Model, q []float64, n int, ids []uint64, ds []float64) error {
	if len(ids) != len(ds) {
		return fmt.Errorf("%d results, %d distances", len(ids), len(ds))
	}
	if n < 0 {
		n = 0
	}
	if len(ids) > n {
		return fmt.Errorf("asked for %d results, got %d", n, len(ids))
	}
	seen := map[uint64]bool{}
	for i, id := range ids {
		v, ok := mod[id]
		if !ok {
			return fmt.Errorf("result %d is item %d, which was never added", i, id)
		}
		if seen[id] {
			return fmt.Errorf("item %d returned twice", id)
		}
		seen[id] = true
		d, tol := m.D(q, v)
		if !m.SameReported(ds[i], d, tol) {
			return fmt.Errorf("result %d, item %d: distance %v reported, it is %v", i, id, ds[i], m.Reported(d))
		}
		if i > 0 && m.Key(ds[i]) < m.Key(ds[i-1]) {
			return fmt.Errorf("results %d and %d out of order: distances %v, %v", i-1, i, ds[i-1], ds[i])
		}
	}
	return nil
}

// Exact checks that an answer holds the min(n, N) nearest items.
func (m Metric) Exact(mod Model, q []float64, n int, ids []uint64, ds []float64) error {
	if err := m.WellFormed(mod, q, n, ids, ds); err != nil {
		return err
	}
	want := n
	if want < 0 {
		want = 0
	}
	if want > len(mod) {
		want = len(mod)
	}
	if len(ids) != want {
		return fmt.Errorf("%d results for n=%d among %d items, want %d", len(ids), n, len(mod), want)
	}
	got := map[uint64]bool{}
	worst, wtol, worstID := math.Inf(-1), 0.0, uint64(0)
	for _, id := range ids {
		got[id] = true
		if d, tol := m.D(q, mod[id]); d > worst {
			worst, wtol, worstID = d, tol, id
		}
	}
	if want == len(mod) || want == 0 {
		return nil
	}
	for id, v := range mod {
		if got[id] {
			continue
		}
		if d, tol := m.D(q, v); d < worst-tol-wtol {
			return fmt.Errorf("item %d at %v is missing from the %d nearest, item %d at %v is among them",
				id, m.Reported(d), want, worstID, m.Reported(worst))
		}
	}
	return nil
}

// Truth gives the ids sorted by reference distance (ties by id).
func (m Metric) Truth(mod Model, q []float64) []uint64 {
	ids := mod.IDs()
	d := map[uint64]float64{}
	for _, id := range ids {
		d[id], _ = m.D(q, mod[id])
	}
	sort.SliceStable(ids, func(i, j int) bool { return d[ids[i]] < d[ids[j]] })
	return ids
}

// SameVec compares bit for bit.
func SameVec(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

// SameAnswer compares two answers exactly.
func SameAnswer(a []uint64, ad []float64, b []uint64, bd []float64) error {
	if len(a) != len(b) || len(ad) != len(bd) {
		return fmt.Errorf("%d and %d results", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] || math.Float64bits(ad[i]) != math.Float64bits(bd[i]) {
			return fmt.Errorf("result %d: item %d at %v and item %d at %v", i, a[i], ad[i], b[i], bd[i])
		}
	}
	return nil
}
