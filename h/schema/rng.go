package schema

import "math/rand/v2"

// R is the only source of randomness. Every case is a pure function of (seed, property, index).
type R struct{ r *rand.Rand }

func NewR(seed uint64, salt string, idx int) *R {
	h := uint64(14695981039346656037)
	for _, c := range []byte(salt) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return &R{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+0x1234567, h^(uint64(idx)*0xD6E8FEB86659FD93+1)))}
}

func (r *R) Int(n int) int {
	if n <= 0 {
		return 0
	}
	return r.r.IntN(n)
}
func (r *R) Range(a, b int) int { return a + r.Int(b-a+1) }
func (r *R) Bool() bool         { return r.r.IntN(2) == 0 }

// P is true with probability pct percent.
func (r *R) P(pct int) bool   { return r.r.IntN(100) < pct }
func (r *R) U64() uint64      { return r.r.Uint64() }
func (r *R) F64() float64     { return r.r.Float64() }
func (r *R) Perm(n int) []int { return r.r.Perm(n) }
func Pick[T any](r *R, xs []T) T {
	return xs[r.Int(len(xs))]
}

// Geo picks 0..max with geometrically falling weight.
func (r *R) Geo(max int) int {
	n := 0
	for n < max && r.P(55) {
		n++
	}
	return n
}
