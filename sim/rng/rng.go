// Package rng is the seeded random source of all simulated decisions.
package rng

// R is a splitmix64 generator.
type R struct{ s uint64 }

// New returns a generator for the seed.
func New(seed uint64) *R { return &R{s: seed*0x9E3779B97F4A7C15 + 0x632BE59BD9B4E019} }

// Sub derives an independent generator.
func (r *R) Sub() *R { return New(r.U64()) }

// U64 returns 64 random bits.
func (r *R) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo,hi].
func (r *R) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// One is true once in n times.
func (r *R) One(n int) bool { return r.N(n) == 0 }

// Bool is a coin toss.
func (r *R) Bool() bool { return r.U64()&1 == 1 }

// Bytes returns n random bytes.
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// Pick returns one of the values.
func Pick[T any](r *R, v ...T) T { return v[r.N(len(v))] }

// Hash mixes values into a seed.
func Hash(vs ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, v := range vs {
		h ^= v + 0x9E3779B97F4A7C15 + h<<6 + h>>2
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 29
	}
	return h
}

// HashString hashes a string.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
