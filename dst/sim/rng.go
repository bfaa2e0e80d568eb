package sim

import (
	"cmp"
	"slices"
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) Rng { return Rng{seed} }

func (r *Rng) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *Rng) Range(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + int64(r.Uint64()%uint64(hi-lo+1))
}

func (r *Rng) P(p float64) bool { return r.Float() < p }

// Pick returns one of the values.
func Pick[T any](r *Rng, v ...T) T { return v[r.Intn(len(v))] }

// Mix derives a seed from several numbers.
func Mix(a ...uint64) uint64 {
	r := Rng{0x1234567}
	for _, x := range a {
		r.s ^= x
		r.s = r.Uint64()
	}
	return r.s
}

// HashString is FNV-1a.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Keys are the keys of a map in order. Harnesses go through maps with it where
// the order shows.
func Keys[K cmp.Ordered, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}
