// Package lin decides linearizability of short histories against a sequential,
// possibly nondeterministic, model.
package lin

import "math/bits"

// Op is one operation: when it was called and when it returned.
type Op struct{ Call, Ret uint64 }

// Pending is the return stamp of an operation that never returned.
const Pending = ^uint64(0)

// Check says whether the history (at most 64 operations) has a linearization.
// step lists the states after operation i with its recorded result in state s;
// none means that it cannot happen there. known is false if the search was cut.
func Check[S comparable](ops []Op, init S, step func(s S, i int) []S) (ok, known bool) {
	n := len(ops)
	if n > 64 {
		panic("lin: history too long")
	}
	type node struct {
		mask uint64
		s    S
	}
	var must uint64
	for i, o := range ops {
		if o.Ret != Pending {
			must |= 1 << i
		}
	}
	seen := map[node]bool{}
	stack := []node{{0, init}}
	nodes := 0
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x.mask&must == must {
			return true, true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		if nodes++; nodes > 300000 {
			return false, false
		}
		// an operation may come next if it was called before every open one returned
		first := Pending
		for m := ^x.mask & mask(n); m != 0; m &= m - 1 {
			if r := ops[bits.TrailingZeros64(m)].Ret; r < first {
				first = r
			}
		}
		for m := ^x.mask & mask(n); m != 0; m &= m - 1 {
			i := bits.TrailingZeros64(m)
			if ops[i].Call > first {
				continue
			}
			for _, s := range step(x.s, i) {
				stack = append(stack, node{x.mask | 1<<i, s})
			}
		}
	}
	return false, true
}

// Finals lists the states in which a complete history (at most 64 operations)
// that begins in one of the given states can end.
func Finals[S comparable](ops []Op, inits []S, step func(s S, i int) []S) (out []S, known bool) {
	n := len(ops)
	if n > 64 {
		return nil, false
	}
	type node struct {
		mask uint64
		s    S
	}
	all := mask(n)
	seen := map[node]bool{}
	var stack []node
	for _, s := range inits {
		stack = append(stack, node{0, s})
	}
	nodes := 0
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.mask == all {
			out = append(out, x.s)
			continue
		}
		if nodes++; nodes > 300000 {
			return nil, false
		}
		first := Pending
		for m := ^x.mask & all; m != 0; m &= m - 1 {
			first = min(first, ops[bits.TrailingZeros64(m)].Ret)
		}
		for m := ^x.mask & all; m != 0; m &= m - 1 {
			i := bits.TrailingZeros64(m)
			if ops[i].Call > first {
				continue
			}
			for _, s := range step(x.s, i) {
				stack = append(stack, node{x.mask | 1<<i, s})
			}
		}
	}
	return out, true
}

func mask(n int) uint64 {
	if n == 64 {
		return ^uint64(0)
	}
	return 1<<n - 1
}
