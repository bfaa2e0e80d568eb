// Package ring drives the two fixed ring buffers for C15 and C16.
package ring

import (
	"dst/run"
	"dst/sim"

	_ "github.com/ahKevinXy/go-web-tools/dstsites"
)

const ms = int64(1e6)

// Ring is the interface both ring buffers have.
type Ring interface {
	Pop() int64
	Peek() int64
	Push(int64)
	MPush(...int64)
	MPop(uint64) []int64
	MPopCopy([]int64)
	Cap() uint64
	Len() uint64
	Avail() uint64
	Empty() bool
	Full() bool
	Reset()
}

// Op is one step of the producer or the consumer.
type Op struct {
	P bool   `json:"p,omitempty"` // by the producer
	K string `json:"k"`           // cap; push mpush; pop peek mpop copy; len; reset
	N int    `json:"n,omitempty"`
	W int64  `json:"w,omitempty"` // nanoseconds to wait first
	B bool   `json:"b,omitempty"` // look at Avail or Len rather than at Full or Empty
	X bool   `json:"x,omitempty"` // push, pop or peek without looking
}

type call struct{ least, n int } // how many of a push's n elements must be stored at least

// Body runs a workload against the ring made by mk; want gives the capacity.
func Body(mk func(size uint64) Ring, want func(size uint64) uint64) func(ops []Op) {
	return func(ops []Op) {
		size := uint64(4)
		var prod, cons []Op
		reset := false
		horizon := int64(0)
		for _, o := range ops {
			horizon += o.W
			switch {
			case o.K == "cap":
				size = uint64(o.N)
			case o.K == "reset":
				reset = true
			case o.P:
				prod = append(prod, o)
			default:
				cons = append(cons, o)
			}
		}
		r := mk(size)
		cp := want(size)
		if r.Cap() != cp {
			sim.Fail("capacity", "a ring of size %d has capacity %d, not %d", size, r.Cap(), cp)
		}
		w := &world{r: r, cap: cp}
		p := sim.GoNamed("producer", func() { w.produce(prod) })
		c := sim.GoNamed("consumer", func() { w.consume(cons) })
		for !sim.Join(sim.Abs(sim.Now()+horizon+100*ms+2*sim.Injected()), p, c) && sim.Busy() {
		}
		if !sim.Join(sim.Abs(sim.Now()+100*ms+horizon+2*sim.Injected()), p, c) {
			return // still stalled
		}
		w.inj = true
		if reset {
			w.reset()
			return
		}
		// whatever is left comes out
		for !w.r.Empty() {
			w.get(w.r.Pop(), "pop")
		}
		if n := w.r.Len(); n != 0 {
			sim.Fail("length", "the length of the empty ring is %d", n)
		}
		if w.c < len(w.calls) {
			w.skip(len(w.calls))
		}
		w.unharmed()
	}
}

type world struct {
	r     Ring
	cap   uint64
	calls []call
	c, k  int // the next element expected: call and index
	inj   bool
	got   [][]int64 // what bulk reads gave, and
	was   [][]int64 // what it was then
}

// unharmed checks what bulk reads gave earlier.
func (w *world) unharmed() {
	for i, e := range w.got {
		for j, v := range e {
			if v != w.was[i][j] {
				sim.Fail("aliased", "an element that a bulk read gave as %#x has since become %#x", w.was[i][j], v)
			}
		}
	}
}

// reset empties the ring, which nobody else uses any more, and uses it afresh.
func (w *world) reset() {
	w.r.Reset()
	if n, a := w.r.Len(), w.r.Avail(); n != 0 || a != w.cap || !w.r.Empty() || w.r.Full() {
		sim.Fail("reset", "after a reset the length is %d, %d are available, empty is %v and full is %v", n, a, w.r.Empty(), w.r.Full())
	}
	if e := w.r.MPop(1); len(e) > 0 {
		sim.Fail("reset", "after a reset there still is %#x", e[0])
	}
	w.calls, w.c, w.k = append(w.calls, call{1, int(w.cap)}), len(w.calls), 0
	for i := 0; i < int(w.cap); i++ {
		w.r.Push(id(w.c, i))
	}
	for i := 0; i < int(w.cap); i++ {
		w.get(w.r.Pop(), "pop after a reset")
	}
	w.unharmed()
}

// tries runs an operation that may find no space or no element, and then panics.
func tries(f func()) (ok bool) {
	defer func() {
		if !ok {
			_ = recover()
		}
	}()
	f()
	return true
}

// id packs an element.
func id(c, k int) int64 { return int64(c)<<16 | int64(k) | 1<<40 }

// skip says that the rest of the calls before to is not in the ring.
func (w *world) skip(to int) {
	for w.c < to {
		if w.k < w.calls[w.c].least {
			sim.Fail("lost", "element %d of push %d (of %d elements, space for at least %d) never came out in its turn", w.k, w.c, w.calls[w.c].n, w.calls[w.c].least)
		}
		w.c, w.k = w.c+1, 0
	}
}

// get takes note of an element that came out.
func (w *world) get(v int64, by string) {
	if v>>40 != 1 {
		sim.Fail("invented", "%s gave %#x, which was never pushed", by, v)
	}
	c, k := int(v>>16)&0xffffff, int(v&0xffff)
	sim.Tracef("%s gives %d.%d", by, c, k)
	if c >= len(w.calls) || k >= w.calls[c].n {
		sim.Fail("invented", "%s gave element %d.%d, which was never pushed", by, c, k)
	}
	if c < w.c || c == w.c && k < w.k {
		sim.Fail("duplicate", "%s gave element %d.%d again or too late (next is %d.%d)", by, c, k, w.c, w.k)
	}
	if c > w.c {
		w.skip(c)
	}
	if k != w.k {
		sim.Fail("lost", "%s gave element %d.%d, and %d.%d before it never came out", by, c, k, w.c, w.k)
	}
	w.k++
}

func (w *world) space(b bool) uint64 {
	if b {
		n := w.r.Avail()
		if n > w.cap {
			sim.Fail("length", "%d elements are available in a ring of %d", n, w.cap)
		}
		return n
	}
	if w.r.Full() {
		return 0
	}
	return 1
}

func (w *world) held(b bool) uint64 {
	if b {
		n := w.r.Len()
		if n > w.cap {
			sim.Fail("length", "the length of a ring of %d is %d", w.cap, n)
		}
		return n
	}
	if w.r.Empty() {
		return 0
	}
	return 1
}

func wait(o Op) {
	if o.W > 0 {
		sim.Sleep(o.W)
	}
}

func (w *world) produce(ops []Op) {
	for _, o := range ops {
		wait(o)
		seen := w.space(o.B)
		switch o.K {
		case "push":
			if o.X && seen == 0 {
				w.calls = append(w.calls, call{1, 1})
				n := len(w.calls) - 1
				if !tries(func() { w.r.Push(id(n, 0)) }) {
					sim.Probe("push refused")
					w.calls[n] = call{}
				}
				break
			}
			if seen == 0 {
				break
			}
			for i := 0; i < max(1, o.N) && uint64(i) < seen; i++ {
				w.calls = append(w.calls, call{1, 1})
				sim.Tracef("push %d", len(w.calls)-1)
				w.r.Push(id(len(w.calls)-1, 0))
			}
		case "mpush":
			least := min(uint64(o.N), seen)
			w.calls = append(w.calls, call{int(least), o.N})
			e := make([]int64, o.N)
			for i := range e {
				e[i] = id(len(w.calls)-1, i)
			}
			sim.Tracef("mpush %d of %d, at least %d", len(w.calls)-1, o.N, least)
			w.r.MPush(e...)
			for i := range e {
				e[i] = -7
			}
		case "len":
			w.held(true)
		}
	}
}

func (w *world) consume(ops []Op) {
	for _, o := range ops {
		wait(o)
		seen := w.held(o.B)
		switch o.K {
		case "pop":
			if o.X && seen == 0 {
				v := int64(0)
				if tries(func() { v = w.r.Pop() }) {
					w.get(v, "pop")
				} else {
					sim.Probe("pop refused")
				}
			}
			for i := 0; i < max(1, o.N) && uint64(i) < seen; i++ {
				w.get(w.r.Pop(), "pop")
			}
		case "peek":
			if v := int64(0); o.X && seen == 0 {
				if tries(func() { v = w.r.Peek() }) {
					if v2 := w.r.Pop(); v != v2 {
						sim.Fail("peek", "peek showed %#x and pop gave %#x", v, v2)
					}
					w.get(v, "pop")
				} else {
					sim.Probe("peek refused")
				}
			}
			if seen > 0 {
				v := w.r.Peek()
				sim.Yield()
				if v2 := w.r.Pop(); v != v2 {
					sim.Fail("peek", "peek showed %#x and pop gave %#x", v, v2)
				} else {
					w.get(v2, "pop")
				}
			}
		case "mpop":
			e := w.r.MPop(uint64(o.N))
			if len(e) > o.N {
				sim.Fail("too-many", "a bulk read of %d gave %d elements", o.N, len(e))
			}
			if uint64(len(e)) < min(uint64(o.N), seen) {
				sim.Fail("too-few", "a bulk read of %d gave %d elements although %d were there", o.N, len(e), seen)
			}
			for _, v := range e {
				w.get(v, "mpop")
			}
			w.got, w.was = append(w.got, e), append(w.was, append([]int64(nil), e...))
		case "copy":
			d := make([]int64, o.N, o.N+3)
			full := d[:cap(d)]
			for i := range full {
				full[i] = -1
			}
			w.r.MPopCopy(d)
			n := 0
			for n < len(full) && full[n] != -1 {
				n++
			}
			for _, v := range full[n:] {
				if v != -1 {
					sim.Fail("hole", "a copying read left a hole in its destination")
				}
			}
			if n > o.N {
				sim.Fail("too-many", "a copying read into %d elements wrote %d", o.N, n)
			}
			if uint64(n) < min(uint64(o.N), seen) {
				sim.Fail("too-few", "a copying read into %d elements wrote %d although %d were there", o.N, n, seen)
			}
			for _, v := range full[:n] {
				w.get(v, "mpopcopy")
			}
		case "len":
			w.space(true)
		}
	}
}

// Gen makes a workload.
func Gen(g *run.G, c *sim.Config) []Op {
	g.Stalls(c, 0.3, 100, 1e3, 20e3)
	size := run.Pick(g, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 16)
	if g.P(0.003) {
		size = run.Pick(g, 100, 256, 1000, 1025, 3000)
	}
	ops := []Op{{K: "cap", N: size}}
	amount := func() int {
		return run.Pick(g, 0, 1, 2, 3, size, size+1, size-1, size/2+1, 2*size, g.Range(0, 2*size))
	}
	w := func() int64 {
		if g.P(0.85) {
			return 0
		}
		return run.Pick(g, int64(10), 300, 2000, 20e3)
	}
	style := g.Weighted(3, 1, 1)
	for k := g.Range(2, 16); k > 0; k-- {
		o := Op{P: true, W: w(), B: g.P(0.6), N: amount(), X: g.P(0.4)}
		switch style {
		case 0:
			o.K = run.Pick(g, "push", "push", "mpush", "mpush", "len")
		case 1:
			o.K = "push"
		default:
			o.K = "mpush"
		}
		ops = append(ops, o)
	}
	style = g.Weighted(4, 1, 1, 1)
	for k := g.Range(2, 16); k > 0; k-- {
		o := Op{W: w(), B: g.P(0.6), N: amount(), X: g.P(0.4)}
		switch style {
		case 0:
			o.K = run.Pick(g, "pop", "pop", "peek", "mpop", "mpop", "copy", "copy", "len")
		case 1:
			o.K = "pop"
		case 2:
			o.K = "mpop"
		default:
			o.K = "copy"
		}
		ops = append(ops, o)
	}
	if g.P(0.15) {
		ops = append(ops, Op{K: "reset"})
	}
	return ops
}

// Rule describes the workloads.
const Rule = "A workload is a ring of capacity 1 to 16 (sometimes 100 to 3000), a producer and a consumer, each running two to sixteen single, bulk and copying operations after looking at the space or the length."

// Stub lists what is simulated.
var Stub = []string{"goroutine scheduler with a scheduling point at every memory access", "sync/atomic"}
