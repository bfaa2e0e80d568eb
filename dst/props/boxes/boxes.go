// Package boxes drives the containers for property C35.
package boxes

import (
	"fmt"
	"sort"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xsync"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	rp "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	_ "github.com/ahKevinXy/go-web-tools/dstsites"
)

const ms = int64(1e6)

// Op is one step of one goroutine, or (T -1) the making of a container.
type Op struct {
	T int    `json:"t"`
	B int    `json:"b"` // container
	K string `json:"k,omitempty"`
	N int    `json:"n,omitempty"` // which operation
	I int    `json:"i,omitempty"` // element, index, size
	J int    `json:"j,omitempty"` // another
	V int    `json:"v,omitempty"` // value
	C int    `json:"c,omitempty"` // so many times, with other elements and values
	W int64  `json:"w,omitempty"` // container: 1 shared by all; step: wait first, while holding the lock
}

// box is a container with its model. write may change it; read may run side by
// side with other reads and gives nothing away by changing anything.
type box interface {
	write(o Op)
	read(o Op)
	drain()
}

func eq(what string, got, want any) {
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		sim.Fail("result", "%s gives %s instead of %s", what, g, w)
	}
}

// ---- list

type listBox struct {
	l, b   *list.List[int]
	m      []*list.Element[int]
	mb     []*list.Element[int]
	vals   map[*list.Element[int]]int
	gone   []*list.Element[int]
	lastID int
}

func newList(zero bool, v int) *listBox {
	x := &listBox{vals: map[*list.Element[int]]int{}}
	if zero {
		x.l, x.b = &list.List[int]{}, &list.List[int]{}
	} else {
		x.l, x.b = list.New[int](), list.New[int]()
	}
	for i := 0; i < v%3; i++ {
		x.mb = append(x.mb, x.b.PushBack(9000+i))
		x.vals[x.mb[i]] = 9000 + i
	}
	return x
}

func (x *listBox) at(i int) *list.Element[int] {
	if len(x.m) == 0 {
		return nil
	}
	return x.m[i%len(x.m)]
}

// foreign gives an element that is not in the list.
func (x *listBox) foreign(i int) *list.Element[int] {
	all := append(append([]*list.Element[int](nil), x.gone...), x.mb...)
	if len(all) == 0 {
		return nil
	}
	return all[i%len(all)]
}

func (x *listBox) put(at int, e *list.Element[int], v int) {
	if e == nil {
		sim.Fail("result", "an insertion into the list returned no element")
	}
	if _, old := x.vals[e]; old {
		sim.Fail("result", "an insertion into the list returned an element that exists already")
	}
	x.vals[e] = v
	x.m = append(x.m, nil)
	copy(x.m[at+1:], x.m[at:])
	x.m[at] = e
}

func (x *listBox) idx(e *list.Element[int]) int {
	for i, y := range x.m {
		if y == e {
			return i
		}
	}
	return -1
}

func (x *listBox) take(i int) *list.Element[int] {
	e := x.m[i]
	x.m = append(x.m[:i:i], x.m[i+1:]...)
	return e
}

func (x *listBox) write(o Op) {
	x.lastID++
	v := o.V*1000 + x.lastID
	e, f := x.at(o.I), x.at(o.J)
	switch o.N % 16 {
	case 0:
		x.put(len(x.m), x.l.PushBack(v), v)
	case 1:
		x.put(0, x.l.PushFront(v), v)
	case 2:
		if e != nil {
			x.put(x.idx(e), x.l.InsertBefore(v, e), v)
		}
	case 3:
		if e != nil {
			x.put(x.idx(e)+1, x.l.InsertAfter(v, e), v)
		}
	case 4:
		if e != nil {
			eq("List.Remove", x.l.Remove(e), x.vals[e])
			x.gone = append(x.gone, x.take(x.idx(e)))
		}
	case 5:
		if len(x.m) > 0 {
			eq("List.RemoveFront", x.l.RemoveFront(), x.vals[x.m[0]])
			x.gone = append(x.gone, x.take(0))
		}
	case 6:
		if n := len(x.m); n > 0 {
			eq("List.RemoveBack", x.l.RemoveBack(), x.vals[x.m[n-1]])
			x.gone = append(x.gone, x.take(n-1))
		}
	case 7:
		if e != nil {
			x.l.MoveToFront(e)
			x.take(x.idx(e))
			x.m = append([]*list.Element[int]{e}, x.m...)
		}
	case 8:
		if e != nil {
			x.l.MoveToBack(e)
			x.take(x.idx(e))
			x.m = append(x.m, e)
		}
	case 9:
		if e != nil {
			x.l.MoveBefore(e, f)
			if e != f {
				x.take(x.idx(e))
				x.insert(x.idx(f), e)
			}
		}
	case 10:
		if e != nil {
			x.l.MoveAfter(e, f)
			if e != f {
				x.take(x.idx(e))
				x.insert(x.idx(f)+1, e)
			}
		}
	case 11:
		if len(x.m) < 12 {
			src := x.values()
			x.l.PushBackList(x.l)
			x.adopt(append(append([]int(nil), src...), src...))
		}
	case 12:
		src := x.values()
		var other []int
		for _, e := range x.mb {
			other = append(other, x.vals[e])
		}
		if o.J%2 == 0 {
			x.l.PushFrontList(x.b)
			x.adopt(append(append([]int(nil), other...), src...))
		} else {
			x.l.PushBackList(x.b)
			x.adopt(append(append([]int(nil), src...), other...))
		}
	case 13:
		x.l.Clear()
		x.m = nil // the old elements must not be used any more
	case 14, 15:
		// elements of elsewhere leave the list alone
		g := x.foreign(o.I)
		if g == nil {
			break
		}
		switch o.J % 6 {
		case 0:
			eq("List.Remove of a foreign element", x.l.Remove(g), x.vals[g])
		case 1:
			eq("List.InsertBefore a foreign element", x.l.InsertBefore(v, g) == nil, true)
		case 2:
			eq("List.InsertAfter a foreign element", x.l.InsertAfter(v, g) == nil, true)
		case 3:
			x.l.MoveToFront(g)
			x.l.MoveToBack(g)
		case 4:
			if e != nil {
				x.l.MoveBefore(g, e)
				x.l.MoveAfter(g, e)
			}
		case 5:
			if e != nil {
				x.l.MoveBefore(e, g)
				x.l.MoveAfter(e, g)
			}
		}
	}
	x.whole()
}

func (x *listBox) insert(at int, e *list.Element[int]) {
	x.m = append(x.m, nil)
	copy(x.m[at+1:], x.m[at:])
	x.m[at] = e
}

func (x *listBox) values() (v []int) {
	for _, e := range x.m {
		v = append(v, x.vals[e])
	}
	return
}

// adopt takes the list's elements, which must have these values.
func (x *listBox) adopt(vals []int) {
	old := x.m
	x.m = nil
	e := x.l.Front()
	for _, v := range vals {
		if e == nil {
			sim.Fail("result", "the list ends before its model %v", vals)
		}
		if e.Value != v {
			sim.Fail("result", "the list has %d where its model %v has %d", e.Value, vals, v)
		}
		x.m = append(x.m, e)
		x.vals[e] = v
		e = e.Next()
	}
	for _, o := range old {
		if x.idx(o) < 0 {
			sim.Fail("result", "an element got lost when a list was added")
		}
	}
}

func (x *listBox) whole() {
	var f, b []int
	e := x.l.Front()
	for i := 0; e != nil && i < 5000; i++ {
		f = append(f, e.Value)
		e = e.Next()
	}
	e = x.l.Back()
	for i := 0; e != nil && i < 5000; i++ {
		b = append([]int{e.Value}, b...)
		e = e.Prev()
	}
	w := x.values()
	eq("the list from its front", f, w)
	eq("the list from its back", b, w)
	eq("List.Len", x.l.Len(), len(w))
	eq("List.Empty", x.l.Empty(), len(w) == 0)
}

func (x *listBox) read(o Op) {
	if o.N%4 != 0 {
		x.whole()
		return
	}
	if e := x.at(o.I); e != nil {
		i := x.idx(e)
		eq("Element.Value", e.Value, x.vals[e])
		if i+1 < len(x.m) {
			eq("Element.Next", e.Next() == x.m[i+1], true)
		} else {
			eq("Element.Next", e.Next() == nil, true)
		}
		if i > 0 {
			eq("Element.Prev", e.Prev() == x.m[i-1], true)
		} else {
			eq("Element.Prev", e.Prev() == nil, true)
		}
	} else {
		eq("List.Front", x.l.Front() == nil && x.l.Back() == nil, true)
	}
}

func (x *listBox) drain() {
	x.whole()
	n := len(x.m)
	for i := 0; i < n; i++ {
		eq("List.RemoveFront", x.l.RemoveFront(), x.vals[x.m[i]])
	}
	eq("List.Len", x.l.Len(), 0)
}

// ---- deque, stack, set

type dequeBox struct {
	d *deque.Deque[int]
	m []int
}

func (x *dequeBox) write(o Op) {
	switch o.N % 4 {
	case 0:
		x.d.PushFront(o.V)
		x.m = append([]int{o.V}, x.m...)
	case 1:
		x.d.PushBack(o.V)
		x.m = append(x.m, o.V)
	case 2:
		if len(x.m) > 0 {
			v := x.m[0]
			x.m = x.m[1:]
			eq("Deque.PopFront", x.d.PopFront(), v)
		}
	case 3:
		if n := len(x.m); n > 0 {
			v := x.m[n-1]
			x.m = x.m[:n-1]
			eq("Deque.PopBack", x.d.PopBack(), v)
		}
	}
}

func (x *dequeBox) read(o Op) {
	eq("Deque.Len", x.d.Len(), len(x.m))
	eq("Deque.Empty", x.d.Empty(), len(x.m) == 0)
}

func (x *dequeBox) drain() {
	for _, v := range x.m {
		eq("Deque.PopFront", x.d.PopFront(), v)
	}
	x.m = nil
	x.read(Op{})
}

// stack is what the stack package's type can do.
type stackI interface {
	Push(int)
	Pop() int
	Peek() int
	Len() int
	Empty() bool
}

type stackBox struct {
	s stackI
	m []int
}

func (x *stackBox) write(o Op) {
	if n := len(x.m); o.N%3 == 0 && n > 0 {
		v := x.m[n-1]
		x.m = x.m[:n-1]
		eq("Stack.Pop", x.s.Pop(), v)
	} else {
		x.s.Push(o.V)
		x.m = append(x.m, o.V)
	}
}

func (x *stackBox) read(o Op) {
	eq("Stack.Len", x.s.Len(), len(x.m))
	eq("Stack.Empty", x.s.Empty(), len(x.m) == 0)
	if n := len(x.m); n > 0 {
		eq("Stack.Peek", x.s.Peek(), x.m[n-1])
	}
}

func (x *stackBox) drain() {
	for len(x.m) > 0 {
		x.write(Op{})
	}
	x.read(Op{})
}

type setBox struct {
	s *set.Set[int]
	m map[int]bool
}

func (x *setBox) write(o Op) {
	if o.N%3 == 0 {
		x.s.Remove(o.V)
		delete(x.m, o.V)
	} else {
		x.s.Add(o.V)
		x.m[o.V] = true
	}
}

func (x *setBox) read(o Op) {
	eq("Set.Contains", x.s.Contains(o.V), x.m[o.V])
	eq("Set.Len", x.s.Len(), len(x.m))
	eq("Set.Empty", x.s.Empty(), len(x.m) == 0)
}

func (x *setBox) drain() {
	for _, v := range sim.Keys(x.m) {
		eq("Set.Contains", x.s.Contains(v), true)
		x.s.Remove(v)
		delete(x.m, v)
		x.read(Op{V: v})
	}
}

// ---- heaps

type item struct{ prio, id int }

// heapI is what the heaps have in common.
type heapI interface {
	Pop() *item
	Peek() *item
	Push(*item)
	Len() int
	Empty() bool
}

type heapBox struct {
	what string
	h    heapI
	m    map[*item]int // element -> priority
	next int
}

func (x *heapBox) least() int {
	least := int(^uint(0) >> 1)
	for _, p := range x.m {
		least = min(least, p)
	}
	return least
}

func (x *heapBox) min(op string, e *item) {
	p, ok := x.m[e]
	if !ok {
		sim.Fail("result", "%s.%s gives an element that is not in the heap", x.what, op)
	}
	if w := x.least(); p != w {
		sim.Fail("result", "%s.%s gives an element of priority %d although one of %d is there", x.what, op, p, w)
	}
}

func (x *heapBox) write(o Op) {
	n := o.N % 10
	if len(x.m) == 0 {
		n = 0
	}
	switch {
	case n <= 4:
		x.next++
		e := &item{o.V, x.next}
		x.h.Push(e)
		x.m[e] = o.V
	case n <= 6:
		e := x.h.Pop()
		x.min("Pop", e)
		delete(x.m, e)
	case n <= 8:
		r, ok := x.h.(interface{ Remove(int) *item })
		if !ok {
			break
		}
		i := o.I % len(x.m)
		if o.J%3 == 0 {
			i = 0
		}
		e := r.Remove(i)
		if i == 0 {
			x.min("Remove(0)", e)
		}
		if _, ok := x.m[e]; !ok {
			sim.Fail("result", "%s.Remove gives an element that is not in the heap", x.what)
		}
		delete(x.m, e)
	case n == 9:
		// the least element's value changes
		if f, ok := x.h.(interface{ Fix(int) }); ok {
			e := x.h.Peek()
			x.min("Peek", e)
			e.prio = o.V
			x.m[e] = o.V
			f.Fix(0)
		}
	}
	eq(x.what+".Len", x.h.Len(), len(x.m))
}

func (x *heapBox) read(o Op) {
	eq(x.what+".Len", x.h.Len(), len(x.m))
	eq(x.what+".Empty", x.h.Empty(), len(x.m) == 0)
	if len(x.m) > 0 {
		x.min("Peek", x.h.Peek())
	}
}

func (x *heapBox) drain() {
	for len(x.m) > 0 {
		x.write(Op{N: 5})
	}
	x.read(Op{})
}

type meapBox struct {
	h *meap.Meap[int, int]
	m map[int]int
}

func (x *meapBox) min(op string, e meap.Entry[int, int]) {
	p, ok := x.m[e.Key]
	if !ok || p != e.Value {
		sim.Fail("result", "Meap.%s gives %v although the heap holds %v", op, e, x.m)
	}
	for _, q := range x.m {
		if q < p {
			sim.Fail("result", "Meap.%s gives %v although %v has a smaller value", op, e, x.m)
		}
	}
}

func (x *meapBox) write(o Op) {
	switch n := o.N % 8; {
	case n <= 4:
		x.h.Push(o.I, o.V)
		x.m[o.I] = o.V
	case n <= 6:
		x.h.Remove(o.I)
		delete(x.m, o.I)
	default:
		if len(x.m) > 0 {
			e := x.h.Pop()
			x.min("Pop", e)
			delete(x.m, e.Key)
		}
	}
}

func (x *meapBox) read(o Op) {
	v, ok := x.h.Get(o.I)
	w, wok := x.m[o.I]
	eq("Meap.Get", fmt.Sprint(v, ok), fmt.Sprint(w, wok))
	eq("Meap.Contains", x.h.Contains(o.I), wok)
	eq("Meap.Len", x.h.Len(), len(x.m))
	eq("Meap.Empty", x.h.Empty(), len(x.m) == 0)
	if len(x.m) > 0 {
		e := x.h.Peek()
		x.min("Peek", e)
		v, ok := x.h.Get(e.Key)
		eq("Meap.Get", fmt.Sprint(v, ok), fmt.Sprint(e.Value, true))
	}
}

func (x *meapBox) drain() {
	for len(x.m) > 0 {
		e := x.h.Pop()
		x.min("Pop", e)
		delete(x.m, e.Key)
		eq("Meap.Contains", x.h.Contains(e.Key), false)
	}
	x.read(Op{})
}

type reapBox struct {
	h    *rp.Reap[item]
	all  []*rp.Entry[item]
	m    map[*rp.Entry[item]]item
	next int

	known map[*rp.Entry[item]]bool
}

func (x *reapBox) at(i int) *rp.Entry[item] {
	if len(x.all) == 0 {
		return nil
	}
	return x.all[i%len(x.all)]
}

func (x *reapBox) min(op string, v item) {
	ok := false
	for _, w := range x.m {
		if w.prio < v.prio {
			sim.Fail("result", "Reap.%s gives priority %d although %d is there", op, v.prio, w.prio)
		}
		ok = ok || v == w
	}
	if !ok {
		sim.Fail("result", "Reap.%s gives %v, which is not in the heap", op, v)
	}
}

func (x *reapBox) write(o Op) {
	x.next++
	v := item{o.V, x.next}
	e := x.at(o.I)
	switch n := o.N % 10; {
	case n <= 3 || e == nil:
		e = x.h.Push(v)
		if x.known[e] {
			sim.Fail("handle", "Reap.Push gives a handle that stands for another element already (one that may be removed)")
		}
		x.known[e] = true
		x.all = append(x.all, e)
		x.m[e] = v
	case n <= 5:
		_, there := x.m[e]
		eq("Reap.Remove", x.h.Remove(e), there)
		delete(x.m, e)
	case n <= 8:
		_, there := x.m[e]
		eq("Reap.SetValue", x.h.SetValue(e, v), there)
		if there {
			x.m[e] = v
		}
	default:
		if len(x.m) > 0 {
			x.pop()
		}
	}
	x.read(o)
}

func (x *reapBox) pop() {
	v := x.h.Pop()
	x.min("Pop", v)
	for _, e := range x.all {
		if x.m[e] == v {
			delete(x.m, e)
			break
		}
	}
}

func (x *reapBox) read(o Op) {
	eq("Reap.Len", x.h.Len(), len(x.m))
	eq("Reap.Empty", x.h.Empty(), len(x.m) == 0)
	if e := x.at(o.I); e != nil {
		if v, ok := x.m[e]; ok {
			eq("Entry.Value", e.Value(), v)
		}
	}
	if len(x.m) > 0 {
		x.min("Peek", x.h.Peek())
	}
}

func (x *reapBox) drain() {
	for len(x.m) > 0 {
		x.pop()
	}
	for _, e := range x.all {
		eq("Reap.Remove", x.h.Remove(e), false)
	}
	x.read(Op{})
}

// ---- growing ring

type ringBox struct {
	r    *unbounded.Ring[int]
	m    []int
	next int
	got  [][2][]int // what bulk reads gave, now and then
}

// refused says whether an operation that finds nothing panics.
func refused(f func()) (no bool) {
	defer func() {
		if !no {
			return
		}
		_ = recover()
	}()
	no = true
	f()
	no = false
	return
}

func (x *ringBox) take(n int) []int {
	n = min(n, len(x.m))
	v := append([]int(nil), x.m[:n]...)
	x.m = x.m[n:]
	return v
}

func (x *ringBox) write(o Op) {
	n := o.I % 6
	if o.J == 23 {
		n = 20 + o.V%300
	}
	switch o.N % 9 {
	case 0, 1, 2:
		x.next++
		x.r.Push(x.next)
		x.m = append(x.m, x.next)
	case 3:
		var vs []int
		for ; n > 0; n-- {
			x.next++
			vs = append(vs, x.next)
		}
		x.m = append(x.m, vs...)
		x.r.MPush(vs...)
		for i := range vs {
			vs[i] = -1 // the caller's again
		}
		for i := range vs {
			vs[i] = -7
		}
	case 4:
		if len(x.m) > 0 {
			eq("Ring.Pop", x.r.Pop(), x.take(1)[0])
		} else {
			eq("Ring.Pop of nothing refused", refused(func() { x.r.Pop() }), true)
			eq("Ring.Peek of nothing refused", refused(func() { x.r.Peek() }), true)
		}
	case 5:
		e, want := x.r.MPop(uint64(n)), x.take(n)
		eq("Ring.MPop", e, want)
		x.got = append(x.got, [2][]int{e, want})
	case 6:
		dst := make([]int, n, n+2)
		full := dst[:n+2]
		want := x.take(n)
		x.r.MPopCopy(dst)
		eq("Ring.MPopCopy", dst[:len(want)], want)
		for _, v := range full[len(want):] {
			eq("Ring.MPopCopy behind the elements", v, 0)
		}
	case 7:
		old := x.r.Cap()
		x.r.Grow(uint64(o.J % 20))
		if x.r.Cap() < old || x.r.Cap() < uint64(o.J%20) {
			sim.Fail("result", "Ring.Grow(%d) changes the capacity from %d to %d", o.J%20, old, x.r.Cap())
		}
	case 8:
		if o.J%4 == 0 {
			x.r.Reset()
			x.m = nil
		}
	}
	x.read(o)
}

func (x *ringBox) read(o Op) {
	n := uint64(len(x.m))
	eq("Ring.Len", x.r.Len(), n)
	eq("Ring.Empty", x.r.Empty(), n == 0)
	eq("Ring.Avail", x.r.Avail(), x.r.Cap()-n)
	eq("Ring.Full", x.r.Full(), x.r.Cap() == n)
	if n > 0 {
		eq("Ring.Peek", x.r.Peek(), x.m[0])
	}
}

func (x *ringBox) drain() {
	eq("Ring.MPop", x.r.MPop(uint64(len(x.m))+1), x.take(len(x.m)))
	x.read(Op{})
	for _, e := range x.got {
		eq("what Ring.MPop gave earlier", e[0], e[1])
	}
}

type kinds = func(v, w int) box

func less(a, b *item) bool { return a.prio < b.prio }

// ascending gives elements in order distinct values.
func ascending(h []*item, m map[*item]int) {
	for i, e := range h {
		e.prio = 2 * i
		m[e] = e.prio
	}
}

func initial(v int) (h []*item, m map[*item]int) {
	m = map[*item]int{}
	if v%2 == 0 {
		h = make([]*item, 0, v%5) // empty, not nil
	}
	n := v % 7
	if v > 33 {
		n = v
	}
	for i := 0; i < n; i++ {
		e := &item{v * (i + 3) % (5 + v/8), -1 - i}
		h = append(h, e)
		m[e] = e.prio
	}
	return
}

var made = map[string]kinds{
	"list":  func(v, w int) box { return newList(false, v) },
	"list0": func(v, w int) box { return newList(true, v) },
	"deque": func(v, w int) box { return &dequeBox{d: deque.New[int]()} },
	"stack": func(v, w int) box { return &stackBox{s: stack.New[int]()} },
	"set":   func(v, w int) box { return &setBox{s: set.New[int](), m: map[int]bool{}} },
	"heap": func(v, w int) box {
		h, m := initial(v)
		if v%3 != 0 || len(h) == 0 {
			return &heapBox{what: "Heap", h: heap.New(h, less), m: m}
		}
		// a sorted slice is a heap already, so that it is known where its elements are
		ascending(h, m)
		i := w % len(h)
		e := h[i]
		x := &heapBox{what: "Heap", h: heap.New(h, less), m: m}
		e.prio = w/len(h)%(2*len(h)+2) - 1
		m[e] = e.prio
		x.h.(*heap.Heap[*item]).Fix(i)
		return x
	},
	"heapn": func(v, w int) box {
		n := 2 + v%7
		x := &heapBox{what: fmt.Sprintf("HeapN(%d)", n), h: heap.NewN(n, less), m: map[*item]int{}}
		if v%3 != 0 || v == 0 {
			return x
		}
		// pushed in order, so that it is known where the elements are
		h, m := initial(v / 3)
		ascending(h, m)
		for _, e := range h {
			x.h.Push(e)
		}
		x.m = m
		if len(h) > 0 {
			i := w % len(h)
			e := h[i]
			e.prio = w/len(h)%(2*len(h)+2) - 1
			m[e] = e.prio
			x.h.(*heap.HeapN[*item]).Fix(i)
		}
		return x
	},
	"pqueue": func(v, w int) box {
		h, m := initial(v)
		return &heapBox{what: "PriorityQueue", h: pqueue.New(h, less), m: m}
	},
	"meap": func(v, w int) box {
		return &meapBox{h: meap.New(func(a, b meap.Entry[int, int]) bool { return a.Value < b.Value }), m: map[int]int{}}
	},
	"reap": func(v, w int) box {
		return &reapBox{h: rp.New(func(a, b item) bool { return a.prio < b.prio }), m: map[*rp.Entry[item]]item{}, known: map[*rp.Entry[item]]bool{}}
	},
	"ring": func(v, w int) box { return &ringBox{r: unbounded.New[int](uint64(v % 6))} },
}

// crowd says which operations fill a box and which empty it.
var crowd = map[string][2][]int{
	"list": {{0, 1}, {5, 6}}, "list0": {{0, 1}, {5, 6}}, "deque": {{0, 1}, {2, 3}}, "stack": {{1}, {3}}, "set": {{1}, {3}},
	"heap": {{0}, {5, 7}}, "heapn": {{0}, {5, 7}}, "pqueue": {{0}, {5, 7}}, "meap": {{0}, {7, 5}}, "reap": {{0}, {9, 4}}, "ring": {{0, 3}, {4, 5, 6}},
}

var names = func() (l []string) {
	for k := range made {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}()

// Body runs a workload.
func Body(ops []Op) {
	var boxes []box
	var guarded []bool
	var locks []*xsync.RWMutex
	by := map[int][]Op{}
	horizon := int64(0)
	for _, o := range ops {
		if o.T < 0 {
			boxes = append(boxes, made[o.K](o.V%40, o.V/40))
			guarded = append(guarded, o.W == 1)
			locks = append(locks, &xsync.RWMutex{})
			continue
		}
		horizon += o.W
		by[o.T] = append(by[o.T], o)
	}
	if len(boxes) == 0 {
		return
	}
	owner := map[int]int{}
	var ts []*sim.Task
	for t := 0; t < 10; t++ {
		list := by[t]
		if list == nil {
			continue
		}
		ts = append(ts, sim.GoNamed(fmt.Sprint("user", t), func() {
			for _, o := range list {
				b := o.B % len(boxes)
				shared := guarded[b]
				if !shared {
					// without a lock a container has one owner
					if w, ok := owner[b]; ok && w != t {
						b = -1
						for i := range boxes {
							if w, ok := owner[i]; !guarded[i] && (!ok || w == t) {
								b = i
								break
							}
						}
						if b < 0 {
							continue
						}
					}
					owner[b] = t
				}
				x, l := boxes[b], locks[b]
				write := o.K == "w"
				switch {
				case !shared:
				case write:
					l.Lock()
				default:
					l.RLock()
				}
				if o.W > 0 {
					sim.Sleep(o.W)
				}
				if write {
					for i := 0; i < max(o.C, 1); i++ {
						p := o
						if i > 0 {
							h := sim.Mix(uint64(o.I), uint64(i))
							p.I, p.J, p.V = int(h%4001), int(h>>20%2000), int(h>>40%5000)
						}
						x.write(p)
					}
				} else {
					x.read(o)
				}
				switch {
				case !shared:
				case write:
					l.Unlock()
				default:
					l.RUnlock()
				}
			}
		}))
	}
	for inj := int64(-1); inj != sim.Injected() || sim.Busy(); {
		inj = sim.Injected()
		if sim.Join(sim.Abs(sim.Now()+horizon+100*ms+sim.Injected()), ts...) {
			break
		}
	}
	for _, t := range ts {
		if !t.Done() {
			sim.Fail("blocked", "a container operation does not complete: %s", t.Why())
		}
	}
	for _, x := range boxes {
		x.drain()
	}
}

// Gen makes a workload.
func Gen(g *run.G, c *sim.Config) []Op {
	g.Schedule(c)
	g.Stalls(c, 0.1, 1e3, 50e3)
	var ops []Op
	nb := g.Range(1, 4)
	one := g.P(0.5)
	kind := names[g.Intn(len(names))]
	for b := 0; b < nb; b++ {
		o := Op{T: -1, B: b, K: kind, V: g.Intn(40000)}
		if !one {
			o.K = names[g.Intn(len(names))]
		}
		if b == 0 && nb == 1 || g.P(0.4) {
			o.W = 1
		}
		ops = append(ops, o)
	}
	if g.P(0.002) {
		// a box that has been very full
		c.MaxSteps = 2e8
		for b := 0; b < nb; b++ {
			ab := crowd[ops[b].K]
			for k := g.Range(1, 3); k > 0; k-- {
				for i, ns := range ab {
					o := Op{T: 1, B: b, K: "w", N: ns[g.Intn(len(ns))], I: g.Intn(1000), J: g.Intn(24), V: g.Intn(5000), C: run.Pick(g, 130, 300, 520, 1030)}
					if strings.HasPrefix(ops[b].K, "list") {
						o.C = 130
					}
					if i == 1 && g.P(0.3) {
						o.C /= 2
					}
					ops = append(ops, o)
					if g.P(0.5) {
						o.N, o.C = g.Intn(720), g.Range(1, 60)
						if ops[b].K == "ring" && o.N%9 == 7 {
							o.C = 1 // growing doubles
						}
						ops = append(ops, o)
					}
				}
			}
		}
		return ops
	}
	writes := run.Pick(g, 0.3, 0.6, 0.9)
	n := run.Pick(g, 4, 10, 25)
	wide := run.Pick(g, 3, 10, 50)
	if !one || nb == 1 {
		n *= 2
	}
	for t := g.Range(1, 4); t > 0; t-- {
		for k := g.Range(1, n); k > 0; k-- {
			o := Op{T: t, B: g.Intn(nb), K: "r", N: g.Intn(720), I: g.Intn(12), J: g.Intn(24), V: g.Intn(wide)}
			if g.P(writes) {
				o.K = "w"
			}
			if g.P(0.03) {
				o.W = run.Pick(g, int64(1), 1000)
			}
			ops = append(ops, o)
		}
	}
	return ops
}
