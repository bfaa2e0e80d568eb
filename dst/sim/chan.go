package sim

import (
	"runtime"
	"unsafe"
)

type chItem struct {
	v  any
	vc VC
}

type waiter struct {
	t    *Task
	v    any // value to send, or received
	ok   bool
	idx  int
	sel  *selState
	vc   VC
	send bool
}

type selState struct {
	done bool
	idx  int
	w    *waiter
	boom bool
}

// Chan is the simulated state of a channel.
type Chan struct {
	cap     int
	buf     []chItem
	slots   []VC // clock of the receive that last freed each slot
	sendN   int
	recvN   int
	closed  bool
	closeVC VC
	recvq   []*waiter
	sendq   []*waiter
	// timer channel with post-1.23 semantics: looks unbuffered
	Sync bool
}

type chanHdr struct{ p unsafe.Pointer }

func (s *Sim) chanOf(p unsafe.Pointer, n int) *Chan {
	if c, ok := s.chans[p]; ok {
		return c
	}
	c := &Chan{cap: n, slots: make([]VC, n)}
	s.chans[p] = c
	return c
}

func chOf[T any](ch <-chan T) *Chan {
	if ch == nil {
		return nil
	}
	return S.chanOf((*chanHdr)(unsafe.Pointer(&ch)).p, cap(ch))
}

func chOfS[T any](ch chan<- T) *Chan {
	if ch == nil {
		return nil
	}
	return S.chanOf((*chanHdr)(unsafe.Pointer(&ch)).p, cap(ch))
}

// State gives the simulated state of a channel to the x packages.
func State[T any](ch <-chan T) *Chan { return chOf(ch) }

func dequeue(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.done {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (s *Sim) wakeW(w *waiter) {
	w.sel.done = true
	w.sel.idx = w.idx
	w.sel.w = w
	s.makeRunnable(w.t)
}

// trySend sends without blocking, from the running task (vc is its clock), or
// from a timer. It reports whether it could.
func (s *Sim) trySend(c *Chan, v any, vc VC) bool {
	if w := dequeue(&c.recvq); w != nil {
		w.v, w.ok = v, true
		w.vc = vc
		s.wakeW(w)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, chItem{v, vc})
		return true
	}
	return false
}

func (s *Sim) sendReady(c *Chan) bool {
	return c.closed || hasWaiter(c.recvq) || len(c.buf) < c.cap
}

func (s *Sim) recvReady(c *Chan) bool {
	return len(c.buf) > 0 || hasWaiter(c.sendq) || c.closed
}

// doSend completes a ready send by the running task.
func (s *Sim) doSend(c *Chan, v any) {
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	t := s.cur
	if t.vc.get(t.ID) == 0 {
		s.tick(t)
	}
	if c.cap > 0 {
		t.vc.join(c.slots[c.sendN%c.cap])
		c.sendN++
	}
	// an unbuffered receiver's earlier steps happen before this send completes
	if c.cap == 0 {
		for _, w := range c.recvq {
			if !w.sel.done {
				t.vc.join(w.t.vc)
				break
			}
		}
	}
	vc := t.vc.clone()
	s.tick(t)
	if !s.trySend(c, v, vc) {
		panic("sim: send not ready")
	}
}

func (s *Sim) doRecv(c *Chan) (any, bool) {
	t := s.cur
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		t.vc.join(it.vc)
		if c.cap > 0 {
			s.release(&c.slots[c.recvN%c.cap])
			c.recvN++
		}
		if w := dequeue(&c.sendq); w != nil {
			vc := w.t.vc.clone()
			if c.cap > 0 {
				vc.join(c.slots[c.sendN%c.cap])
				w.vc = c.slots[c.sendN%c.cap].clone()
				c.sendN++
			}
			c.buf = append(c.buf, chItem{w.v, vc})
			s.tick(w.t)
			s.wakeW(w)
		}
		return it.v, true
	}
	if w := dequeue(&c.sendq); w != nil {
		if t.vc.get(t.ID) == 0 {
			s.tick(t)
		}
		t.vc.join(w.t.vc)
		w.vc = t.vc.clone()
		s.tick(t)
		s.tick(w.t)
		s.wakeW(w)
		return w.v, true
	}
	// closed
	t.vc.join(c.closeVC)
	return nil, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func (s *Sim) forever(why string) {
	for {
		s.block(why)
	}
}

// Sender is the sending end of a channel.
type Sender[T any] struct {
	c    *Chan
	site int
}

// Snd names a channel for sending.
func Snd[T any](site int, ch chan<- T) Sender[T] { return Sender[T]{chOfS(ch), site} }

// Send sends a value.
func (x Sender[T]) Send(v T) {
	s := S
	s.yield(x.site, false)
	if s.cur.killed {
		runtime.Goexit()
	}
	if x.c == nil {
		s.forever("send on nil channel")
	}
	if s.sendReady(x.c) {
		s.doSend(x.c, v)
		return
	}
	sel := &selState{}
	w := &waiter{t: s.cur, v: v, sel: sel, send: true}
	if s.cur.vc.get(s.cur.ID) == 0 {
		s.tick(s.cur)
	}
	x.c.sendq = append(x.c.sendq, w)
	for !sel.done {
		s.block("send on a channel")
	}
	if sel.boom {
		panic(plainError("send on closed channel"))
	}
	s.cur.vc.join(w.vc)
}

// Receiver is the receiving end of a channel.
type Receiver[T any] struct {
	c    *Chan
	site int
}

// Rcv names a channel for receiving.
func Rcv[T any](site int, ch <-chan T) Receiver[T] { return Receiver[T]{chOf(ch), site} }

// Recv receives a value.
func (x Receiver[T]) Recv() T { v, _ := x.Recv2(); return v }

// Recv2 receives a value and says whether the channel was open.
func (x Receiver[T]) Recv2() (T, bool) {
	s := S
	s.yield(x.site, false)
	if s.cur.killed {
		runtime.Goexit()
	}
	if x.c == nil {
		s.forever("receive from nil channel")
	}
	var v any
	var ok bool
	if s.recvReady(x.c) {
		v, ok = s.doRecv(x.c)
	} else {
		sel := &selState{}
		w := &waiter{t: s.cur, sel: sel}
		x.c.recvq = append(x.c.recvq, w)
		for !sel.done {
			s.block("receive from a channel")
		}
		s.cur.vc.join(w.vc)
		s.freeSlot(x.c)
		v, ok = w.v, w.ok
	}
	r, _ := v.(T)
	return r, ok
}

// freeSlot: a value handed straight to a waiting receiver used a slot too.
func (s *Sim) freeSlot(c *Chan) {
	if c.cap > 0 && c.recvN < c.sendN {
		s.release(&c.slots[c.recvN%c.cap])
		c.recvN++
	}
}

// Close closes a channel.
func Close[T any](site int, ch chan<- T) {
	s := S
	s.yield(site, false)
	if s.cur.killed {
		return
	}
	if ch == nil {
		panic(plainError("close of nil channel"))
	}
	c := chOfS(ch)
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	s.release(&c.closeVC)
	for w := dequeue(&c.recvq); w != nil; w = dequeue(&c.recvq) {
		w.v, w.ok, w.vc = nil, false, c.closeVC
		s.wakeW(w)
	}
	for w := dequeue(&c.sendq); w != nil; w = dequeue(&c.sendq) {
		w.sel.boom = true
		s.wakeW(w)
	}
}

// Len is len(ch).
func Len[T any](site int, ch <-chan T) int {
	if ch == nil {
		return 0
	}
	if S == nil {
		return 0
	}
	S.yield(site, true)
	c := chOf(ch)
	if c.Sync {
		return 0
	}
	return len(c.buf)
}

// Case is one case of a select.
type Case struct {
	c    *Chan
	send bool
	v    any
	ok   bool
	nilc bool
}

// SendC is a send case.
type SendC[T any] struct{ Case }

// RecvC is a receive case.
type RecvC[T any] struct{ Case }

// SendCase starts a send case; the value is set by Val.
func SendCase[T any](ch chan<- T) *SendC[T] {
	c := chOfS(ch)
	return &SendC[T]{Case{c: c, send: true, nilc: c == nil}}
}

// Val sets the value to send.
func (c *SendC[T]) Val(v T) *SendC[T] { c.v = v; return c }

// RecvCase starts a receive case.
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	c := chOf(ch)
	return &RecvC[T]{Case{c: c, nilc: c == nil}}
}

// Get gives the received value.
func (c *RecvC[T]) Get() T { v, _ := c.v.(T); return v }

// Get2 gives the received value and whether the channel was open.
func (c *RecvC[T]) Get2() (T, bool) { v, _ := c.v.(T); return v, c.ok }

func (c *Case) base() *Case { return c }

// ACase is any case.
type ACase interface{ base() *Case }

// Select picks a case; -1 is the default case.
func Select(site int, hasDefault bool, cases ...ACase) int {
	s := S
	s.yield(site, false)
	if s.cur.killed {
		runtime.Goexit()
	}
	var ready []int
	for i, a := range cases {
		c := a.base()
		if c.nilc {
			continue
		}
		if c.send && s.sendReady(c.c) || !c.send && s.recvReady(c.c) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[Choose(len(ready), "select")]
		c := cases[k].base()
		if c.send {
			s.doSend(c.c, c.v)
		} else {
			c.v, c.ok = s.doRecv(c.c)
		}
		return k
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	if s.cur.vc.get(s.cur.ID) == 0 {
		s.tick(s.cur)
	}
	n := 0
	for i, a := range cases {
		c := a.base()
		if c.nilc {
			continue
		}
		n++
		w := &waiter{t: s.cur, v: c.v, idx: i, sel: sel, send: c.send}
		if c.send {
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	for !sel.done {
		s.block("select")
	}
	for _, a := range cases {
		if c := a.base(); !c.nilc {
			c.c.recvq = prune(c.c.recvq)
			c.c.sendq = prune(c.c.sendq)
		}
	}
	c := cases[sel.idx].base()
	if c.send {
		if sel.boom {
			panic(plainError("send on closed channel"))
		}
		s.cur.vc.join(sel.w.vc)
	} else {
		s.cur.vc.join(sel.w.vc)
		s.freeSlot(c.c)
		c.v, c.ok = sel.w.v, sel.w.ok
	}
	return sel.idx
}

func prune(q []*waiter) []*waiter {
	out := q[:0]
	for _, w := range q {
		if !w.sel.done {
			out = append(out, w)
		}
	}
	return out
}

// ChanIter is a range over a channel.
type ChanIter[T any] struct{ r Receiver[T] }

// ChanRange starts a range over a channel.
func ChanRange[T any](site int, ch <-chan T) (*ChanIter[T], T) {
	var v T
	return &ChanIter[T]{Rcv(site, ch)}, v
}

// Next receives the next value.
func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := it.r.Recv2()
	if ok && v != nil {
		*v = x
	}
	return ok
}

// ---- for the x packages ----

// TimerSend is a non-blocking send from a timer.
func (c *Chan) TimerSend(v any, vc VC) {
	if !c.closed {
		if c.cap > 0 && (len(c.buf) < c.cap || hasWaiter(c.recvq)) {
			c.sendN++
		}
		S.trySend(c, v, vc)
	}
}

// Drain empties a timer channel's buffer and reports whether it held a value.
func (c *Chan) Drain() bool {
	n := len(c.buf)
	c.recvN += n
	c.buf = nil
	return n > 0
}

// TimerH is a pending simulator timer.
type TimerH = timerEv

// AddTimer arms a timer at monotonic time at (ns since the start).
func AddTimer(at int64, f func()) *TimerH {
	S.timerSet++
	e := S.addTimer(at+monoBase, f)
	e.lib = true
	return e
}

// DelTimer disarms it.
func DelTimer(e *TimerH) bool { return S.delTimer(e) }

// SpawnFromTimer starts a task from a timer callback.
func SpawnFromTimer(proc int, name string, vc VC, fn func()) {
	s := S
	if s.crashed[proc] {
		return
	}
	t := s.newTask(name, proc, fn)
	if name == "" {
		t.Name = "timer-func"
	}
	t.vc = vc.clone()
	s.tick(t)
	s.makeRunnable(t)
}

// Snapshot is the running task's clock, for timers it arms.
func Snapshot() VC {
	t := S.cur
	if t.vc.get(t.ID) == 0 {
		S.tick(t)
	}
	v := t.vc.clone()
	S.tick(t)
	return v
}

// Proc is the running task's process group.
func Proc() int { return S.cur.Proc }

// WaitQ is a set of tasks waiting for a condition, for the x packages.
type WaitQ struct{ q []*Task }

// Wait parks the running task once; the caller re-checks its condition.
func (w *WaitQ) Wait(why string) {
	s := S
	me := s.cur
	w.q = append(w.q, me)
	s.block(why)
	for i, t := range w.q {
		if t == me {
			w.q = append(w.q[:i:i], w.q[i+1:]...)
			break
		}
	}
}

// WakeAll makes all waiters runnable.
func (w *WaitQ) WakeAll() {
	for _, t := range w.q {
		if t.state == tBlocked {
			S.makeRunnable(t)
		}
	}
	w.q = nil
}

// WakeOne makes the i-th waiter runnable.
func (w *WaitQ) WakeOne(i int) {
	t := w.q[i]
	w.q = append(w.q[:i:i], w.q[i+1:]...)
	if t.state == tBlocked {
		S.makeRunnable(t)
	}
}

// Len is the number of waiters.
func (w *WaitQ) Len() int { return len(w.q) }

// SyncPoint is a scheduling point of an x package operation; it reports
// whether the operation should really be simulated.
func SyncPoint(site int) bool {
	s := S
	if s == nil {
		return false
	}
	s.yield(site, false)
	return !s.cur.killed
}

// ClockRead counts a clock read and applies the configured granularity.
func ClockRead() (wall, mono int64) {
	s := S
	if s == nil {
		return wallBase, monoBase
	}
	s.yield(s.cur.site, true)
	s.clockRd++
	wall = wallBase + (s.mono - monoBase) + s.wallOff
	mono = s.mono
	if g := s.Cfg.Coarse; g > 1 {
		wall -= wall % g
		mono -= mono % g
	}
	return
}

// Kill makes a fatal runtime error of the code under test a violation.
func Fatal(msg string) { Fail("fatal", "fatal error: %s", msg) }

// TimerArmed counts a sleep as an armed timer.
func TimerArmed() { S.timerSet++ }

// AbsNow is the raw monotonic clock.
func AbsNow() int64 { return S.mono }
