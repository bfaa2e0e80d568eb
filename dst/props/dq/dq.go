// Package dq drives the delay queue for the properties C06 to C08.
package dq

import (
	"fmt"
	"math"
	"sort"
	stdtime "time"

	"dst/run"
	"dst/sim"
	ctxt "dst/x/xcontext"

	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	_ "github.com/ahKevinXy/go-web-tools/dstsites"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// Op is one step of one actor.
type Op struct {
	T int    `json:"t"`           // actor
	K string `json:"k"`           // push pop peek empty take chan
	W int64  `json:"w,omitempty"` // ns to wait first
	D int64  `json:"d,omitempty"` // push: delay
	C int64  `json:"c,omitempty"` // take, chan: cancel after C ns (0: never, -1: before the call)
	N int    `json:"n,omitempty"` // chan: buffer size; push: how many
	G int64  `json:"g,omitempty"` // chan: pause between receives
}

type push struct {
	id             int
	delay          int64
	callS, retS    uint64
	callT, retT    int64
	done           bool
	got            int
	outCallS, outS uint64 // the removal's interval
	outT           int64
	by             string
}

func (p *push) dueMin() int64 { return sim.After(p.callT, p.delay) }
func (p *push) dueMax() int64 { return sim.After(p.retT, p.delay) }

type rem struct {
	k           string
	callS, retS uint64
	callT, retT int64
	id          int
	ok          bool
	done        bool
	cancelT     int64 // time of cancellation, 0 none
	task        *sim.Task
}

// Checks says what a property's check judges.
type Checks struct{ Safety, Wake, Cancel bool }

func slack() int64 { return 60*ms + sim.Injected() + sim.Worked() }

// Body runs a workload.
func Body(ck Checks) func(ops []Op) {
	return func(ops []Op) { (&world{ck: ck, q: delayqueue.New[int](), pushes: map[int]*push{}}).run(ops) }
}

type world struct {
	ck     Checks
	q      *delayqueue.DelayQueue[int]
	pushes map[int]*push
	order  []*push
	rems   []*rem
	nextID int
	root   ctxt.Context
	busy   map[string]int
}

func (w *world) fail(class, f string, a ...any) { sim.Fail(class, f, a...) }

func dur(ns int64) string { return stdtime.Duration(ns).String() }

func (w *world) push(delay int64) {
	p := &push{id: w.nextID, delay: delay}
	w.nextID++
	w.pushes[p.id] = p
	w.order = append(w.order, p)
	p.callT, p.callS = sim.Now(), sim.Seq()
	sim.Tracef("push #%d delay %s", p.id, dur(delay))
	w.q.Push(p.id, stdtime.Duration(delay))
	p.retT, p.retS = sim.Now(), sim.Seq()
	p.done = true
}

// got records that an element was handed out.
func (w *world) got(id int, by string, callS uint64) {
	p := w.pushes[id]
	now := sim.Now()
	sim.Tracef("%s handed out #%d", by, id)
	if p == nil {
		w.fail("invented", "%s handed out element #%d, which nobody pushed", by, id)
	}
	if p.got++; p.got > 1 {
		w.fail("duplicate", "%s handed out element #%d, which %s had handed out before", by, id, p.by)
	}
	p.by, p.outCallS, p.outS, p.outT = by, callS, sim.Seq(), now
	if now < p.dueMin() {
		w.fail("early", "%s handed out element #%d (pushed at %s with delay %s) at %s: %s early", by, id, dur(p.callT), dur(p.delay), dur(now), dur(p.dueMin()-now))
	}
}

func (w *world) op(o Op) {
	if o.W > 0 {
		sim.Sleep(o.W)
	}
	switch o.K {
	case "push":
		n := o.N
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			w.push(o.D)
		}
	case "pop", "peek":
		r := &rem{k: o.K, callT: sim.Now(), callS: sim.Seq(), task: sim.Cur()}
		w.rems = append(w.rems, r)
		if o.K == "pop" {
			r.id, r.ok = w.q.Pop()
		} else {
			r.id, r.ok = w.q.Peek()
		}
		r.retT, r.retS, r.done = sim.Now(), sim.Seq(), true
		if r.ok && o.K == "pop" {
			w.got(r.id, "pop", r.callS)
		}
	case "empty":
		r := &rem{k: "empty", callT: sim.Now(), callS: sim.Seq(), task: sim.Cur()}
		w.rems = append(w.rems, r)
		r.ok = w.q.Empty()
		r.retT, r.retS, r.done = sim.Now(), sim.Seq(), true
	case "take":
		w.take(o.C, w.root)
	case "chan":
		w.channel(o)
	}
}

func (w *world) canceller(c int64, parent ctxt.Context, mark func()) ctxt.Context {
	if c == 0 {
		return parent
	}
	ctx, cancel := ctxt.WithCancel(parent)
	if c < 0 {
		mark()
		cancel()
		return ctx
	}
	sim.GoNamed("canceller", func() {
		sim.Sleep(c)
		mark()
		cancel()
		sim.Probe("cancelled")
	})
	return ctx
}

func (w *world) take(c int64, parent ctxt.Context) (int, bool) {
	r := &rem{k: "take", task: sim.Cur()}
	ctx := w.canceller(c, parent, func() { r.cancelT = sim.Now() + 1 })
	r.callT, r.callS = sim.Now(), sim.Seq()
	w.rems = append(w.rems, r)
	r.id, r.ok = w.q.Take(ctx)
	r.retT, r.retS, r.done = sim.Now(), sim.Seq(), true
	if r.ok {
		w.got(r.id, "take", r.callS)
	} else {
		sim.Tracef("take failed")
		if r.cancelT == 0 && parent.Err() == nil {
			w.fail("take-failed", "a take whose context was not cancelled returned without an element")
		}
	}
	return r.id, r.ok
}

func (w *world) channel(o Op) {
	r := &rem{k: "chan", task: sim.Cur()}
	ctx := w.canceller(o.C, w.root, func() { r.cancelT = sim.Now() + 1 })
	r.callT, r.callS = sim.Now(), sim.Seq()
	w.rems = append(w.rems, r)
	ch := w.q.Channel(ctx, o.N)
	rx := []uint64{}
	for {
		rx = append(rx, sim.Seq())
		v, ok := sim.Rcv(0, ch).Recv2()
		if !ok {
			break
		}
		// element i was taken after the receive of element i-1-N had begun
		call := r.callS
		if k := len(rx) - 2 - o.N; k >= 0 {
			call = rx[k]
		}
		w.got(v, "channel", call)
		if o.G > 0 {
			sim.Sleep(o.G)
		}
	}
	r.retT, r.retS, r.done = sim.Now(), sim.Seq(), true
	if r.cancelT == 0 && w.root.Err() == nil {
		w.fail("channel-closed", "an output channel was closed although its context was not cancelled")
	}
}

func (w *world) run(ops []Op) {
	root, cancelRoot := ctxt.WithCancel(ctxt.Background())
	w.root = root
	by := map[int][]Op{}
	var ids []int
	horizon := int64(0)
	for _, o := range ops {
		if by[o.T] == nil {
			ids = append(ids, o.T)
		}
		by[o.T] = append(by[o.T], o)
		horizon += o.W + o.G*int64(len(ops))
		if o.D > 0 && o.D < sim.Eternity {
			horizon += o.D
		}
		if o.C > 0 {
			horizon += o.C
		}
	}
	sort.Ints(ids)
	var tasks []*sim.Task
	for _, t := range ids {
		list := by[t]
		tasks = append(tasks, sim.GoNamed(fmt.Sprint("actor", t), func() {
			for _, o := range list {
				w.op(o)
			}
		}))
	}
	// every element becomes due
	sim.Join(sim.Abs(sim.Now()+horizon+sec), tasks...)
	w.allDue()
	sim.Calm()
	end := sim.Abs(sim.Now() + slack() + 10*ms)
	sim.Join(end, tasks...)
	w.blocked()
	w.starving()
	w.latency()
	// end every wait
	rootAt := sim.Now()
	cancelRoot()
	if !sim.Join(sim.Abs(sim.Now()+slack()+horizon), tasks...) {
		w.blocked()
		for _, r := range w.rems {
			if !r.done && (r.k == "take" || r.k == "chan") && sim.Now() > max(rootAt, r.callT)+slack() {
				w.fail("cancel-ignored", "a %s is still waiting %s after its context was cancelled (%s)", r.k, dur(sim.Now()-rootAt), r.task.Why())
			}
		}
	}
	w.cancels(rootAt)
	w.allDue()
	// the queue still works
	final := sim.GoNamed("final", func() {
		w.push(2 * ms)
		w.push(-ms)
		ctx, cancel := ctxt.WithCancel(ctxt.Background())
		w.take(0, ctx)
		cancel()
		sim.Sleep(5 * ms)
		for {
			s := sim.Seq()
			id, ok := w.q.Pop()
			if !ok {
				break
			}
			w.got(id, "pop", s)
		}
		left := 0
		for _, p := range w.order {
			if p.delay >= sim.Eternity {
				left++
			}
		}
		if w.q.Empty() != (left == 0) {
			w.fail("empty-wrong", "every element that was due has been removed and %d others are left, but whether the queue is empty is answered with %v", left, left > 0)
		}
		if id, ok := w.q.Peek(); ok != (left > 0) || ok && w.pushes[id].delay < sim.Eternity {
			w.fail("peek-wrong", "every element that was due has been removed and %d others are left, but peek shows %v, element #%d", left, ok, id)
		}
	})
	if !sim.Join(sim.Abs(sim.Now()+slack()+horizon), final) {
		w.fail("blocked", "after every waiter was cancelled, a push, take, pop, peek or empty check does not complete: %s", final.Why())
	}
	for _, p := range w.order {
		if p.got == 0 && p.delay < sim.Eternity {
			w.fail("lost", "element #%d, pushed at %s with delay %s, was never handed out", p.id, dur(p.callT), dur(p.delay))
		}
	}
	if w.ck.Safety {
		w.safety()
	}
}

// allDue waits until everything pushed so far is due.
func (w *world) allDue() {
	last := int64(0)
	for _, p := range w.order {
		if p.done && p.delay < sim.Eternity {
			last = max(last, p.dueMax()+ms)
		}
	}
	sim.SleepUntil(sim.Abs(last))
}

// blocked: pushes, pops, peeks and emptiness checks never block for long.
func (w *world) blocked() {
	for _, p := range w.order {
		if !p.done && sim.Now() > p.callT+slack() {
			w.fail("blocked", "the push of element #%d has not returned after %s; tasks: %s", p.id, dur(sim.Now()-p.callT), sim.DescribeTasks())
		}
	}
	for _, r := range w.rems {
		if !r.done && r.k != "take" && r.k != "chan" && sim.Now() > r.callT+slack() {
			w.fail("blocked", "a %s has not returned after %s; tasks: %s", r.k, dur(sim.Now()-r.callT), sim.DescribeTasks())
		}
		if !r.done && r.cancelT > 0 && sim.Now() > max(r.cancelT, r.callT)+slack() {
			w.fail("cancel-ignored", "a %s is still waiting %s after its context was cancelled (%s)", r.k, dur(sim.Now()-r.cancelT), r.task.Why())
		}
	}
}

// starving: at the horizon everything is due; nobody may still wait beside it.
func (w *world) starving() {
	var left *push
	for _, p := range w.order {
		if p.done && p.got == 0 && p.dueMax() < sim.Now()-slack() {
			left = p
		}
	}
	if left == nil {
		return
	}
	for _, r := range w.rems {
		if !r.done && r.k == "take" && r.cancelT == 0 && r.callT < sim.Now()-slack() {
			w.fail("lost-wakeup", "a take has been waiting for %s although element #%d has been due for %s", dur(sim.Now()-r.callT), left.id, dur(sim.Now()-left.dueMax()))
		}
	}
}

func max(a ...int64) int64 {
	m := a[0]
	for _, x := range a[1:] {
		if x > m {
			m = x
		}
	}
	return m
}

// latency: while a take waits, a due element does not stay in the queue.
func (w *world) latency() {
	sl := slack()
	for _, p := range w.order {
		if !p.done {
			continue
		}
		out := p.outT
		if p.got == 0 {
			out = sim.Now()
		}
		for _, r := range w.rems {
			if r.k != "take" {
				continue
			}
			end := r.retT
			if !r.done {
				end = sim.Now()
			}
			if r.cancelT > 0 && r.cancelT < end {
				end = r.cancelT
			}
			t0 := max(p.dueMax(), r.callT, p.retT)
			if p.got > 0 && p.by == "channel" {
				continue // it was out of the queue before its consumer got it
			}
			if end > t0+sl && out > t0+sl {
				w.fail("late", "element #%d (due at %s) was in the queue, and a take was waiting, from %s to %s, and the take did not return", p.id, dur(p.dueMax()), dur(t0), dur(min(end, out)))
			}
		}
	}
}

func (w *world) cancels(rootAt int64) {
	for _, r := range w.rems {
		if r.k != "take" || r.cancelT == 0 || !r.done {
			continue
		}
		if r.retT > max(r.cancelT, r.callT)+slack() {
			w.fail("cancel-slow", "a take returned only %s after its context was cancelled", dur(r.retT-r.cancelT))
		}
	}
}

// safety: order, peeks and emptiness over the whole history.
func (w *world) safety() {
	inThroughout := func(p *push, c, r uint64) bool {
		return p.done && p.retS < c && (p.got == 0 || p.outCallS > r)
	}
	possiblyIn := func(p *push, c, r uint64) bool { return p.callS < r && (p.got == 0 || p.outS > c) }
	for _, p := range w.order {
		if p.got == 0 {
			continue
		}
		for _, y := range w.order {
			if y != p && y.dueMax() < p.dueMin() && inThroughout(y, p.outCallS, p.outS) {
				w.fail("order", "%s handed out element #%d (due %s) while element #%d, due %s, was in the queue all along", p.by, p.id, dur(p.dueMin()), y.id, dur(y.dueMax()))
			}
		}
	}
	for _, r := range w.rems {
		if !r.done {
			continue
		}
		switch {
		case r.k == "peek" && r.ok:
			p := w.pushes[r.id]
			if p == nil {
				w.fail("peek-wrong", "peek shows element #%d, which nobody pushed", r.id)
			}
			if !possiblyIn(p, r.callS, r.retS) {
				w.fail("peek-wrong", "peek shows element #%d, which was not in the queue", r.id)
			}
			for _, y := range w.order {
				if y != p && y.dueMax() < p.dueMin() && inThroughout(y, r.callS, r.retS) {
					w.fail("peek-wrong", "peek shows element #%d while the earlier-due element #%d was in the queue", p.id, y.id)
				}
			}
		case r.k == "peek" || r.k == "empty" && r.ok:
			for _, y := range w.order {
				if inThroughout(y, r.callS, r.retS) {
					w.fail("empty-wrong", "%s says the queue is empty while element #%d was in it", r.k, y.id)
				}
			}
		case r.k == "empty":
			any := false
			for _, y := range w.order {
				any = any || possiblyIn(y, r.callS, r.retS)
			}
			if !any {
				w.fail("empty-wrong", "the queue says it is not empty while nothing can have been in it")
			}
		case r.k == "pop" && !r.ok:
			for _, y := range w.order {
				if inThroughout(y, r.callS, r.retS) && y.dueMax() < r.callT {
					w.fail("pop-missed", "a pop returned nothing while element #%d, due %s earlier, was in the queue", y.id, dur(r.callT-y.dueMax()))
				}
			}
		}
	}
}

// Shape tunes the generator.
type Shape struct {
	Takers, Cancel, Chans, Probes float64
	Bulk                          bool
}

// Gen makes a workload generator.
func Gen(sh Shape) func(g *run.G, c *sim.Config) []Op {
	return func(g *run.G, c *sim.Config) []Op {
		g.Stalls(c, 0.35, 1e3, 50e3, 2*ms, 40*ms, 400*ms)
		g.Leaps(c, 0.2, 10e3, 3*ms, 300*ms)
		g.WallSteps(c, 0.2, -3600*sec, -2*ms, 5*ms, 7200*sec)
		var ops []Op
		delays := [][]int64{{0, -ms, 1, 1000}, {ms, 2 * ms, 3 * ms, 5 * ms}, {300 * ms, 600 * ms, 900 * ms, 2 * sec}, {3600 * sec, ms, 0, 7200 * sec}}
		waits := []int64{0, 0, 0, 500, 20e3, ms, 2 * ms, 300 * ms, sec}
		tight := g.P(0.4)
		wait := func() int64 {
			if tight {
				return run.Pick(g, int64(0), 0, 200, 2000)
			}
			return run.Pick(g, waits...)
		}
		ds := delays[g.Intn(len(delays))]
		delay := func() int64 {
			d := run.Pick(g, ds...)
			if g.P(0.3) {
				d = run.Pick(g, delays[g.Intn(len(delays))]...)
			}
			if g.P(0.01) {
				d = run.Pick(g, int64(math.MaxInt64), math.MaxInt64-1, math.MaxInt64/2, math.MinInt64, math.MinInt64/2, 20*366*86400*sec)
			}
			return d
		}
		cancel := func() int64 {
			if !g.P(sh.Cancel) {
				return 0
			}
			return run.Pick(g, int64(-1), 1, 300, 20e3, ms, ms, 2*ms, 300*ms, 600*ms)
		}
		actors := g.Range(2, 5)
		// takers first, so that they often wait before anything is pushed
		t := 0
		for i := 0; i < actors; i++ {
			t++
			switch {
			case g.P(sh.Takers):
				for k := g.Range(1, 4); k > 0; k-- {
					ops = append(ops, Op{T: t, K: "take", W: wait(), C: cancel()})
				}
			case g.P(sh.Chans):
				ops = append(ops, Op{T: t, K: "chan", W: wait(), C: cancel(), N: run.Pick(g, 0, 0, 1, 3), G: run.Pick(g, int64(0), 0, 1000, 5*ms)})
			default:
				for k := g.Range(1, 5); k > 0; k-- {
					if g.P(sh.Probes) {
						ops = append(ops, Op{T: t, K: run.Pick(g, "pop", "pop", "peek", "empty"), W: wait()})
					} else {
						ops = append(ops, Op{T: t, K: "push", W: wait(), D: delay()})
					}
				}
			}
		}
		t++
		for k := g.Range(1, 5); k > 0; k-- {
			ops = append(ops, Op{T: t, K: "push", W: wait(), D: delay()})
		}
		if sh.Bulk && g.P(0.1) {
			ops = append(ops, Op{T: t, K: "push", W: wait(), D: delay(), N: g.Range(10, 40)})
		}
		if sh.Bulk && g.P(0.003) {
			c.StepNs = 10
			for i := range ops {
				ops[i].G = min(ops[i].G, 1000)
			}
			for k := g.Range(1, 3); k > 0; k-- {
				ops = append(ops, Op{T: g.Range(1, t), K: "push", W: wait(), D: delay(), N: g.Range(40, 300)})
			}
		}
		return ops
	}
}

// Real and Stub list what ran.
var Real = []string{"common/timer/delayqueue (whole package)", "common/container/heap (whole package)"}
var Stub = []string{"goroutine scheduler", "channels and select", "sync.Mutex and sync/atomic", "time (clock, timers)", "context (reimplementation on the simulator)"}
