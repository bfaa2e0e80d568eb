// Package wheel drives the timing wheel for the properties C09 to C13.
package wheel

import (
	"fmt"
	"math"
	"sort"
	stdtime "time"

	"dst/run"
	"dst/sim"
	ctxt "dst/x/xcontext"

	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	_ "github.com/ahKevinXy/go-web-tools/dstsites"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// Op is one step of one actor.
type Op struct {
	T int     `json:"t"`           // actor
	K string  `json:"k"`           // wheel, after, sched, cancel
	W int64   `json:"w,omitempty"` // ns to wait first
	D int64   `json:"d,omitempty"` // after: delay; wheel: tick in ms; cancel: pause before the next run
	N int64   `json:"n,omitempty"` // wheel: buckets; after: further copies
	S []int64 `json:"s,omitempty"` // after, sched: stop so long after it was added; wheel: start of the first run
	L []int64 `json:"l,omitempty"` // sched: intervals, one per yield
	B int64   `json:"b,omitempty"` // after, sched: how long the task takes
}

type timer struct {
	forever        bool // its scheduler has yielded a time that nobody waits for
	id             int
	op             Op
	callT, retT    int64
	delay          int64
	added          bool
	nilTimer       bool
	runs           []int64
	lastRunS       uint64
	stops          []*stop
	yields         []yield // recurring
	asked          int
	trueStop       *stop
	runsAtTrueStop int
	h              *timingwheel.Timer
}

type yield struct{ at, asked int64 }

type stop struct {
	callS, retS uint64
	callT, retT int64
	ok, done    bool
	pend        int // which time of a recurring timer was waited for, if it is certain
}

type world struct {
	tw       *timingwheel.TimingWheel
	tick     int64
	timers   []*timer
	nextID   int
	side     []*sim.Task // stoppers
	runTask  *sim.Task
	running  bool
	upFrom   int64 // the wheel has been running since
	upAlways bool  // never cancelled
	cancel   func()
	cycles   int
	stopped  bool // the driver has finished
	downs    []span
	checks   Checks
	maxDue   int64
}

type span struct{ from, to int64 } // from, to: without a running wheel

// Checks says what is judged.
type Checks struct{ Timing, Stops, Sched, Cancel bool }

func slack() int64 { return 60*ms + sim.Injected() + sim.Worked() }

func dur(ns int64) string { return stdtime.Duration(ns).String() }

func max(a ...int64) int64 {
	m := a[0]
	for _, x := range a[1:] {
		if x > m {
			m = x
		}
	}
	return m
}

// ready gives the first instant at or after t at which the wheel is running.
func (w *world) ready(t int64) int64 {
	for _, d := range w.downs {
		if t >= d.from && t < d.to {
			t = d.to
		}
	}
	return t
}

// limit gives the latest time for a task that is due at t.
func (w *world) limit(t, sl int64) int64 {
	end := t + w.tick + sl
	for _, d := range w.downs {
		if d.from <= end && d.to > t {
			end = max(end, d.to+w.tick+sl)
		}
	}
	return end
}

func (w *world) start() {
	ctx, cancel := ctxt.WithCancel(ctxt.Background())
	w.cancel = cancel
	w.runTask = sim.GoNamed("run", func() {
		w.tw.Run(ctx)
		if ctx.Err() == nil {
			sim.Fail("run-returned", "Run returned although its context was not cancelled")
		}
	})
	w.running = true
}

// stopRun cancels the run and waits for its return.
func (w *world) stopRun() {
	w.running = false
	w.downs = append(w.downs, span{sim.Now(), 1 << 62})
	at := sim.Now()
	sim.Tracef("cancel the run")
	w.cancel()
	for inj := int64(-1); inj != sim.Injected() && !w.runTask.Done(); {
		inj = sim.Injected()
		sim.Join(sim.Abs(at+slack()+200*ms), w.runTask)
	}
	if !w.runTask.Done() {
		sim.Fail("run-hangs", "Run has not returned %s after its context was cancelled (%s)", dur(sim.Now()-at), w.runTask.Why())
	}
}

func (w *world) restart() {
	w.start()
	w.downs[len(w.downs)-1].to = sim.Now()
	w.cycles++
	sim.Probe("restarted")
}

func (w *world) ran(t *timer) {
	now := sim.Now()
	if t.delay >= sim.Eternity && (w.checks.Timing || w.checks.Cancel || w.checks.Stops) {
		sim.Fail("early", "timer #%d (delay %s, added at %s) runs at %s", t.id, dur(t.delay), dur(t.callT), dur(now))
	}
	t.runs = append(t.runs, now)
	t.lastRunS = sim.Seq()
	sim.Tracef("timer #%d runs", t.id)
	if t.op.B > 0 {
		// a slow task delays nobody else and not its own next time
		defer sim.Sleep(t.op.B)
	}
	ck := w.checks
	if t.op.K == "after" {
		if len(t.runs) > 1 && (ck.Timing || ck.Cancel) && len(t.op.S) == 0 {
			sim.Fail("ran-twice", "one-shot timer #%d ran %d times", t.id, len(t.runs))
		}
		if t.trueStop != nil && ck.Stops {
			sim.Fail("ran-after-stop", "timer #%d ran although a Stop had returned true", t.id)
		}
		due := sim.After(t.callT, t.delay)
		if now < due-w.tick && ck.Timing && len(t.op.S) == 0 {
			sim.Fail("early", "timer #%d (delay %s, added at %s) ran at %s: %s before its due time, tick %s", t.id, dur(t.delay), dur(t.callT), dur(now), dur(due-now), dur(w.tick))
		}
	}
}

func (w *world) stop(t *timer) {
	s := &stop{callT: sim.Now(), callS: sim.Seq()}
	t.stops = append(t.stops, s)
	ranBefore := len(t.runs)
	if y := len(t.yields); y > 0 && ranBefore == y-1 && t.asked == y && !t.forever && (y == 1 && t.added || y > 1 && t.runs[y-2]+slack() < s.callT) {
		s.pend = y
	}
	s.ok = t.h.Stop()
	s.retT, s.retS, s.done = sim.Now(), sim.Seq(), true
	sim.Tracef("stop #%d: %v", t.id, s.ok)
	if !s.ok {
		return
	}
	sim.Probe("stopped")
	if t.op.K == "after" && w.checks.Stops {
		if ranBefore > 0 {
			sim.Fail("stop-lied", "Stop of timer #%d returned true although its task had run", t.id)
		}
		if len(t.runs) > 0 {
			sim.Fail("stop-lied", "Stop of timer #%d returned true although its task has run", t.id)
		}
		if t.trueStop != nil {
			sim.Fail("stop-twice", "two Stop calls on timer #%d returned true", t.id)
		}
	}
	if t.trueStop == nil {
		t.trueStop = s
		t.runsAtTrueStop = len(t.yields)
	}
}

func (w *world) stoppers(t *timer) {
	for i, d := range t.op.S {
		if d < 0 {
			w.stop(t)
			continue
		}
		w.side = append(w.side, sim.GoNamed(fmt.Sprintf("stop%d.%d", t.id, i), func() {
			sim.Sleep(d)
			w.stop(t)
		}))
	}
}

func (w *world) op(o Op) {
	if o.W > 0 {
		sim.Sleep(o.W)
	}
	switch o.K {
	case "after":
		for k := int64(0); k <= o.N; k++ {
			t := &timer{id: w.nextID, op: o, delay: o.D}
			w.nextID++
			w.timers = append(w.timers, t)
			t.callT = sim.Now()
			if o.D < sim.Eternity {
				w.maxDue = max(w.maxDue, sim.Now()+o.D)
			}
			sim.Tracef("add timer #%d delay %s", t.id, dur(o.D))
			t.h = w.tw.AfterFunc(stdtime.Duration(o.D), func() { w.ran(t) })
			t.retT = sim.Now()
			t.added = true
			if t.h == nil {
				sim.Fail("nil-timer", "AfterFunc returned no timer")
			}
			w.stoppers(t)
		}
	case "sched":
		t := &timer{id: w.nextID, op: o}
		w.nextID++
		w.timers = append(w.timers, t)
		t.callT = sim.Now()
		sim.Tracef("schedule #%d", t.id)
		t.h = w.tw.ScheduleFunc(&sched{w: w, t: t}, func() { w.ran(t) })
		t.retT = sim.Now()
		t.added = true
		if (t.h == nil) != (len(o.L) == 0) && w.checks.Sched {
			sim.Fail("sched-timer", "ScheduleFunc with %d scheduled times returned timer=%v", len(o.L), t.h != nil)
		}
		if t.h != nil {
			w.stoppers(t)
		}
	case "cancel":
		if !w.running {
			return
		}
		w.stopRun()
		if o.D > 0 {
			sim.Sleep(o.D)
		}
		w.restart()
	}
}

// sched yields the times of one recurring timer.
type sched struct {
	w     *world
	t     *timer
	first stdtime.Time
	last  stdtime.Time
}

func (s *sched) Next(arg stdtime.Time) stdtime.Time {
	t := s.t
	now := sim.Now()
	k := t.asked
	t.asked++
	argRel := arg.UnixNano() - sim.Wall() + now
	sim.Tracef("scheduler of #%d asked with %s", t.id, dur(argRel))
	if !s.w.checks.Sched {
		// another property's business
	} else if k > len(t.op.L) {
		sim.Fail("asked-again", "the scheduler of #%d was asked again after it had yielded the zero time", t.id)
	} else if t.forever {
		sim.Fail("early", "the scheduler of #%d was asked again at %s although its next time is centuries away", t.id, dur(now))
	} else if t.trueStop != nil {
		sim.Fail("asked-after-stop", "the scheduler of #%d was asked for a next time after a Stop had returned true", t.id)
	}
	if k > len(t.op.L) {
		return stdtime.Time{}
	}
	if k == 0 {
		if s.w.checks.Sched && (argRel < t.callT-ms || argRel > now) {
			sim.Fail("sched-arg", "the scheduler of #%d was first asked with %s, not the time of the call (%s to %s)", t.id, dur(argRel), dur(t.callT), dur(now))
		}
		s.first = arg.Truncate(stdtime.Millisecond)
		s.last = s.first
	} else if s.w.checks.Sched {
		d := s.last.Sub(arg)
		if d < 0 {
			d = -d
		}
		if d >= stdtime.Millisecond {
			sim.Fail("sched-arg", "the scheduler of #%d was asked with %s although its previous time was %s", t.id, arg.UTC(), s.last.UTC())
		}
		if at := t.yields[k-1].at; now < at-s.w.tick {
			sim.Fail("early", "the scheduler of #%d was asked for the time after %s at %s", t.id, dur(at), dur(now))
		}
	}
	if k == len(t.op.L) {
		return stdtime.Time{}
	}
	next := s.last.Add(stdtime.Duration(t.op.L[k]))
	if t.op.L[k] >= sim.Eternity {
		// a time that nobody waits for
		t.forever = true
		if t.op.L[k] == math.MaxInt64 {
			next = stdtime.Date(9999, 12, 31, 23, 59, 59, 0, stdtime.UTC)
		}
		sim.Tracef("scheduler of #%d yields %s", t.id, next)
		return next
	}
	s.last = next
	y := yield{at: next.UnixNano() - sim.Wall() + now, asked: now}
	t.yields = append(t.yields, y)
	s.w.maxDue = max(s.w.maxDue, y.at)
	sim.Tracef("scheduler of #%d yields %s", t.id, dur(y.at))
	return next
}

// Body runs a workload.
func Body(ck Checks) func(ops []Op) {
	return func(ops []Op) {
		w := &world{checks: ck}
		w.run(ops)
	}
}

func (w *world) run(ops []Op) {
	cfg := Op{D: 10, N: 4}
	by := map[int][]Op{}
	var ids []int
	horizon := int64(0)
	for _, o := range ops {
		if o.K == "wheel" {
			cfg = o
			continue
		}
		if by[o.T] == nil {
			ids = append(ids, o.T)
		}
		by[o.T] = append(by[o.T], o)
		horizon += o.W
		if o.K == "cancel" {
			horizon += o.D
		}
		for _, s := range o.S {
			if s > 0 {
				horizon += s
			}
		}
	}
	sort.Ints(ids)
	w.tick = cfg.D * ms
	w.tw = timingwheel.New(cfg.D, cfg.N)
	startAfter := int64(-1)
	if len(cfg.S) > 0 {
		startAfter = cfg.S[0]
	}
	if startAfter < 0 {
		w.start()
	} else {
		w.downs = append(w.downs, span{0, 1 << 62})
		horizon += startAfter
		w.side = append(w.side, sim.GoNamed("starter", func() {
			sim.Sleep(startAfter)
			w.restart()
		}))
	}
	var tasks []*sim.Task
	for _, id := range ids {
		list := by[id]
		tasks = append(tasks, sim.GoNamed(fmt.Sprint("actor", id), func() {
			for _, o := range list {
				w.op(o)
			}
		}))
	}
	w.join(horizon, "an add, schedule or stop", tasks)
	w.join(horizon, "a stop", w.side)
	// every timer becomes due
	for k := 0; k < 60; k++ {
		last := sim.Now()
		for _, t := range w.timers {
			if t.delay < sim.Eternity {
				last = max(last, w.ready(t.retT+t.delay))
			}
			for _, y := range t.yields {
				last = max(last, w.ready(y.at))
			}
		}
		n := w.yieldCount()
		sim.SleepUntil(sim.Abs(last + w.tick + 2*ms))
		if k > 0 {
			sim.Calm()
		}
		sim.Sleep(slack())
		if k > 0 && w.yieldCount() == n {
			break
		}
	}
	w.join(1, "a stop", w.side)
	w.verdict()
	// the run ends when it is told to
	w.stopRun()
}

func (w *world) yieldCount() int {
	n := 0
	for _, t := range w.timers {
		n += len(t.yields)
	}
	return n
}

func (w *world) join(horizon int64, what string, ts []*sim.Task) {
	for inj := int64(-1); inj != sim.Injected() || sim.Busy(); {
		inj = sim.Injected()
		if sim.Join(sim.Abs(sim.Now()+horizon+slack()+sec), ts...) {
			return
		}
	}
	for _, t := range ts {
		if !t.Done() {
			sim.Fail("blocked", "%s does not complete: %s", what, t.Why())
		}
	}
}

func (w *world) verdict() {
	sl := slack()
	for _, t := range w.timers {
		if t.op.K == "after" {
			w.oneShot(t, sl)
		} else {
			w.recurring(t, sl)
		}
	}
}

func (w *world) oneShot(t *timer, sl int64) {
	ck := w.checks
	dueMin, dueMax := sim.After(t.callT, t.delay), sim.After(t.retT, t.delay)
	stopped := len(t.op.S) > 0
	if len(t.runs) > 0 && t.delay >= sim.Eternity {
		sim.Fail("early", "timer #%d (delay %s, added at %s) ran at %s", t.id, dur(t.delay), dur(t.callT), dur(t.runs[0]))
	}
	if len(t.runs) == 0 && t.delay < sim.Eternity && t.trueStop == nil && (ck.Stops || (ck.Timing || ck.Cancel) && !stopped) {
		sim.Fail("lost", "timer #%d (delay %s, added at %s) never ran and no Stop returned true", t.id, dur(t.delay), dur(t.callT))
	}
	if ck.Timing && !stopped && len(t.runs) > 0 && t.runs[0] > w.limit(max(dueMax, t.retT), sl) {
		sim.Fail("late", "timer #%d (delay %s, added at %s) ran at %s: %s after its due time, tick %s", t.id, dur(t.delay), dur(t.callT), dur(t.runs[0]), dur(t.runs[0]-dueMax), dur(w.tick))
	}
	if !ck.Stops {
		return
	}
	// the tick the timer belongs to starts here
	wall0 := sim.Wall() - sim.Now()
	tickStart := (dueMin+wall0)/w.tick*w.tick - wall0
	for _, s := range t.stops {
		if !s.done || s.ok || s.retT >= tickStart {
			continue
		}
		if t.trueStop == nil || t.trueStop.callS > s.retS {
			sim.Fail("stop-refused", "Stop of timer #%d (due %s) returned false at %s, before its tick was reached", t.id, dur(dueMin), dur(s.retT))
		}
	}
}

// toAsk is how often the scheduler is asked if nobody stops the timer.
func (t *timer) toAsk() int {
	if t.forever {
		return len(t.op.L)
	}
	return len(t.op.L) + 1
}

func (w *world) recurring(t *timer, sl int64) {
	n := len(t.yields)
	want := n
	if w.checks.Cancel && t.trueStop == nil && len(t.op.S) == 0 && (t.asked != t.toAsk() || len(t.runs) < n) {
		sim.Fail("lost", "recurring timer #%d ran %d times although %d times were to come and nobody stopped it", t.id, len(t.runs), len(t.op.L))
	}
	if !w.checks.Sched {
		return
	}
	if t.trueStop != nil {
		want = n - 1
		if t.forever {
			want = n // what was stopped is the time that nobody waits for
		}
		if n != t.runsAtTrueStop {
			sim.Fail("asked-after-stop", "#%d went on after Stop had returned true", t.id)
		}
	} else if t.asked != t.toAsk() {
		sim.Fail("stalled", "recurring timer #%d asked its scheduler only %d times although %d times were to come and no Stop returned true", t.id, t.asked, len(t.op.L))
	}
	for _, s := range t.stops {
		if s.pend == 0 || !s.done || s.ok {
			continue
		}
		at := t.yields[s.pend-1].at
		wall0 := sim.Wall() - sim.Now()
		if s.retT < (at+wall0)/w.tick*w.tick-wall0 && (t.trueStop == nil || t.trueStop.callS > s.retS) {
			sim.Fail("stop-refused", "Stop of recurring timer #%d returned false at %s, while it waited for %s", t.id, dur(s.retT), dur(at))
		}
	}
	if len(t.runs) > want {
		sim.Fail("ran-too-often", "recurring timer #%d ran %d times for %d scheduled times (stopped: %v)", t.id, len(t.runs), n, t.trueStop != nil)
	}
	if len(t.runs) < want {
		sim.Fail("ran-too-seldom", "recurring timer #%d ran %d times for %d scheduled times (stopped: %v)", t.id, len(t.runs), n, t.trueStop != nil)
	}
	ys := append([]yield(nil), t.yields[:want]...)
	sort.Slice(ys, func(i, j int) bool { return ys[i].at < ys[j].at })
	runs := append([]int64(nil), t.runs...)
	sort.Slice(runs, func(i, j int) bool { return runs[i] < runs[j] })
	for i, r := range runs {
		if r < ys[i].at-w.tick {
			sim.Fail("early", "recurring timer #%d ran for the %dth time at %s, more than a tick before %s", t.id, i+1, dur(r), dur(ys[i].at))
		}
	}
	limits := make([]int64, len(ys))
	for i, y := range ys {
		limits[i] = w.limit(max(y.at, y.asked, t.callT), sl)
	}
	sort.Slice(limits, func(i, j int) bool { return limits[i] < limits[j] })
	for i, r := range runs {
		if r > limits[i] {
			sim.Fail("late", "recurring timer #%d ran for the %dth time at %s, scheduled for %s", t.id, i+1, dur(r), dur(ys[i].at))
		}
	}
}

// Shape tunes the generator.
type Shape struct {
	Stop, Sched, Cancel, Late float64
	Long                      bool
}

// Gen makes a workload generator.
func Gen(sh Shape) func(g *run.G, c *sim.Config) []Op {
	return func(g *run.G, c *sim.Config) []Op {
		tick := run.Pick(g, int64(1), 1, 2, 5, 10, 50, 100, 1000)
		size := run.Pick(g, int64(2), 2, 3, 4, 5, 8, 20)
		if g.P(0.02) {
			size = run.Pick(g, int64(60), 64, 100, 512, 1000)
			c.StepNs = 10
			tick = min(tick, 10)
		}
		T := tick * ms
		I := T * size
		g.Stalls(c, 0.45, 1e3, 50e3, T/2, T, I, 3*I, 3*T/2)
		g.Leaps(c, 0.2, 10e3, T/2, T, I, 2*I)
		ops := []Op{{T: -1, K: "wheel", D: tick, N: size, S: []int64{-1}}}
		if g.P(sh.Late) {
			ops[0].S[0] = run.Pick(g, int64(0), 100, T, I/2, I, 3*I)
		}
		tight := g.P(0.35)
		wait := func() int64 {
			if tight {
				return run.Pick(g, int64(0), 0, 200, 5000)
			}
			return run.Pick(g, int64(0), 0, 500, T/3, T, T+T/2, I/2, I, I*size, g.R64(0, 2*I))
		}
		delay := func() int64 {
			switch g.Weighted(3, 6, 6, 4, 1) {
			case 0:
				return run.Pick(g, int64(0), -1, -T, -3600*sec, 1, ms/2, T/2, T-1)
			case 1:
				return g.R64(0, I)
			case 2:
				return g.R64(0, I*size+T)
			case 3:
				k := run.Pick(g, T, I, I*size)
				return k*int64(g.Range(1, int(size))) + run.Pick(g, int64(0), 0, -1, 1, ms, -ms)
			default:
				return g.R64(0, I*size*size*2)
			}
		}
		base := delay()
		pick := func() int64 {
			if g.P(0.3) {
				return base + run.Pick(g, int64(0), 0, T, I, -I, I*size, ms)
			}
			return delay()
		}
		stops := func(d int64) []int64 {
			if !g.P(sh.Stop) {
				return nil
			}
			var s []int64
			if d >= sim.Eternity {
				d = g.R64(0, I*size)
			}
			d = max(d, -3600*sec)
			for k := g.Weighted(6, 3, 1) + 1; k > 0; k-- {
				// often near an instant where something happens to the timer
				at := int64(-1)
				switch g.Weighted(2, 4, 4, 3, 3) {
				case 1:
					at = d + run.Pick(g, int64(0), -T, -T/2, 1000, -1000, -50e3, 20e3, -ms, T)
				case 2:
					m := run.Pick(g, I, I*size, T)
					at = d/m*m + run.Pick(g, int64(0), 0, 2000, 20e3, -T, T/2)
				case 3:
					m := run.Pick(g, I, I*size, T)
					at = d - d%m + g.R64(-T, T)
				case 4:
					if d > 0 && d < sim.Eternity {
						at = g.R64(0, d)
					}
				}
				if at < -1 {
					at = 0
				}
				s = append(s, at)
			}
			return s
		}
		slow := int64(0)
		if g.P(0.3) {
			slow = run.Pick(g, ms, T, 2*T, I, I*size, 3600*sec)
		}
		body := func() int64 {
			if g.P(0.5) {
				return slow
			}
			return 0
		}
		actors := g.Range(1, 4)
		far := false
		for t := 1; t <= actors; t++ {
			for k := g.Range(1, 4); k > 0; k-- {
				if g.P(sh.Sched) {
					o := Op{T: t, K: "sched", W: wait(), B: body()}
					n := g.Range(0, 5)
					base := run.Pick(g, T, T, I, I+T, T/2, ms, I*size, 3*T+ms)
					total := int64(0)
					for j := 0; j < n; j++ {
						d := base
						if g.P(0.3) {
							d = run.Pick(g, int64(0), -T, ms, T, 2*T, I, I*size, g.R64(0, I))
						}
						d = d / ms * ms
						total += d
						o.L = append(o.L, d)
					}
					if n > 0 && g.P(sh.Stop) {
						at := int64(0)
						for _, d := range o.L[:g.Range(1, n)] {
							at += d
						}
						o.S = stops(at)
					}
					if g.P(0.01) {
						o.L = append(o.L, run.Pick(g, int64(math.MaxInt64), math.MaxInt64-1, math.MaxInt64/2))
					}
					ops = append(ops, o)
				} else {
					d := pick()
					if g.P(0.01) {
						d = run.Pick(g, int64(math.MaxInt64), math.MaxInt64-1, math.MaxInt64/2, math.MinInt64, math.MinInt64/2)
					} else if !far && g.P(0.003) {
						// years away
						d = run.Pick(g, int64(30), 400, 1200, 4000, 20000) * 86400 * sec
						far = true
					}
					o := Op{T: t, K: "after", W: wait(), D: d, B: body()}
					if g.P(0.15) {
						o.N = int64(g.Range(1, 3))
					}
					if g.P(0.001) {
						c.StepNs = 10
						o.N = int64(g.Range(30, 200))
					}
					if o.S = stops(d); o.N >= 30 && len(o.S) > 0 {
						o.S = []int64{-1}
					}
					ops = append(ops, o)
				}
			}
		}
		if g.P(sh.Cancel) {
			t := actors + 1
			for k := g.Range(1, 3); k > 0; k-- {
				w := wait()
				if g.P(0.5) {
					w = max(0, base+run.Pick(g, int64(0), -T, 1000, -1000, T, ms, -ms))
				}
				ops = append(ops, Op{T: t, K: "cancel", W: w, D: run.Pick(g, int64(0), 0, T, I, I*size)})
			}
		}
		return ops
	}
}

// Real and Stub list what ran.
var Real = []string{"common/timer/timingwheel (whole package)", "common/container/list (whole package)", "common/container/heap (whole package)"}
var Stub = []string{"goroutine scheduler", "channels and select", "sync.Mutex and sync/atomic", "time (clock, timers)", "context (reimplementation on the simulator)"}
