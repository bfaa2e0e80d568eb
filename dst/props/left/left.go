// Package left looks for what the code leaves running, for property C36.
package left

import (
	"fmt"
	"sort"
	"strings"
	stdtime "time"

	"dst/props/files"
	"dst/props/misc"
	"dst/run"
	"dst/sim"
	ctxt "dst/x/xcontext"
	"dst/x/xexec"

	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	_ "github.com/ahKevinXy/go-web-tools/dstsites"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
	day = 24 * 3600 * sec
)

// Op is one step of one actor.
type Op struct {
	T int    `json:"t"`           // actor
	K string `json:"k"`           // push, take, chan, pop; wheel, after, every, cancel; look
	W int64  `json:"w,omitempty"` // ns to wait first
	D int64  `json:"d,omitempty"` // delay; wheel: tick in ms
	N int64  `json:"n,omitempty"` // push, after: further copies; chan: buffer; every: times; wheel: buckets
	C int64  `json:"c,omitempty"` // take, chan: cancelled after so long (0: at the end); after: stopped after so long
	G int64  `json:"g,omitempty"` // chan: pause between receives; after: how long the task takes
}

func slack() int64 { return 60*ms + sim.Injected() + sim.Worked() }

func dur(ns int64) string { return stdtime.Duration(ns).String() }

// settle sleeps until what was under way is over.
func settle() {
	inj := sim.Injected()
	sim.Sleep(250 * ms)
	for inj != sim.Injected() {
		d := sim.Injected() - inj
		inj = sim.Injected()
		sim.Sleep(d + 60*ms)
	}
}

func names(ts []*sim.Task) string {
	var l []string
	for _, t := range ts {
		l = append(l, t.Name+": "+t.Why())
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// nothing checks that nothing but the given tasks is left.
func nothing(when string) {
	settle()
	if n := sim.Armed(); n > 0 {
		sim.Fail("timer-left", "%s %d timers are still armed", when, n)
	}
	if ts := sim.Live(); len(ts) > 0 {
		sim.Fail("goroutine-left", "%s %d goroutines are still there (%s)", when, len(ts), names(ts))
	}
}

func byActor(ops []Op) (ids []int, by map[int][]Op, horizon int64) {
	by = map[int][]Op{}
	for _, o := range ops {
		if by[o.T] == nil {
			ids = append(ids, o.T)
		}
		by[o.T] = append(by[o.T], o)
		horizon += o.W + o.C + o.G*(o.N+1) + 800*ms
		if o.D > 0 {
			horizon += o.D * (o.N + 1)
		}
	}
	sort.Ints(ids)
	return
}

func join(until int64, what string, ts []*sim.Task) {
	for inj := int64(-1); inj != sim.Injected(); {
		inj = sim.Injected()
		if sim.Join(sim.Abs(until+4*sim.Injected()+5*sec), ts...) {
			return
		}
	}
	for _, t := range ts {
		if !t.Done() {
			sim.Fail("blocked", "%s does not complete: %s", what, t.Why())
		}
	}
}

// Queue runs a workload on a delay queue.
func Queue(ops []Op) {
	q := delayqueue.New[int]()
	root, cancel := ctxt.WithCancel(ctxt.Background())
	ids, by, horizon := byActor(ops)
	waiters := 0
	var waits, ts []*sim.Task
	n := 0
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("actor", id), func() {
			for _, o := range list {
				if o.W > 0 {
					sim.Sleep(o.W)
				}
				ctx := root
				if o.C > 0 {
					c, stop := ctxt.WithCancel(root)
					ctx = c
					sim.GoNamed("canceller", func() {
						sim.Sleep(o.C)
						stop()
					})
				}
				switch o.K {
				case "push":
					for k := int64(0); k <= o.N; k++ {
						n++
						q.Push(n, stdtime.Duration(o.D-k))
					}
				case "pop":
					q.Pop()
				case "take":
					waiters++
					waits = append(waits, sim.GoNamed("taker", func() {
						q.Take(ctx)
						waiters--
					}))
				case "chan":
					waiters++
					ch := q.Channel(ctx, int(o.N))
					waits = append(waits, sim.GoNamed("consumer", func() {
						for {
							if _, ok := sim.Rcv(0, ch).Recv2(); !ok {
								break
							}
							if o.G > 0 {
								sim.Sleep(o.G)
							}
						}
						waiters--
					}))
				case "look":
					settle()
					if a := sim.Armed(); a > 2*waiters+2 {
						sim.Fail("timers", "%d timers are armed although only %d takes and channels are waiting", a, waiters)
					}
				}
			}
		}))
	}
	join(sim.Now()+horizon, "a push or pop", ts)
	settle()
	if a := sim.Armed(); a > 2*waiters+2 {
		sim.Fail("timers", "%d timers are armed although only %d takes and channels are waiting", a, waiters)
	}
	if waiters > 0 {
		sim.Probe("waiters at the end")
	}
	cancel()
	join(sim.Now()+horizon*int64(n+1), "a cancelled take, or the drain of a cancelled channel,", waits)
	nothing("after every take has returned and every output channel is closed,")
}

type every struct {
	d    stdtime.Duration
	left int64
}

func (e *every) Next(t stdtime.Time) stdtime.Time {
	if e.left == 0 {
		return stdtime.Time{}
	}
	e.left--
	return t.Add(e.d)
}

// Wheel runs a workload on a timing wheel.
func Wheel(ops []Op) {
	tick, size := int64(10), int64(4)
	var rest []Op
	for _, o := range ops {
		if o.K == "wheel" {
			tick, size = o.D, o.N
		} else {
			rest = append(rest, o)
		}
	}
	tw := timingwheel.New(tick, size)
	ctx, cancel := ctxt.WithCancel(ctxt.Background())
	var r *sim.Task
	start := func() {
		c := ctx
		r = sim.GoNamed("run", func() { tw.Run(c) })
	}
	start()
	ids, by, horizon := byActor(rest)
	busy := 0
	task := func(o Op) func() {
		return func() {
			if o.G > 0 {
				busy++
				sim.Sleep(o.G)
				busy--
			}
		}
	}
	look := func() {
		settle()
		if a := sim.Armed(); a > 3 {
			sim.Fail("timers", "%d timers are armed for one running wheel", a)
		}
	}
	var ts []*sim.Task
	stopping := false
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("actor", id), func() {
			for _, o := range list {
				if o.W > 0 {
					sim.Sleep(o.W)
				}
				switch o.K {
				case "after":
					for k := int64(0); k <= o.N; k++ {
						t := tw.AfterFunc(stdtime.Duration(o.D-k*ms), task(o))
						if o.C > 0 && k == 0 {
							sim.GoNamed("stopper", func() {
								sim.Sleep(o.C)
								t.Stop()
							})
						}
					}
				case "every":
					tw.ScheduleFunc(&every{stdtime.Duration(o.D), o.N}, task(o))
				case "look":
					look()
				case "cancel":
					if stopping {
						break
					}
					stopping = true
					cancel()
					join(sim.Now(), "a cancelled run", []*sim.Task{r})
					settle()
					if a := sim.Armed(); a > 0 {
						sim.Fail("timer-left", "after the run has returned %d timers are still armed", a)
					}
					if o.D > 0 {
						sim.Sleep(o.D)
					}
					ctx, cancel = ctxt.WithCancel(ctxt.Background())
					start()
					stopping = false
				}
			}
		}))
	}
	join(sim.Now()+horizon, "an add, schedule or stop", ts)
	look()
	cancel()
	join(sim.Now(), "a cancelled run", []*sim.Task{r})
	for i := 0; busy > 0 && i < 100; i++ {
		sim.Sleep(horizon/50 + ms)
	}
	// a stopper may still be asleep
	sim.Sleep(horizon)
	nothing("after the run has returned and its tasks have ended,")
}

// Shell runs a workload of C31.
func Shell(ops []misc.Sh) {
	misc.Shell(ops)
	for _, c := range xexec.Get().Cmds {
		if !c.Waited() {
			sim.Fail("process-left", "the process %v was started and never waited for", c.Args)
		}
	}
	nothing("after the shell executions have returned")
}

// Files runs a workload of C33.
func Files(ops []files.Hd) {
	files.Handles(ops)
	for _, p := range files.Foreign(ops) {
		sim.Fail("file-left", "the file helpers have returned and left %s behind, which none of them was to make", p)
	}
	nothing("after the file helpers have returned")
}

func delay(g *run.G) int64 {
	switch g.Weighted(2, 4, 4) {
	case 0:
		return run.Pick(g, int64(0), -ms, 1, ms/2, ms)
	case 1:
		return g.R64(0, 50*ms)
	}
	return run.Pick(g, sec, 60*sec, day) + g.R64(0, sec)
}

// GenQueue makes a workload for Queue.
func GenQueue(g *run.G, c *sim.Config) []Op {
	g.Schedule(c)
	g.Stalls(c, 0.2, 1e3, ms, 20*ms)
	g.Leaps(c, 0.1, ms, sec)
	var ops []Op
	for t := g.Range(1, 4); t > 0; t-- {
		d := delay(g)
		for k := g.Range(1, 6); k > 0; k-- {
			o := Op{T: t}
			switch g.Weighted(4, 4, 2, 1, 1) {
			case 0:
				o.K = "take"
			case 1:
				// every element goes before the earlier ones
				o.K, o.D, o.N = "push", d, int64(run.Pick(g, 0, 0, 1, 5, 20))
				d -= g.R64(0, 10*ms)
				if g.P(0.3) {
					d = delay(g)
				}
			case 2:
				o.K, o.N, o.G = "chan", int64(g.Range(0, 2)), run.Pick(g, int64(0), 0, ms, 30*ms)
			case 3:
				o.K = "pop"
			default:
				o.K = "look"
			}
			if (o.K == "take" || o.K == "chan") && g.P(0.6) {
				o.C = 1 + g.R64(0, 60*ms)
			}
			if g.P(0.5) {
				o.W = g.R64(0, 20*ms)
			}
			ops = append(ops, o)
		}
	}
	return ops
}

// GenWheel makes a workload for Wheel.
func GenWheel(g *run.G, c *sim.Config) []Op {
	tick := run.Pick(g, int64(1), 2, 10, 100)
	g.Schedule(c)
	g.Stalls(c, 0.2, 1e3, tick*ms, 20*ms)
	g.Leaps(c, 0.1, tick*ms, sec)
	ops := []Op{{T: -1, K: "wheel", D: tick, N: run.Pick(g, int64(2), 3, 20)}}
	for t := g.Range(1, 3); t > 0; t-- {
		d := delay(g)
		for k := g.Range(1, 5); k > 0; k-- {
			o := Op{T: t}
			switch g.Weighted(4, 2, 2, 1) {
			case 0:
				o.K, o.D, o.N = "after", d, int64(run.Pick(g, 0, 0, 3, 10))
				d -= g.R64(0, 50*ms)
				if g.P(0.3) {
					d = delay(g)
				}
				if g.P(0.3) {
					o.C = 1 + g.R64(0, 40*ms)
				}
				if g.P(0.3) {
					o.G = g.R64(0, 50*ms)
				}
			case 1:
				o.K, o.D, o.N = "every", tick*ms+g.R64(0, 40*ms), int64(g.Range(0, 4))
			case 2:
				o.K, o.D = "cancel", g.R64(0, 30*ms)
			default:
				o.K = "look"
			}
			if g.P(0.5) {
				o.W = g.R64(0, 30*ms)
			}
			ops = append(ops, o)
		}
	}
	return ops
}
