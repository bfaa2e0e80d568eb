package wheel

import (
	"fmt"
	stdtime "time"

	"dst/run"
	"dst/sim"
	ctxt "dst/x/xcontext"

	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
)

// Idle is one step of a waiting workload.
type Idle struct {
	K string `json:"k"`           // wheel, after, every, never, push, take, chan, pause, cancel
	D int64  `json:"d,omitempty"` // ns; wheel: tick in ms
	N int64  `json:"n,omitempty"` // wheel: buckets; every: how often; after, push: how many
}

type every struct {
	d    stdtime.Duration
	left int64
}

func (e *every) Next(t stdtime.Time) stdtime.Time {
	if e.left == 0 {
		return stdtime.Time{}
	}
	e.left--
	return t.Add(e.d)
}

// never schedules a task for the end of all time.
type never struct{}

func (never) Next(stdtime.Time) stdtime.Time {
	return stdtime.Date(9999, 12, 31, 23, 59, 59, 0, stdtime.UTC)
}

const day = 24 * 3600 * sec

// budget compares the work done so far with what the events account for.
func budget(what string, units int64, c0, a0, s0 int) {
	c, a, s := int64(sim.ClockReads()-c0), int64(sim.TimerArms()-a0), int64(sim.Steps()-s0)
	sim.Tracef("%d units: %d clock reads, %d timers, %d steps", units, c, a, s)
	if c > 4*units+20 || a > 3*units+20 || s > 1000*units+6000 {
		sim.Fail("busy", "%s: %d clock reads, %d timers armed and %d steps in %s of simulated time, for %d units of work", what, c, a, s, dur(sim.Now()), units)
	}
}

// IdleWheel lets a wheel wait.
func IdleWheel(ops []Idle) {
	tick, size := int64(10), int64(4)
	for _, o := range ops {
		if o.K == "wheel" {
			tick, size = o.D, o.N
		}
	}
	c0, a0, s0 := sim.ClockReads(), sim.TimerArms(), sim.Steps()
	tw := timingwheel.New(tick, size)
	ctx, cancel := ctxt.WithCancel(ctxt.Background())
	r := sim.GoNamed("run", func() { tw.Run(ctx) })
	units, last := int64(8), int64(0)
	levels := func(d int64) int64 {
		n := int64(2)
		for s := tick * ms * size; d >= s && s > 0; s *= size {
			n++
		}
		return n
	}
	ran, want := int64(0), int64(0)
	for _, o := range ops {
		switch o.K {
		case "after":
			for k := int64(0); k <= o.N; k++ {
				tw.AfterFunc(stdtime.Duration(o.D), func() { ran++ })
				units += 2 * levels(o.D)
				want++
			}
			if o.D < sim.Eternity {
				last = max(last, sim.Now()+o.D)
			}
		case "never":
			tw.ScheduleFunc(never{}, func() { sim.Fail("early", "a task that was scheduled for the year 9999 runs") })
			units += 2 * levels(1<<62)
		case "every":
			tw.ScheduleFunc(&every{stdtime.Duration(o.D), o.N}, func() { ran++ })
			units += (2*levels(o.D) + 2) * (o.N + 1)
			want += o.N
			last = max(last, sim.Now()+o.D*o.N)
		case "pause":
			sim.Sleep(o.D)
			budget("a running wheel", units, c0, a0, s0)
		}
	}
	sim.SleepUntil(sim.Abs(last + tick*ms + slack()))
	budget("a running wheel", units, c0, a0, s0)
	sim.Sleep(30 * day)
	budget("a running wheel", units, c0, a0, s0)
	cancel()
	sim.Join(sim.Abs(sim.Now()+slack()), r)
}

// IdleQueue lets a delay queue's takers wait.
func IdleQueue(ops []Idle) {
	c0, a0, s0 := sim.ClockReads(), sim.TimerArms(), sim.Steps()
	q := delayqueue.New[int]()
	ctx, cancel := ctxt.WithCancel(ctxt.Background())
	takers, events := int64(1), int64(2)
	last := int64(0)
	var ts []*sim.Task
	for i, o := range ops {
		switch o.K {
		case "take":
			takers++
			ts = append(ts, sim.GoNamed(fmt.Sprint("take", i), func() {
				c := ctx
				if o.D > 0 {
					var stop func()
					c, stop = ctxt.WithCancel(ctx)
					sim.GoNamed("canceller", func() {
						sim.Sleep(o.D)
						stop()
					})
				}
				q.Take(c)
			}))
		case "chan":
			takers++
			ch := q.Channel(ctx, int(o.N))
			ts = append(ts, sim.GoNamed(fmt.Sprint("chan", i), func() {
				for {
					if _, ok := sim.Rcv(0, ch).Recv2(); !ok {
						return
					}
				}
			}))
		case "push":
			for k := int64(0); k <= o.N; k++ {
				q.Push(i, stdtime.Duration(o.D))
				events++
			}
			if o.D < sim.Eternity {
				last = max(last, sim.Now()+o.D)
			}
		case "pause":
			sim.Sleep(o.D)
			budget("waiting takers", (events+takers)*(takers+1), c0, a0, s0)
		}
	}
	sim.SleepUntil(sim.Abs(last + slack()))
	budget("waiting takers", (events+takers)*(takers+1), c0, a0, s0)
	sim.Sleep(30 * day)
	budget("waiting takers", (events+takers)*(takers+1), c0, a0, s0)
	cancel()
	sim.Join(sim.Abs(sim.Now()+slack()), ts...)
}

func idleDelay(g *run.G, unit int64) int64 {
	switch g.Weighted(2, 3, 3, 3) {
	case 0:
		return run.Pick(g, int64(0), 1, ms/2, ms, ms+1)
	case 1:
		return g.R64(0, 100*unit)
	case 2:
		return run.Pick(g, sec, 60*sec, 3600*sec, day, 30*day) + g.R64(0, sec)
	}
	return g.R64(sec, 40*day)
}

// GenIdleWheel makes workloads for IdleWheel.
func GenIdleWheel(g *run.G, c *sim.Config) []Idle {
	tick := run.Pick(g, int64(1), 1, 2, 10, 100, 1000, 60000)
	size := run.Pick(g, int64(2), 3, 5, 20, 60)
	T := tick * ms
	g.Stalls(c, 0.2, 1e3, T, T*size)
	g.Leaps(c, 0.2, T/2, T*size)
	ops := []Idle{{K: "wheel", D: tick, N: size}}
	for k := g.Range(0, 6); k > 0; k-- {
		switch g.Weighted(4, 2, 2) {
		case 0:
			o := Idle{K: "after", D: idleDelay(g, T), N: int64(g.Weighted(5, 1, 1))}
			if g.P(0.03) {
				o.D = 1<<63 - 1
			}
			if g.P(0.03) {
				o = Idle{K: "never"}
			}
			ops = append(ops, o)
		case 1:
			ops = append(ops, Idle{K: "every", D: T + idleDelay(g, T)/5, N: int64(g.Range(0, 4))})
		default:
			ops = append(ops, Idle{K: "pause", D: idleDelay(g, T)})
		}
	}
	return ops
}

// GenIdleQueue makes workloads for IdleQueue.
func GenIdleQueue(g *run.G, c *sim.Config) []Idle {
	g.Stalls(c, 0.2, 1e3, ms, sec)
	g.Leaps(c, 0.2, ms, sec)
	var ops []Idle
	for k := g.Range(1, 8); k > 0; k-- {
		switch g.Weighted(4, 1, 4, 3) {
		case 0:
			o := Idle{K: "take"}
			if g.P(0.3) {
				o.D = 1 + idleDelay(g, ms)
			}
			ops = append(ops, o)
		case 1:
			ops = append(ops, Idle{K: "chan", N: int64(g.Range(0, 2))})
		case 2:
			o := Idle{K: "push", D: idleDelay(g, ms), N: int64(g.Weighted(5, 1, 1))}
			if g.P(0.03) {
				o.D = 1<<63 - 1
			}
			ops = append(ops, o)
		default:
			ops = append(ops, Idle{K: "pause", D: idleDelay(g, ms)})
		}
	}
	return ops
}
