// Package lim drives the rate limiters for the properties C01 to C05.
package lim

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"time"

	"dst/lin"
	"dst/run"
	"dst/sim"

	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	_ "github.com/ahKevinXy/go-web-tools/dstsites"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// Op is a wait and some calls of one caller.
type Op struct {
	T int   `json:"t"`           // caller
	W int64 `json:"w,omitempty"` // ns to wait first
	A bool  `json:"a,omitempty"` // wait until the next multiple of W since the start instead
	N int   `json:"n,omitempty"` // calls
	M int   `json:"m,omitempty"` // which limiter
	G int64 `json:"g,omitempty"` // ns between the calls
}

// call is one TryAcquire.
type call struct {
	lin.Op
	c, r int64 // possible clock readings
	ct   int64
	rt   int64
	ok   bool
	m    int
	err  error
}

func (x call) String() string {
	return fmt.Sprintf("call at %s (until %s): %s", dur(x.ct), dur(x.rt), map[bool]string{true: "admitted", false: "refused"}[x.ok])
}

func dur(ns int64) string { return time.Duration(ns).String() }

// reading is what the clock shows at t (ns since the start).
func reading(t int64) int64 {
	if g := coarse(); g > 1 {
		return t - t%g
	}
	return t
}

func coarse() int64 { return sim.Param("coarse") }

func drive(ops []Op, try func(m int) (bool, error)) []call {
	by := map[int][]Op{}
	var ids []int
	for _, o := range ops {
		if by[o.T] == nil {
			ids = append(ids, o.T)
		}
		by[o.T] = append(by[o.T], o)
	}
	sort.Ints(ids)
	var calls []call
	var tasks []*sim.Task
	for _, t := range ids {
		list := by[t]
		tasks = append(tasks, sim.GoNamed(fmt.Sprint("caller", t), func() {
			for _, o := range list {
				if o.A && o.W > 0 {
					sim.SleepUntil(sim.Abs(sim.Now() - sim.Now()%o.W + o.W))
				} else if o.W > 0 {
					sim.Sleep(o.W)
				}
				for i := 0; i < o.N || i == 0; i++ {
					if i > 0 && o.G > 0 {
						sim.Sleep(o.G)
					}
					var x call
					x.m = o.M
					x.ct, x.Call = sim.Now(), sim.Seq()
					x.ok, x.err = try(o.M)
					x.rt, x.Ret = sim.Now(), sim.Seq()
					x.c, x.r = reading(x.ct), reading(x.rt)
					sim.Tracef("%v", x)
					calls = append(calls, x)
				}
			}
		}))
	}
	for _, t := range tasks {
		sim.Join(0, t)
	}
	sort.Slice(calls, func(i, j int) bool { return calls[i].Call < calls[j].Call })
	return calls
}

func history(cs []call) string {
	s := ""
	for i, c := range cs {
		if i > 0 {
			s += "; "
		}
		s += fmt.Sprintf("[%d,%d]ns %v", c.ct, c.rt, c.ok)
		if len(s) > 1500 {
			return s + "; ..."
		}
	}
	return s
}

// decide checks linearizability, one stretch of overlapping calls after the
// other, and, for the message, finds the first call at which the history stops
// being linearizable.
func decide[S comparable](cs []call, init S, what string, step func(s S, c *call) []S) {
	states := []S{init}
	for from := 0; from < len(cs); {
		to, end := from+1, cs[from].Ret
		for to < len(cs) && cs[to].Call < end {
			end = max(end, cs[to].Ret)
			to++
		}
		test := func(part []call) ([]S, bool) {
			ops := make([]lin.Op, len(part))
			for i := range part {
				ops[i] = part[i].Op
			}
			return lin.Finals(ops, states, func(s S, i int) []S { return step(s, &part[i]) })
		}
		next, known := test(cs[from:to])
		if !known {
			sim.Probe("lin-inconclusive")
			return
		}
		if len(next) == 0 {
			n := from + 1
			for ; n < to; n++ {
				// a prefix in call order; calls that overlap its end are left pending
				if o, k := test(cs[from:n]); k && len(o) == 0 {
					break
				}
			}
			sim.Fail("not-linearizable", "%s: no order of the calls explains the answers; first inexplicable: %v; history: %s", what, cs[n-1], history(cs[max(0, n-40):n]))
		}
		states, from = next, to
	}
}

// ---- C01 ----

type fwState struct {
	lo, hi int64
	n      int
}

// Fixed is C01.
func Fixed(ops []Op) {
	L, W := int(sim.Param("limit")), sim.Param("window")
	c := reading(sim.Now())
	l := fixed_window.NewFixedWindowLimiter(L, time.Duration(W))
	r := reading(sim.Now())
	cs := drive(ops, func(int) (bool, error) { return l.TryAcquire(), nil })
	decide(cs, fwState{c, r, 0}, fmt.Sprintf("fixed window, limit %d per %s", L, dur(W)), func(s fwState, x *call) []fwState {
		var out []fwState
		// stay in the window
		if x.c-s.hi <= W {
			lo := max(s.lo, x.c-W)
			if x.ok == (s.n < L) {
				n := s.n
				if x.ok {
					n++
				}
				out = append(out, fwState{lo, s.hi, n})
			}
		}
		// open a new one
		if x.r-s.lo > W && x.ok == (L > 0) {
			n := 0
			if x.ok {
				n = 1
			}
			out = append(out, fwState{max(x.c, s.lo+W+1), x.r, n})
		}
		return out
	})
}

// ---- C02 and C03 ----

type rateState struct{ level, secs int64 }

func rateStep(t0c, t0r int64, f func(level, passed int64, ok bool) (int64, bool)) func(s rateState, x *call) []rateState {
	return func(s rateState, x *call) []rateState {
		var out []rateState
		for n := floorDiv(x.c-t0r, sec); n <= floorDiv(x.r-t0c, sec); n++ {
			k := max(n, s.secs)
			if l, ok := f(s.level, k-s.secs, x.ok); ok {
				out = append(out, rateState{l, k})
			}
		}
		return out
	}
}

// times multiplies up to the largest number.
func times(a, b int64) int64 {
	if a > 0 && b > math.MaxInt64/a {
		return math.MaxInt64
	}
	return a * b
}

func floorDiv(a, b int64) int64 {
	if a < 0 {
		return 0
	}
	return a / b
}

// Leaky is C02.
func Leaky(ops []Op) {
	P, V := sim.Param("limit"), sim.Param("rate")
	c := reading(sim.Now())
	l := leaky_bucket.NewLeakyBucketLimiter(int(P), int(V))
	r := reading(sim.Now())
	cs := drive(ops, func(int) (bool, error) { return l.TryAcquire(), nil })
	decide(cs, rateState{}, fmt.Sprintf("leaky bucket, peak %d, %d per second", P, V), rateStep(c, r, func(level, passed int64, ok bool) (int64, bool) {
		level = max(0, level-min(level, times(passed, V)))
		if ok != (level < P) {
			return 0, false
		}
		if ok {
			level++
		}
		return level, true
	}))
}

// Token is C03.
func Token(ops []Op) {
	C, R := sim.Param("limit"), sim.Param("rate")
	c := reading(sim.Now())
	l := token_bucket.NewTokenBucketLimiter(int(C), int(R))
	r := reading(sim.Now())
	cs := drive(ops, func(int) (bool, error) { return l.TryAcquire(), nil })
	decide(cs, rateState{}, fmt.Sprintf("token bucket, capacity %d, %d per second", C, R), rateStep(c, r, func(level, passed int64, ok bool) (int64, bool) {
		level += min(C-level, times(passed, R))
		if ok != (level > 0) {
			return 0, false
		}
		if ok {
			level--
		}
		return level, true
	}))
}

// ---- C04 and C05 ----

// bounds: no span of length W-S or less holds more than L admissions.
func bounds(cs []call, L int, W, S int64, what string) {
	var adm []call
	for _, x := range cs {
		if x.ok {
			adm = append(adm, x)
		}
	}
	for _, a := range adm {
		n := 0
		last := int64(0)
		for _, b := range adm {
			if b.ct >= a.ct && b.rt <= a.ct+W-S-coarse() {
				n++
				last = max(last, b.rt)
			}
		}
		if n > L {
			sim.Fail("over-admission", "%s: %d admissions within %s (from %s to %s), a span in which at most %d are allowed; history: %s", what, n, dur(last-a.ct), dur(a.ct), dur(last), L, history(cs))
		}
	}
}

// bursts: two windows side by side are the most that a span shorter than one meets.
func bursts(cs []call, L int, W int64, what string) {
	var adm []call
	for _, x := range cs {
		if x.ok {
			adm = append(adm, x)
		}
	}
	for _, a := range adm {
		n := 0
		for _, b := range adm {
			if b.ct >= a.ct && b.rt < a.ct+W-coarse() {
				n++
			}
		}
		if n > L && n-L > L {
			sim.Fail("over-admission", "%s: %d admissions in less than %s (from %s), more than twice the limit; history: %s", what, n, dur(W), dur(a.ct), history(cs))
		}
	}
}

// justified: at least L admissions may fall in the W before the refused call.
func justified(cs []call, x call, L int, W int64) bool {
	n := 0
	for _, b := range cs {
		if b.ok && b.Call < x.Ret && b.rt >= x.ct-W-coarse() {
			n++
		}
	}
	return n >= L
}

// Sliding is C04.
func Sliding(ops []Op) {
	L, W, S := int(sim.Param("limit")), sim.Param("window"), sim.Param("small")
	what := fmt.Sprintf("sliding window, limit %d per %s in steps of %s", L, dur(W), dur(S))
	l, err := sliding_window.NewSlidingWindowLimiter(L, time.Duration(W), time.Duration(S))
	if (err != nil) != (W%S != 0) {
		sim.Fail("construction", "%s: construction answered %v", what, err)
	}
	if err != nil {
		return
	}
	cs := drive(ops, func(int) (bool, error) { return l.TryAcquire(), nil })
	bounds(cs, L, W, S, what)
	bursts(cs, L, W, what)
	for _, x := range cs {
		if !x.ok && !justified(cs, x, L, W) {
			sim.Fail("wrong-refusal", "%s: refused a %v, although fewer than %d calls were admitted in the %s before it; history: %s", what, x, L, dur(W), history(cs))
		}
	}
}

type strat struct {
	l int
	w int64
}

// Logs is C05: several limiters, possibly built from the same strategy values.
func Logs(ops []Op) {
	n := int(sim.Param("strategies"))
	var ss []strat
	var vals []*sliding_log.SlidingLogLimiterStrategy
	for i := 0; i < n; i++ {
		s := strat{int(sim.Param(fmt.Sprint("limit", i))), sim.Param(fmt.Sprint("window", i))}
		ss = append(ss, s)
		vals = append(vals, sliding_log.NewSlidingLogLimiterStrategy(s.l, time.Duration(s.w)))
	}
	nl := int(sim.Param("limiters"))
	type limiter struct {
		l    *sliding_log.SlidingLogLimiter
		s    int64
		what string
	}
	ls := make([]limiter, nl)
	build := func(m int) {
		S := sim.Param(fmt.Sprint("small", m))
		order := append([]strat(nil), ss...)
		args := append([]*sliding_log.SlidingLogLimiterStrategy(nil), vals...)
		if m%2 == 1 {
			for i, j := 0, len(args)-1; i < j; i, j = i+1, j-1 {
				args[i], args[j] = args[j], args[i]
			}
		}
		what := fmt.Sprintf("sliding log %d, strategies %v, steps of %s", m, order, dur(S))
		l, err := sliding_log.NewSlidingLogLimiter(time.Duration(S), args...)
		valid := n > 0
		for i, a := range ss {
			if a.w%S != 0 {
				valid = false
			}
			for j, b := range ss {
				if i != j && (a.w < b.w || a.w == b.w) && a.l >= b.l {
					if a.w < b.w || a.l == b.l {
						valid = false
					}
				}
			}
		}
		if valid != (err == nil) {
			sim.Fail("construction", "%s: construction answered %v", what, err)
		}
		if err == nil {
			ls[m] = limiter{l, S, what}
		}
	}
	if sim.Param("concurrent-build") == 1 {
		var ts []*sim.Task
		for m := 0; m < nl; m++ {
			ts = append(ts, sim.GoNamed(fmt.Sprint("builder", m), func() { build(m) }))
		}
		sim.Join(0, ts...)
	} else {
		for m := 0; m < nl; m++ {
			build(m)
		}
	}
	cs := drive(ops, func(m int) (bool, error) {
		m %= nl
		if ls[m].l == nil {
			return false, nil
		}
		err := ls[m].l.TryAcquire()
		return err == nil, err
	})
	for m := range ls {
		l := ls[m]
		if l.l == nil {
			continue
		}
		var mine []call
		for _, x := range cs {
			if x.m%nl == m {
				mine = append(mine, x)
			}
		}
		for _, s := range ss {
			bounds(mine, s.l, s.w, l.s, l.what+fmt.Sprintf(", strategy %d per %s", s.l, dur(s.w)))
			bursts(mine, s.l, s.w, l.what+fmt.Sprintf(", strategy %d per %s", s.l, dur(s.w)))
		}
		for _, x := range mine {
			if x.ok {
				continue
			}
			var v *sliding_log.ViolationStrategyError
			if !errors.As(x.err, &v) {
				sim.Fail("wrong-error", "%s: refused with %v, which names no strategy", l.what, x.err)
			}
			known := false
			for _, s := range ss {
				known = known || s.l == v.Limit && s.w == int64(v.Window)
			}
			if !known {
				sim.Fail("wrong-error", "%s: refused naming limit %d per %v, which is not configured", l.what, v.Limit, v.Window)
			}
			if !justified(mine, x, v.Limit, int64(v.Window)) {
				sim.Fail("wrong-refusal", "%s: refused a %v naming limit %d per %v, although fewer were admitted in that time; history: %s", l.what, x, v.Limit, v.Window, history(mine))
			}
		}
	}
}

// ---- generators ----

func clock(g *run.G, c *sim.Config, unit int64) {
	if g.P(0.5) {
		c.Coarse = run.Pick(g, unit/10, unit/4, unit)
		if c.Coarse < 1 {
			c.Coarse = 1
		}
		c.Params["coarse"] = c.Coarse
	}
	g.Stalls(c, 0.3, 1e3, unit/10, unit, 3*unit)
	g.Leaps(c, 0.25, unit/100, unit/3, unit, 5*unit)
	g.WallSteps(c, 0.4, -3600*sec, -unit, unit/2, 7200*sec, -30*unit)
}

func workload(g *run.G, callers, total, limiters int, waits []int64) []Op {
	var ops []Op
	n := g.Range(1, callers)
	for k := 0; k < total; {
		b := g.Range(1, 4)
		if g.P(0.2) {
			b = g.Range(1, 8)
		}
		k += b
		ops = append(ops, Op{T: g.Intn(n), W: run.Pick(g, waits...), A: g.P(0.3), N: b, M: g.Intn(limiters)})
	}
	return ops
}

// far are waits after which little is left of any arithmetic that does not look out.
var far = []int64{0, 0, 0, sec, 60 * sec, 3600 * sec, 86400 * sec, 30 * 86400 * sec, 366 * 86400 * sec, 10 * 366 * 86400 * sec}

// large makes a workload of bursts around a large limit.
func large(g *run.G, limit, limiters int, waits []int64) []Op {
	var ops []Op
	for k := g.Range(2, 6); k > 0; k-- {
		o := Op{W: run.Pick(g, waits...), A: g.P(0.3), N: limit + g.Range(-2, 2), M: g.Intn(limiters)}
		if g.P(0.3) {
			o.N = g.Range(1, limit)
		}
		ops = append(ops, o)
		if g.P(0.2) {
			// somebody else at the same time, with a few calls
			ops = append(ops, Op{T: 1, W: run.Pick(g, waits...), N: g.Range(1, 3), M: g.Intn(limiters)})
		}
	}
	if g.P(0.2) {
		ops[g.Intn(len(ops))].W = 70 * 366 * 86400 * sec
	}
	return ops
}

// GenFixed generates C01 workloads.
func GenFixed(g *run.G, c *sim.Config) []Op {
	if g.P(0.02) {
		W := run.Pick(g, ms, sec, 3600*sec, 30*86400*sec, 10*366*86400*sec)
		L := run.Pick(g, 60, 100, 130, 256, 300, 1000)
		c.Params["window"], c.Params["limit"] = W, int64(L)
		if g.P(0.3) {
			c.Params["limit"], L = run.Pick(g, int64(1<<31-1), 1<<31, 1<<32, 1<<63-1), 20
		}
		clock(g, c, min(W/8, 10*sec)) // readings are multiples of the granularity from the start only if it divides ten seconds
		return large(g, L, 1, []int64{0, 0, W / 2, W, W + 1, 2 * W})
	}
	W := run.Pick(g, 10*ms, 100*ms, sec, 10*sec)
	c.Params["window"], c.Params["limit"] = W, int64(run.Pick(g, 1, 1, 2, 3, 5, 8, 0))
	clock(g, c, W)
	return workload(g, 5, g.Range(4, 40), 1, []int64{0, 0, 0, W / 10, W / 2, W, W, W + 1, W + W/10, 3 * W})
}

// GenRate generates C02 and C03 workloads.
func GenRate(g *run.G, c *sim.Config) []Op {
	if g.P(0.02) {
		L := run.Pick(g, 1, 60, 130, 256, 300, 1000)
		big := []int64{1<<31 - 1, 1 << 31, 1 << 32, 1e12, 1 << 53, 1 << 60, 1 << 62, 1<<63 - 1}
		c.Params["limit"], c.Params["rate"] = int64(L), run.Pick(g, 1, 7, 50, int64(L), int64(L)+1, 1000, 1e6, 1e9, 1e10, run.Pick(g, big...), run.Pick(g, big...))
		if g.P(0.3) {
			c.Params["limit"], L = run.Pick(g, big...), 20
		}
		clock(g, c, sec)
		return large(g, L, 1, far)
	}
	c.Params["limit"], c.Params["rate"] = int64(run.Pick(g, 1, 2, 3, 5, 8, 0)), int64(run.Pick(g, 1, 1, 2, 3, 5, 0))
	clock(g, c, sec)
	waits := []int64{0, 0, 0, sec / 10, sec / 2, sec, sec - 1, 1500 * ms, 1900 * ms, 3 * sec, 700 * ms}
	if g.P(0.3) {
		waits = []int64{run.Pick(g, 100*ms, 300*ms, 700*ms, 999*ms, 1001*ms, 1500*ms, 1999*ms)}
	}
	return workload(g, 5, g.Range(6, 50), 1, waits)
}

// dense makes calls in more small windows than usual, k of which make a window.
func dense(g *run.G, c *sim.Config) (ops []Op, L, k int, S int64) {
	k = run.Pick(g, 130, 300, 520, 1050, 1300)
	L = k - run.Pick(g, 2, 5, 30)
	S = run.Pick(g, ms, sec)
	c.MaxSteps = 4e8
	ops = []Op{{N: L, G: S}, {W: run.Pick(g, 0, S, S/2), N: g.Range(3, 20), G: run.Pick(g, 0, S/2, S)}}
	if g.P(0.3) {
		ops = append(ops, Op{W: S * int64(k), N: 20, G: run.Pick(g, 0, S)})
	}
	return ops, L, k, S
}

// GenSliding generates C04 workloads.
func GenSliding(g *run.G, c *sim.Config) []Op {
	if g.P(0.0002) {
		ops, L, k, S := dense(g, c)
		c.Params["small"], c.Params["window"], c.Params["limit"] = S, S*int64(k), int64(L)
		return ops
	}
	if g.P(0.02) {
		k := int64(run.Pick(g, 1, 7, 60, 100, 1000, 86400))
		S := run.Pick(g, int64(1000), ms, sec, 3600*sec)
		L := run.Pick(g, 1, 60, 130)
		c.Params["small"], c.Params["window"], c.Params["limit"] = S, S*k, int64(L)
		clock(g, c, min(S, 10*sec))
		return large(g, L, 1, append([]int64{S * k / 2, S * k, S*k - S, S*k + S, S}, far...))
	}
	S := run.Pick(g, ms, 10*ms, 100*ms, sec, 7*ms)
	k := int64(run.Pick(g, 1, 2, 2, 3, 4, 5, 10))
	W := S * k
	if g.P(0.05) {
		W += run.Pick(g, int64(1), S/2, S-1)
	}
	c.Params["small"], c.Params["window"], c.Params["limit"] = S, W, int64(run.Pick(g, 1, 1, 2, 3, 5))
	clock(g, c, S)
	if g.P(0.3) {
		g.WallSteps(c, 1, W, -W, -S, S, 3*W)
	}
	return workload(g, 4, g.Range(6, 60), 1, []int64{0, 0, 0, S / 10, S / 2, S, S, S + S/10, W, W - S, W + S, W / 2})
}

// GenLogs generates C05 workloads.
func GenLogs(g *run.G, c *sim.Config) []Op {
	if g.P(0.0002) {
		ops, L, k, S := dense(g, c)
		c.Params["strategies"], c.Params["limiters"], c.Params["small0"] = 2, 1, S
		c.Params["limit0"], c.Params["window0"] = int64(L), S*int64(k)
		c.Params["limit1"], c.Params["window1"] = int64(L-1), S*int64(k/2)
		if g.P(0.5) {
			c.Params["strategies"] = 1
		}
		return ops
	}
	if g.P(0.02) {
		k := int64(run.Pick(g, 2, 12, 60, 100))
		S := run.Pick(g, int64(1000), ms, sec, 3600*sec)
		L := run.Pick(g, 60, 130)
		c.Params["strategies"], c.Params["limiters"], c.Params["small0"] = 2, 1, S
		c.Params["limit0"], c.Params["window0"] = int64(L), S*k
		c.Params["limit1"], c.Params["window1"] = int64(L/2), S*max(1, k/2)
		clock(g, c, min(S, 10*sec))
		return large(g, L, 1, append([]int64{S * k / 2, S * k, S*k - S, S*k + S, S}, far...))
	}
	S := run.Pick(g, ms, 10*ms, 100*ms, sec)
	n := g.Range(1, 3)
	if g.P(0.03) {
		n = 0
	}
	c.Params["strategies"] = int64(n)
	ws := []int64{S * int64(g.Range(1, 3)), S * int64(g.Range(3, 6)), S * int64(g.Range(6, 12))}
	lim := int64(0)
	W := S
	idx := []int{0, 1, 2}[:n]
	if g.P(0.5) {
		for i := range idx {
			j := g.Intn(n)
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	for k := 0; k < n; k++ {
		lim += int64(g.Range(1, 3))
		l := lim
		if g.P(0.03) {
			l = int64(g.Range(1, 3))
		}
		c.Params[fmt.Sprint("limit", idx[k])], c.Params[fmt.Sprint("window", idx[k])] = l, ws[k]
		W = ws[k]
	}
	m := g.Range(1, 3)
	c.Params["limiters"] = int64(m)
	c.Params["concurrent-build"] = int64(g.Intn(2))
	for i := 0; i < m; i++ {
		s := S
		if g.P(0.4) {
			s = run.Pick(g, S/2, S/5, S/10)
		}
		if g.P(0.03) {
			s = S + 1
		}
		c.Params[fmt.Sprint("small", i)] = s
	}
	clock(g, c, S)
	if g.P(0.3) {
		g.WallSteps(c, 1, W, -W, -S, S, 3*W)
	}
	return workload(g, 4, g.Range(6, 60), m, []int64{0, 0, 0, S / 10, S / 2, S, S, S + S/10, W, W - S, W + S, W / 2, ws[0]})
}

// Stub lists what was simulated.
var Stub = []string{"goroutine scheduler", "sync.Mutex", "time (monotonic and wall clock)", "map iteration order"}
