// Package xtime stands in for time: clocks, timers and sleeps are simulated,
// everything else is the real package.
package xtime

import (
	"dst/sim"
	"math"
	"time"
	"unsafe"
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMono        = 1 << 63
	secToYear1885  = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
)

// Make builds a time with a wall and a monotonic reading.
func Make(wallNs, mono int64) time.Time {
	sec, ns := wallNs/1e9, wallNs%1e9
	if ns < 0 {
		ns += 1e9
		sec--
	}
	var t time.Time
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = hasMono | uint64(sec+unixToInternal-secToYear1885)<<30 | uint64(ns)
	r.ext = mono
	r.loc = time.Local
	return t
}

func init() {
	// the layout of time.Time must be the one assumed
	n := time.Now()
	r := (*rawTime)(unsafe.Pointer(&n))
	m := Make(n.UnixNano(), r.ext)
	if !m.Equal(n) || m.UnixNano() != n.UnixNano() || m.Sub(n) != 0 || !m.Add(5).After(n) || m.String() != n.String() {
		panic("xtime: the layout of time.Time is not the expected one")
	}
	time.Local = Local
}

func Now() time.Time {
	w, m := sim.ClockRead()
	return Make(w, m)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if sim.S == nil {
		return
	}
	if d <= 0 {
		sim.Yield()
		return
	}
	sim.TimerArmed()
	sim.Sleep(int64(d))
}

type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	h    *sim.TimerH
	vc   sim.VC
	proc int
	old  bool
}

var siteT = sim.Site("time.Timer")

// never is as far away as a timer can be.
const never = math.MaxInt64 - int64(1<<43)

func when(d time.Duration) int64 {
	at := sim.Now() + int64(d)
	if d > 0 && (at < 0 || at > never) {
		at = never
	}
	if d < 0 {
		at = sim.Now()
	}
	return at
}

func (t *Timer) arm(d time.Duration) {
	t.vc = sim.Snapshot()
	t.proc = sim.Proc()
	t.h = sim.AddTimer(when(d), t.fire)
}

func (t *Timer) fire() {
	t.h = nil
	if t.f != nil {
		sim.SpawnFromTimer(t.proc, "AfterFunc", t.vc, t.f)
		return
	}
	sim.State((<-chan time.Time)(t.c)).TimerSend(Make(sim.Wall(), sim.AbsNow()), t.vc)
}

func newTimer(f func()) *Timer {
	t := &Timer{f: f}
	if f == nil {
		t.c = make(chan time.Time, 1)
		t.C = t.c
		t.old = sim.S.Cfg.OldTimer
		if !t.old {
			sim.State(t.C).Sync = true
		}
	}
	return t
}

func NewTimer(d time.Duration) *Timer {
	sim.SyncPoint(siteT)
	t := newTimer(nil)
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	sim.SyncPoint(siteT)
	t := newTimer(f)
	t.arm(d)
	return t
}

func (t *Timer) stop() bool {
	active := t.h != nil
	if active {
		sim.DelTimer(t.h)
		t.h = nil
	}
	if t.c != nil && !t.old {
		if sim.State(t.C).Drain() {
			active = true
		}
	}
	return active
}

func (t *Timer) Stop() bool {
	if !sim.SyncPoint(siteT) {
		return false
	}
	if t.c == nil && t.f == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if !sim.SyncPoint(siteT) {
		return false
	}
	r := t.stop()
	t.arm(d)
	return r
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C   <-chan time.Time
	t   *Timer
	d   time.Duration
	off bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	sim.SyncPoint(siteT)
	k := &Ticker{t: newTimer(nil), d: d}
	k.C = k.t.C
	k.arm(sim.Now() + int64(d))
	return k
}

func (k *Ticker) arm(at int64) {
	k.t.vc = sim.Snapshot()
	var fire func()
	next := at
	fire = func() {
		k.t.fire()
		for next += int64(k.d); next <= sim.Now(); next += int64(k.d) {
		}
		k.t.h = sim.AddTimer(next, fire)
	}
	k.t.h = sim.AddTimer(at, fire)
}

func (k *Ticker) Stop() {
	if sim.SyncPoint(siteT) {
		k.t.stop()
	}
}

func (k *Ticker) Reset(d time.Duration) {
	if !sim.SyncPoint(siteT) {
		return
	}
	k.t.stop()
	k.d = d
	k.arm(sim.Now() + int64(d))
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Local is a fixed zone, whatever the machine's.
var Local = time.FixedZone("CST", 8*3600)
