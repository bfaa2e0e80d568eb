// Package sim is a deterministic simulator for Go code. Code under test is
// rewritten (cmd/rewrite) so that goroutines, channels, locks, atomics, shared
// memory accesses, clocks, timers, the file system and random numbers all go
// through it. Exactly one task runs at a time; which one, and every fault, is
// decided here from one seed, or from a recorded list of decisions.
package sim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// Dev is one recorded decision that deviates from the default one.
// K: 'S' switch to task V, 'T' stall the task for V ns, 'L' leap time by V ns,
// 'W' step the wall clock by V ns, 'K' crash the process group V,
// 'C' a choice (fault, select case, map order, generic) of value V.
type Dev struct {
	K string `json:"k"`
	I int    `json:"i"`
	V int64  `json:"v"`
	N string `json:"n,omitempty"` // where (information only)
}

// Config says how a run explores. It is part of a replay file.
type Config struct {
	Seed     uint64           `json:"seed"`
	Strategy string           `json:"strategy"` // random | pct | calm
	SwitchP  float64          `json:"switch_p"` // random: switch probability at synchronisation points
	MemP     float64          `json:"mem_p"`    // random: switch probability at memory accesses
	PctD     int              `json:"pct_d"`
	PctLen   int              `json:"pct_len"`
	StallP   float64          `json:"stall_p"`
	StallNs  []int64          `json:"stall_ns,omitempty"`
	LeapP    float64          `json:"leap_p"`
	LeapNs   []int64          `json:"leap_ns,omitempty"`
	WallP    float64          `json:"wall_p"`
	WallNs   []int64          `json:"wall_ns,omitempty"`
	CrashP   float64          `json:"crash_p"`
	FaultP   float64          `json:"fault_p"`          // probability that an enabled fault point fires
	Faults   string           `json:"faults,omitempty"` // comma separated enabled fault kinds, "*" all
	MaxFault int              `json:"max_fault"`        // at most so many faults per run
	MaxStall int              `json:"max_stall"`        // at most so many stalls, leaps, wall steps
	StepNs   int64            `json:"step_ns"`          // simulated cost of one step
	Coarse   int64            `json:"coarse,omitempty"` // clock granularity in ns
	Wall0    int64            `json:"wall0,omitempty"`  // ns since 1970 that the wall clock shows at first; 0: some day in 2024
	OldTimer bool             `json:"old_timer"`        // pre-1.23 timer channel semantics
	MaxSteps int              `json:"max_steps"`
	Params   map[string]int64 `json:"params,omitempty"`
}

// Violation is what a run found.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type taskState uint8

const (
	tNew taskState = iota
	tRunnable
	tBlocked
	tStalled
	tDone
)

// Task is one simulated goroutine.
type Task struct {
	ID      int
	Name    string
	Proc    int
	wake    chan struct{}
	dead    chan struct{}
	state   taskState
	killed  bool
	kspin   int
	fn      func()
	vc      VC
	prio    int64
	streak  int
	why     string
	site    int
	joiners []*Task
	selIdx  int
	timer   *timerEv
	started bool
	Local   any
}

type timerEv struct {
	lib  bool // armed by the code under test
	when int64
	seq  uint64
	f    func()
	idx  int
	dead bool
}

// Stats of one run.
type Stats struct {
	Steps, Switches, MemSwitches, Stalls, Leaps, WallSteps, Crashes, Spawned, Races int
	Faults                                                                          map[string]int
	FaultPoints                                                                     map[string]int
	Probes                                                                          map[string]int
	SimNs                                                                           int64
	SchedHash, LogHash                                                              uint64
}

// Sim is one run.
type Sim struct {
	Cfg     Config
	rng     Rng
	replay  bool
	devs    map[string]map[int]int64
	Log     []Dev
	Trace   []string
	tracing bool

	tasks   []*Task // live tasks, by id
	run     []*Task // runnable tasks, by id
	nextID  int
	cur     *Task
	mono    int64
	wallOff int64
	walls   []wallStep
	lastRd  int64
	timers  []*timerEv
	tseq    uint64
	seq     uint64

	yi, ci   int
	quiet    int
	calm     bool
	noCrash  int
	nFault   int
	nStall   int
	patience int // the step of the last stall
	granted  int // steps added to the limit
	stopped  bool
	ctl      chan struct{}
	viol     *Violation
	objs     map[any]any
	ResetFS  func()
	pctAt    []int
	pctLow   int64
	rrPos    int
	St       Stats
	injected int64
	shadow   map[uptr]*cell
	syncv    map[uptr]*VC
	RaceOn   bool
	crashed  map[int]bool
	OnCrash  func(proc int)
	clockRd  int
	timerSet int
	chans    map[unsafe.Pointer]*Chan
	ptrN     int
	keep     []any
	starts   uint64
}

// S is the current run.
var S *Sim

// Baselines: a wall clock in 2024, and a monotonic clock well above zero.
const (
	wallBase = int64(1718000000) * 1e9
	monoBase = int64(1000) * 1e9
)

var resets []func()

// OnReset registers a function that puts package state back to its initial
// value; generated code calls it.
func OnReset(f func()) { resets = append(resets, f) }

// Reset puts package state back to its initial value, as at the start of a
// process. No other task may be running.
func Reset() {
	S.starts++
	S.quiet++
	for _, f := range resets {
		f()
	}
	S.quiet--
}

// Starts counts the process starts of this run after the first.
func Starts() uint64 { return S.starts }

// Result of a run.
type Result struct {
	Viol  *Violation
	Log   []Dev
	Trace []string
	St    Stats
}

// Run executes body as task 0 of a fresh simulation.
func Run(cfg Config, devs []Dev, replay, trace bool, body func()) (res Result) {
	if cfg.StepNs == 0 {
		cfg.StepNs = 20
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 4000000
	}
	s := &Sim{Cfg: cfg, replay: replay, tracing: trace, ctl: make(chan struct{}, 1),
		mono: monoBase, objs: map[any]any{}, chans: map[unsafe.Pointer]*Chan{}, shadow: map[uptr]*cell{}, syncv: map[uptr]*VC{}, RaceOn: true, crashed: map[int]bool{}}
	s.St.Faults, s.St.FaultPoints, s.St.Probes = map[string]int{}, map[string]int{}, map[string]int{}
	s.St.SchedHash, s.St.LogHash = 14695981039346656037, 14695981039346656037
	s.rng = NewRng(cfg.Seed ^ 0x9E3779B97F4A7C15)
	if replay {
		s.devs = map[string]map[int]int64{}
		for _, d := range devs {
			if s.devs[d.K] == nil {
				s.devs[d.K] = map[int]int64{}
			}
			s.devs[d.K][d.I] = d.V
		}
	} else if cfg.Strategy == "pct" {
		n := cfg.PctLen
		if n == 0 {
			n = 2000
		}
		for i := 0; i < cfg.PctD; i++ {
			s.pctAt = append(s.pctAt, int(s.rng.Uint64()%uint64(n)))
		}
		sort.Ints(s.pctAt)
	}
	if cfg.Wall0 != 0 {
		s.wallOff = cfg.Wall0 - wallBase
		s.walls = []wallStep{{monoBase, s.wallOff}}
	}
	S = s
	defer func() { S = nil }()
	t := s.newTask("main", 0, func() {
		s.quiet++
		for _, f := range resets {
			f()
		}
		s.quiet--
		body()
	})
	s.makeRunnable(t)
	s.cur = t
	t.started = true
	go s.taskMain(t)
	<-s.ctl
	s.stopped = true
	s.killAll(func(*Task) bool { return true })
	s.St.SimNs = s.mono - monoBase
	return Result{Viol: s.viol, Log: s.Log, Trace: s.Trace, St: s.St}
}

func (s *Sim) newTask(name string, proc int, fn func()) *Task {
	t := &Task{ID: s.nextID, Name: name, Proc: proc, wake: make(chan struct{}, 1), dead: make(chan struct{}), fn: fn, site: -1}
	s.nextID++
	s.tasks = append(s.tasks, t)
	s.St.Spawned++
	if s.Cfg.Strategy == "pct" && !s.replay {
		t.prio = int64(s.rng.Uint64()>>33) + 1
	}
	return t
}

func (s *Sim) makeRunnable(t *Task) {
	if t.state == tRunnable || t.state == tDone {
		return
	}
	t.state = tRunnable
	i := sort.Search(len(s.run), func(i int) bool { return s.run[i].ID >= t.ID })
	s.run = append(s.run, nil)
	copy(s.run[i+1:], s.run[i:])
	s.run[i] = t
}

func (s *Sim) unrun(t *Task) {
	for i, x := range s.run {
		if x == t {
			s.run = append(s.run[:i], s.run[i+1:]...)
			return
		}
	}
}

type killToken struct{}

func (s *Sim) taskMain(t *Task) {
	if t.ID != 0 {
		<-t.wake
	}
	normal := false
	defer func() {
		if t.killed {
			if r := recover(); r != nil {
				_ = r
			}
			close(t.dead)
			return
		}
		if !normal {
			if r := recover(); r != nil {
				s.setViol("panic", fmt.Sprintf("task %s panicked: %v%s", t.Name, r, shortStack()))
			} else {
				// runtime.Goexit by the code under test: an ordinary end of a goroutine
				normal = true
			}
		}
		s.endTask(t)
		close(t.dead)
	}()
	t.fn()
	normal = true
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "/gen/repo/"); i >= 0 {
			l = l[i+len("/gen/repo/"):]
			if j := strings.Index(l, " +0x"); j >= 0 {
				l = l[:j]
			}
			out = append(out, l)
		}
		if len(out) >= 4 {
			break
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " at " + strings.Join(out, " < ")
}

func (s *Sim) endTask(t *Task) {
	t.state = tDone
	s.unrun(t)
	for i, x := range s.tasks {
		if x == t {
			s.tasks = append(s.tasks[:i], s.tasks[i+1:]...)
			break
		}
	}
	for _, j := range t.joiners {
		j.vc.join(t.vc)
		s.makeRunnable(j)
	}
	t.joiners = nil
	if t.ID == 0 || s.viol != nil {
		s.finish()
		return
	}
	next := s.pickBlocked()
	if next == nil {
		return
	}
	s.cur = next
	s.start(next)
}

func (s *Sim) start(t *Task) {
	if !t.started {
		t.started = true
		go s.taskMain(t)
	}
	t.wake <- struct{}{}
}

func (s *Sim) finish() {
	select {
	case s.ctl <- struct{}{}:
	default:
	}
}

func (s *Sim) setViol(class, msg string) {
	if s.viol == nil {
		s.viol = &Violation{Class: class, Msg: msg}
		s.trace("VIOLATION %s: %s", class, msg)
	}
}

// Fail reports a violation and ends the run.
func Fail(class, format string, args ...any) {
	s := S
	t := s.cur
	if t.killed {
		runtime.Goexit()
	}
	s.setViol(class, fmt.Sprintf(format, args...))
	s.finish()
	<-t.wake // woken only to be killed
	runtime.Goexit()
}

// killAll ends every live task selected, running its deferred calls with all
// simulated operations disabled. Called by the controller, or by the running
// task (for others than itself).
func (s *Sim) killAll(sel func(*Task) bool) {
	list := append([]*Task(nil), s.tasks...)
	saved := s.cur
	for _, t := range list {
		if t == saved && !s.stopped {
			continue
		}
		if !sel(t) || t.state == tDone {
			continue
		}
		t.killed = true
		s.unrun(t)
		if t.timer != nil {
			t.timer.dead = true
		}
		t.state = tDone
		for i, x := range s.tasks {
			if x == t {
				s.tasks = append(s.tasks[:i], s.tasks[i+1:]...)
				break
			}
		}
		for _, j := range t.joiners {
			s.makeRunnable(j)
		}
		t.joiners = nil
		if !t.started {
			continue
		}
		s.cur = t
		select {
		case <-t.dead:
		default:
			select {
			case t.wake <- struct{}{}:
			default:
			}
			<-t.dead
		}
	}
	s.cur = saved
}

// ---- decisions ----

func (s *Sim) record(k string, i int, v int64, n string) {
	s.Log = append(s.Log, Dev{K: k, I: i, V: v, N: n})
}

func (s *Sim) mix(a, b uint64) {
	h := s.St.LogHash
	h = (h ^ a) * 1099511628211
	h = (h ^ b) * 1099511628211
	s.St.LogHash = h
}

func (s *Sim) trace(f string, a ...any) {
	if s.tracing {
		s.Trace = append(s.Trace, fmt.Sprintf("[%6d t=%dns] ", s.St.Steps, s.mono-monoBase)+fmt.Sprintf(f, a...))
	}
}

// Tracef adds a line to the trace of a replay.
func Tracef(f string, a ...any) {
	if S != nil && S.tracing {
		S.trace("%s: "+f, append([]any{S.cur.Name}, a...)...)
	}
}

// yield is a scheduling point. mem says it is a plain memory access.
func (s *Sim) yield(site int, mem bool) {
	t := s.cur
	if t.killed {
		t.kspin++
		if t.kspin > 20000 {
			runtime.Goexit()
		}
		return
	}
	if s.quiet > 0 {
		return
	}
	t.site = site
	s.St.Steps++
	s.mono += s.Cfg.StepNs
	if s.St.Steps > s.Cfg.MaxSteps+s.granted {
		Fail("step-limit", "no end after %d steps: %s", s.Cfg.MaxSteps+s.granted, s.Describe())
	}
	i := s.yi
	s.yi++
	if len(s.timers) > 0 && s.timers[0].when <= s.mono {
		s.fire()
	}
	if s.St.Steps-s.patience > 30000 {
		s.relieve()
	}
	if s.calm {
		// nothing adverse any more
	} else if s.replay {
		s.replayYield(t, i)
	} else {
		s.perturb(t, i)
	}
	if t.state == tRunnable && len(s.run) == 1 {
		return
	}
	var next *Task
	if t.state != tRunnable {
		s.block0(t)
		return
	}
	next = s.pickYield(t, i, mem)
	if next != t {
		s.switchTo(next, mem)
	}
}

func (s *Sim) switchTo(next *Task, mem bool) {
	t := s.cur
	s.St.Switches++
	if mem {
		s.St.MemSwitches++
	}
	h := s.St.SchedHash
	h = (h ^ uint64(t.ID)) * 1099511628211
	h = (h ^ uint64(uint32(t.site))) * 1099511628211
	h = (h ^ uint64(next.ID)) * 1099511628211
	s.St.SchedHash = h
	s.mix(uint64(s.St.Steps), uint64(next.ID))
	if s.tracing {
		s.trace("switch %s@%s -> %s", t.Name, SiteName(t.site), next.Name)
	}
	t.streak = 0
	s.cur = next
	s.start(next)
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

// rotate asks for a switch now and then in a long run, at points with no pattern,
// so that tasks which retry until another gets on do not retry in step for ever.
func (s *Sim) rotate() bool {
	return s.St.Steps > 100000 && uint64(s.St.Steps)*0x9E3779B97F4A7C15>>32%61 == 0
}

func (s *Sim) pickYield(t *Task, i int, mem bool) *Task {
	if s.calm {
		// deterministic rotation, only at synchronisation points or after a while
		t.streak++
		if mem && t.streak < 50 && !s.rotate() {
			return t
		}
		for _, x := range s.run {
			if x.ID > t.ID {
				return x
			}
		}
		return s.run[0]
	}
	if s.replay {
		if v, ok := s.devs["S"][i]; ok {
			for _, x := range s.run {
				if int64(x.ID) == v {
					return x
				}
			}
		}
		// fairness for the default schedule
		t.streak++
		if t.streak > 3000 || s.rotate() {
			for _, x := range s.run {
				if x.ID > t.ID {
					return x
				}
			}
			return s.run[0]
		}
		return t
	}
	next := t
	switch s.Cfg.Strategy {
	case "pct":
		for len(s.pctAt) > 0 && s.pctAt[0] <= i {
			s.pctAt = s.pctAt[1:]
			s.pctLow--
			t.prio = s.pctLow
		}
		t.streak++
		if t.streak > 1500 || s.rotate() {
			s.pctLow--
			t.prio = s.pctLow
		}
		for _, x := range s.run {
			if x.prio > next.prio {
				next = x
			}
		}
	default:
		p := s.Cfg.SwitchP
		if mem {
			p = s.Cfg.MemP
		}
		t.streak++
		if t.streak > 1500 || s.rotate() {
			p = 1
		}
		if s.rng.Float() < p {
			k := int(s.rng.Uint64() % uint64(len(s.run)-1))
			if s.run[k].ID >= t.ID {
				k++
			}
			next = s.run[k]
		}
	}
	if next != t || t.streak > 3000 {
		s.record("S", i, int64(next.ID), SiteName(t.site))
	}
	return next
}

func (s *Sim) replayYield(t *Task, i int) {
	if v, ok := s.devs["L"][i]; ok {
		s.leap(v)
	}
	if v, ok := s.devs["W"][i]; ok {
		s.wallStep(v)
	}
	if v, ok := s.devs["T"][i]; ok {
		s.stall(t, v)
	}
	if v, ok := s.devs["K"][i]; ok {
		s.crash(int(v))
	}
}

func (s *Sim) perturb(t *Task, i int) {
	c := &s.Cfg
	if c.StallP == 0 && c.LeapP == 0 && c.WallP == 0 && c.CrashP == 0 {
		return
	}
	if c.CrashP > 0 && s.noCrash == 0 && t.Proc != 0 && s.rng.Float() < c.CrashP {
		s.record("K", i, int64(t.Proc), SiteName(t.site))
		s.crash(t.Proc)
	}
	if s.nStall >= c.MaxStall {
		return
	}
	r := s.rng.Float()
	switch {
	case r < c.StallP:
		if len(c.StallNs) == 0 || t.ID == 0 {
			return
		}
		v := s.jitter(c.StallNs[s.rng.Uint64()%uint64(len(c.StallNs))])
		s.nStall++
		s.record("T", i, v, SiteName(t.site))
		s.stall(t, v)
	case r < c.StallP+c.LeapP:
		if len(c.LeapNs) == 0 {
			return
		}
		v := s.jitter(c.LeapNs[s.rng.Uint64()%uint64(len(c.LeapNs))])
		s.nStall++
		s.record("L", i, v, SiteName(t.site))
		s.leap(v)
	case r < c.StallP+c.LeapP+c.WallP:
		if len(c.WallNs) == 0 {
			return
		}
		v := c.WallNs[s.rng.Uint64()%uint64(len(c.WallNs))]
		s.nStall++
		s.record("W", i, v, SiteName(t.site))
		s.wallStep(v)
	}
}

func (s *Sim) jitter(v int64) int64 {
	switch s.rng.Uint64() % 3 {
	case 0:
		return v
	case 1:
		return v + int64(s.rng.Uint64()%uint64(v/4+1))
	}
	return v - int64(s.rng.Uint64()%uint64(v/4+1))
}

func (s *Sim) stall(t *Task, d int64) {
	s.St.Stalls++
	s.patience = s.St.Steps
	s.injected += d
	s.mix(7, uint64(d))
	s.trace("STALL %s@%s for %dns", t.Name, SiteName(t.site), d)
	t.state = tStalled
	t.why = "stalled"
	s.unrun(t)
	t.timer = s.addTimer(s.mono+d, func() {
		if t.state == tStalled {
			s.makeRunnable(t)
		}
	})
}

// relieve ends the stalls early when the others have been busy for long: they
// may be polling for the stalled one.
func (s *Sim) relieve() {
	s.patience = s.St.Steps
	for _, t := range s.tasks {
		if t.state == tStalled {
			s.trace("END of the stall of %s", t.Name)
			s.delTimer(t.timer)
			s.makeRunnable(t)
		}
	}
}

func (s *Sim) leap(d int64) {
	s.St.Leaps++
	s.injected += d
	s.mix(8, uint64(d))
	s.trace("LEAP time by %dns", d)
	s.mono += d
	s.fire()
}

func (s *Sim) wallStep(d int64) {
	s.St.WallSteps++
	s.mix(9, uint64(d))
	s.trace("WALL clock stepped by %dns", d)
	s.wallOff += d
	s.walls = append(s.walls, wallStep{s.mono, s.wallOff})
}

// crash kills every task of a process group at this instant.
func (s *Sim) crash(proc int) {
	s.St.Crashes++
	s.mix(10, uint64(proc))
	s.trace("CRASH of process group %d in %s@%s", proc, s.cur.Name, SiteName(s.cur.site))
	s.crashed[proc] = true
	me := s.cur
	s.killAll(func(t *Task) bool { return t.Proc == proc })
	if s.OnCrash != nil {
		s.OnCrash(proc)
	}
	if me.Proc == proc {
		// end the running task too: it leaves the scheduler first
		me.killed = true
		me.state = tDone
		s.unrun(me)
		for i, x := range s.tasks {
			if x == me {
				s.tasks = append(s.tasks[:i], s.tasks[i+1:]...)
				break
			}
		}
		for _, j := range me.joiners {
			s.makeRunnable(j)
		}
		me.joiners = nil
		// run its deferred calls with operations disabled, then hand over
		go func() {
			<-me.dead
			next := s.pickBlocked()
			if next != nil {
				s.cur = next
				s.start(next)
			}
		}()
		runtime.Goexit()
	}
}

// Crashed says whether the process group was crashed.
func Crashed(proc int) bool { return S.crashed[proc] }

// CrashNow crashes the group from harness code (root task only).
func CrashNow(proc int) { S.crash(proc) }

// Killed says whether the running task is being killed.
func Killed() bool { return S != nil && S.cur != nil && S.cur.killed }

// pickBlocked chooses the next task when the current one cannot continue,
// advancing time as needed. It returns nil if the run has ended.
func (s *Sim) pickBlocked() *Task {
	for len(s.run) == 0 {
		if len(s.timers) == 0 {
			s.setViol("deadlock", "all tasks are blocked for ever: "+s.Describe())
			s.finish()
			return nil
		}
		if s.timers[0].when > s.mono {
			s.mono = s.timers[0].when
		}
		s.fire()
	}
	i := s.yi
	s.yi++
	def := s.run[0]
	if len(s.run) == 1 || s.calm {
		return def
	}
	if s.replay {
		if v, ok := s.devs["S"][i]; ok {
			for _, x := range s.run {
				if int64(x.ID) == v {
					return x
				}
			}
		}
		return def
	}
	next := def
	if s.Cfg.Strategy == "pct" {
		for _, x := range s.run {
			if x.prio > next.prio {
				next = x
			}
		}
	} else {
		next = s.run[s.rng.Uint64()%uint64(len(s.run))]
	}
	if next != def {
		s.record("S", i, int64(next.ID), "blocked")
	}
	return next
}

// block parks the current task until something makes it runnable again.
func (s *Sim) block(why string) {
	t := s.cur
	if t.killed {
		runtime.Goexit()
	}
	if s.quiet > 0 {
		panic("sim: blocking operation during package initialisation: " + why)
	}
	t.why = why
	t.state = tBlocked
	s.unrun(t)
	s.block0(t)
}

func (s *Sim) block0(t *Task) {
	next := s.pickBlocked()
	if next == nil {
		<-t.wake
		runtime.Goexit()
	}
	if next == t {
		s.cur = t
		return
	}
	h := s.St.SchedHash
	h = (h ^ uint64(t.ID)) * 1099511628211
	h = (h ^ uint64(next.ID+1000)) * 1099511628211
	s.St.SchedHash = h
	s.mix(uint64(s.St.Steps)+1<<40, uint64(next.ID))
	if s.tracing {
		s.trace("block  %s@%s (%s) -> %s", t.Name, SiteName(t.site), t.why, next.Name)
	}
	t.streak = 0
	s.cur = next
	s.start(next)
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
	t.why = ""
}

// Describe lists the live tasks and what they wait for.
func (s *Sim) Describe() string {
	var out []string
	for _, t := range s.tasks {
		w := t.why
		if t.state == tRunnable {
			w = "runnable"
		}
		out = append(out, fmt.Sprintf("%s: %s @%s", t.Name, w, SiteName(t.site)))
	}
	return strings.Join(out, "; ")
}

// ---- timers ----

func (s *Sim) addTimer(when int64, f func()) *timerEv {
	s.tseq++
	e := &timerEv{when: when, seq: s.tseq, f: f}
	i := sort.Search(len(s.timers), func(i int) bool { return s.timers[i].when > when })
	s.timers = append(s.timers, nil)
	copy(s.timers[i+1:], s.timers[i:])
	s.timers[i] = e
	return e
}

func (s *Sim) delTimer(e *timerEv) bool {
	for i, x := range s.timers {
		if x == e {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			return true
		}
	}
	return false
}

func (s *Sim) fire() {
	for len(s.timers) > 0 && s.timers[0].when <= s.mono {
		e := s.timers[0]
		s.timers = s.timers[1:]
		if !e.dead {
			e.f()
		}
	}
}

// ---- generic choices and faults ----

// Choose returns a value in [0,n); 0 is the default. weights are uniform.
func Choose(n int, where string) int {
	s := S
	if s == nil || n <= 1 || s.cur.killed || s.quiet > 0 {
		return 0
	}
	i := s.ci
	s.ci++
	if s.replay {
		v := s.devs["C"][i]
		if v < 0 || v >= int64(n) {
			return 0
		}
		return int(v)
	}
	v := int(s.rng.Uint64() % uint64(n))
	if v != 0 {
		s.record("C", i, int64(v), where)
	}
	s.mix(11, uint64(v))
	return v
}

// ChooseP returns true with probability p (default false).
func ChooseP(p float64, where string) bool {
	s := S
	if s == nil || s.cur.killed || s.quiet > 0 {
		return false
	}
	i := s.ci
	s.ci++
	if s.replay {
		return s.devs["C"][i] != 0
	}
	if s.rng.Float() < p {
		s.record("C", i, 1, where)
		s.mix(12, 1)
		return true
	}
	return false
}

// Fault says whether a fault of this kind strikes here, and which of n
// variants (1..n); 0 means none.
func Fault(kind string, n int, where string) int {
	s := S
	if s == nil || s.cur.killed || s.quiet > 0 || s.calm {
		return 0
	}
	if !s.enabled(kind) {
		return 0
	}
	s.St.FaultPoints[kind]++
	i := s.ci
	s.ci++
	v := int64(0)
	if s.replay {
		v = s.devs["C"][i]
		if v < 0 || v > int64(n) {
			v = 0
		}
	} else if s.nFault < s.Cfg.MaxFault && s.rng.Float() < s.Cfg.FaultP {
		v = 1 + int64(s.rng.Uint64()%uint64(n))
		s.record("C", i, v, kind+" at "+where)
	}
	if v != 0 {
		s.nFault++
		s.St.Faults[kind]++
		s.mix(13, uint64(v))
		s.trace("FAULT %s(%d) in %s at %s", kind, v, s.cur.Name, where)
	}
	return int(v)
}

func (s *Sim) enabled(kind string) bool {
	f := s.Cfg.Faults
	if f == "*" {
		return true
	}
	for f != "" {
		k := f
		if i := strings.IndexByte(f, ','); i >= 0 {
			k, f = f[:i], f[i+1:]
		} else {
			f = ""
		}
		if k == kind {
			return true
		}
	}
	return false
}

// Probe counts that a rare condition was reached.
func Probe(name string) {
	if S != nil {
		S.St.Probes[name]++
	}
}

// Faulted is the number of faults of a kind injected so far.
func Faulted(kind string) int64 { return int64(S.St.Faults[kind]) }

// NFaults is the number of faults injected so far.
func NFaults() int { return S.nFault }

// ---- harness API ----

// Go starts a task in the caller's process group.
func Go(fn func()) { GoNamed("", fn) }

// GoNamed starts a named task.
func GoNamed(name string, fn func()) *Task {
	s := S
	if s == nil {
		panic("sim: go statement outside a simulation")
	}
	if s.cur.killed {
		return nil
	}
	return s.spawn(name, s.cur.Proc, fn)
}

// GoProc starts a task in process group proc.
func GoProc(proc int, name string, fn func()) *Task { return S.spawn(name, proc, fn) }

func (s *Sim) spawn(name string, proc int, fn func()) *Task {
	if len(s.tasks) > 500 {
		Fail("step-limit", "more than 500 live goroutines")
	}
	t := s.newTask(name, proc, fn)
	if name == "" {
		t.Name = fmt.Sprintf("g%d", t.ID)
	}
	t.vc = s.cur.vc.clone()
	s.tick(t)
	s.tick(s.cur)
	s.makeRunnable(t)
	s.yield(s.cur.site, false)
	return t
}

// Done says whether the task has ended.
func (t *Task) Done() bool { return t.state == tDone }

// Busy says whether any other task could go on at once.
func Busy() bool {
	for _, t := range S.run {
		if t != S.cur {
			return true
		}
	}
	return false
}

// Why says what the task waits for.
func (t *Task) Why() string { return t.why + " @" + SiteName(t.site) }

// Join waits for a task to end, up to a deadline on the monotonic clock (0: none).
func Join(deadline int64, ts ...*Task) bool {
	s := S
	for _, t := range ts {
		if t == nil {
			continue
		}
		if t.state != tDone {
			me := s.cur
			t.joiners = append(t.joiners, me)
			var tm *timerEv
			if deadline > 0 {
				tm = s.addTimer(deadline, func() { s.makeRunnable(me) })
			}
			for t.state != tDone && (deadline == 0 || s.mono < deadline) {
				s.block("join " + t.Name)
			}
			if tm != nil {
				s.delTimer(tm)
			}
			if t.state != tDone {
				for i, j := range t.joiners {
					if j == me {
						t.joiners = append(t.joiners[:i], t.joiners[i+1:]...)
						break
					}
				}
				return false
			}
		}
		s.cur.vc.join(t.vc)
	}
	return true
}

// SleepUntil parks the task until the monotonic clock reaches at.
func SleepUntil(at int64) {
	s := S
	me := s.cur
	if me.killed {
		runtime.Goexit()
	}
	if at <= s.mono {
		s.yield(me.site, false)
		return
	}
	fired := false
	me.timer = s.addTimer(at, func() { fired = true; s.makeRunnable(me) })
	for !fired {
		s.block("sleep")
	}
}

// Sleep parks the task for d ns.
func Sleep(d int64) { SleepUntil(S.mono + d) }

// Yield is an explicit scheduling point.
func Yield() {
	if S != nil {
		S.yield(S.cur.site, false)
	}
}

// Point is a scheduling point with a site.
func Point(site int) {
	if S != nil {
		S.yield(site, false)
	}
}

// Loop marks a loop iteration of the code under test.
func Loop(site int) {
	if S != nil {
		S.yield(site, true)
	}
}

// Calm ends the adversarial part of the run: no further faults, stalls, leaps,
// crashes or unfair scheduling.
func Calm() { S.calm = true; S.trace("CALM from here on") }

// Uncalm resumes it.
func Uncalm() { S.calm = false }

// NoCrash disables crashes (nestable) while harness bookkeeping runs.
func NoCrash(d int) { S.noCrash += d }

// Now is the monotonic clock, in ns since the start of the run.
func Now() int64 { return S.mono - monoBase }

// Abs converts a time since the start into an absolute deadline.
func Abs(rel int64) int64 { return rel + monoBase }

// Injected is the total time of the stalls and leaps so far.
func Injected() int64 { return S.injected }

// Worked is the time that the steps so far took.
func Worked() int64 { return int64(S.St.Steps) * S.Cfg.StepNs }

// Wall is the wall clock in Unix ns.
func Wall() int64 { return wallBase + (S.mono - monoBase) + S.wallOff }

// Seq returns the next event sequence number, for history stamps.
func Seq() uint64 { S.seq++; return S.seq }

// Cur is the running task.
func Cur() *Task { return S.cur }

// Steps is the number of steps so far.
func Steps() int { return S.St.Steps }

// ClockReads and TimerArms count the code's uses of the clock.
func ClockReads() int { return S.clockRd }
func TimerArms() int  { return S.timerSet }

// Param is a run parameter of the configuration.
func Param(k string) int64 { return S.Cfg.Params[k] }

// Armed is how many timers the code under test has armed.
func Armed() (n int) {
	for _, e := range S.timers {
		if e.lib && !e.dead {
			n++
		}
	}
	return
}

// Live lists the live tasks other than the caller.
func Live() []*Task {
	var out []*Task
	for _, t := range S.tasks {
		if t != S.cur {
			out = append(out, t)
		}
	}
	return out
}

// Obj returns per-run state attached to a key, creating it on first use.
func Obj[T any](key any, mk func() *T) *T {
	if o, ok := S.objs[key]; ok {
		return o.(*T)
	}
	o := mk()
	S.objs[key] = o
	return o
}

// DescribeTasks lists the live tasks and what they wait for.
func DescribeTasks() string { return S.Describe() }

type wallStep struct{ at, off int64 }

// WallRanges are the readings the wall clock went through between two instants
// of simulated time (as Now gives them), as closed intervals.
func WallRanges(from, to int64) (out [][2]int64) {
	off, at := int64(0), from
	for _, w := range S.walls {
		if t := w.at - monoBase; t <= from {
			off = w.off
		} else if t <= to {
			out = append(out, [2]int64{wallBase + at + off, wallBase + t + off})
			off, at = w.off, t
		}
	}
	out = append(out, [2]int64{wallBase + at + off, wallBase + to + off})
	if g := S.Cfg.Coarse; g > 1 {
		for i := range out {
			out[i][0] -= out[i][0] % g
		}
	}
	return
}

// SetWall steps the wall clock to a reading (in nanoseconds since 1970); not
// counted as a fault.
func SetWall(ns int64) {
	S.wallOff += ns - Wall()
	S.walls = append(S.walls, wallStep{S.mono, S.wallOff})
}

// Eternity and more is not waited for.
const Eternity = int64(100*366*24*3600) * 1e9

// After adds a delay to an instant; what is an eternity away stays in range.
func After(t, d int64) int64 {
	if d >= Eternity {
		return 7e18
	}
	if d <= -Eternity {
		return -7e18
	}
	return t + d
}

// Grant raises the limit on steps, for a run that works on n bytes.
func Grant(n int) {
	if S != nil {
		S.granted += 2 * n
	}
}
