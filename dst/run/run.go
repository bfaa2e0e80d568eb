package run

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"dst/sim"
)

// Scenario is one family of runs.
type Scenario struct {
	Name   string
	Weight int
	gen    func(g *G, c *sim.Config) any
	body   func(ops any)
	length func(any) int
	subset func(any, []int) any
	decode func([]byte) (any, error)
	shrink func(any, int) []any
}

// New makes a scenario of a workload of operations O. Any subset of a workload
// must be a workload.
func New[O any](name string, weight int, gen func(g *G, c *sim.Config) []O, body func(ops []O)) *Scenario {
	return &Scenario{Name: name, Weight: weight,
		gen:    func(g *G, c *sim.Config) any { return gen(g, c) },
		body:   func(o any) { body(o.([]O)) },
		length: func(o any) int { return len(o.([]O)) },
		subset: func(o any, ix []int) any {
			in := o.([]O)
			out := make([]O, 0, len(ix))
			for _, i := range ix {
				out = append(out, in[i])
			}
			return out
		},
		decode: func(b []byte) (any, error) {
			var o []O
			err := json.Unmarshal(b, &o)
			return o, err
		},
	}
}

// Prop is a property's check.
type Prop struct {
	ID        string
	Scenarios []*Scenario
	Quick     int      // runs
	Thorough  int      // runs at most; bounded by ThoroughS as well
	ThoroughS int      // seconds
	Real      []string // components that run real code
	Stub      []string // components that are simulated
	Rule      string
	Assume    []string
	NoRace    bool // the property does not speak of data races: they are counted, not reported
}

// Replay is a replay file.
type Replay struct {
	Property  string          `json:"property"`
	Seed      int64           `json:"verif_seed"`
	Run       int             `json:"run"`
	Scenario  string          `json:"scenario"`
	Config    sim.Config      `json:"config"`
	Ops       json.RawMessage `json:"workload"`
	Devs      []sim.Dev       `json:"decisions"`
	Violation sim.Violation   `json:"violation"`
	Note      string          `json:"note,omitempty"`
	FromSeed  bool            `json:"from_seed,omitempty"` // decisions drawn from the config's seed, not from the list
	Trace     []string        `json:"trace,omitempty"`
}

type agg struct {
	Runs, Nontrivial                                                         int
	Steps, Switches, MemSwitches, Stalls, Leaps, WallSteps, Crashes, Spawned int64
	SimS                                                                     float64
	Faults, FaultPoints, Probes, Scen                                        map[string]int
	RunsWithFault                                                            int
	Hashes                                                                   map[uint64]struct{} `json:"-"`
	HashList                                                                 []uint64
	DetChecked, DetMismatch                                                  int
	DetExample                                                               string
	Known                                                                    map[string]int
	Samples                                                                  []json.RawMessage
	Last                                                                     int
}

func newAgg() *agg {
	return &agg{Faults: map[string]int{}, FaultPoints: map[string]int{}, Probes: map[string]int{}, Scen: map[string]int{},
		Hashes: map[uint64]struct{}{}, Known: map[string]int{}}
}

type workerMsg struct {
	Kind string // progress, violation, done, known
	At   int
	Agg  *agg
	Rep  *Replay
}

func mix(a uint64, b ...uint64) uint64 {
	h := a ^ 0x9E3779B97F4A7C15
	for _, x := range b {
		h ^= x + 0x9E3779B97F4A7C15 + h<<6 + h>>2
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// build makes run i's scenario, configuration and workload.
func (p *Prop) build(seed int64, i int) (*Scenario, sim.Config, any) {
	g := NewG(mix(uint64(seed), strHash(p.ID), uint64(i)))
	ws := make([]int, len(p.Scenarios))
	for k, s := range p.Scenarios {
		ws[k] = s.Weight
	}
	sc := p.Scenarios[g.Weighted(ws...)]
	var c sim.Config
	c.Params = map[string]int64{}
	g.Schedule(&c)
	ops := sc.gen(g, &c)
	if c.Wall0 == 0 && g.P(0.1) {
		c.Wall0 = dates[g.Intn(len(dates))] * 1e9
	}
	return sc, c, ops
}

// dates are some ten seconds (and whole tens of seconds) before counters of time carry, or odd days, in seconds since 1970.
var dates = []int64{
	86400,      // a clock that was never set
	946684790,  // the end of 1999
	999999990,  // 10^9 s
	1722281880, // 401 * 2^32 ms
	1709251190, // the end of 29 February 2024
	1735689590, // the end of 2024
	2147483640, // 2^31 s
	2199023250, // 2^41 ms
}

func exec1(sc *Scenario, c sim.Config, ops any, devs []sim.Dev, replay, trace bool) sim.Result {
	return sim.Run(c, devs, replay, trace, func() {
		if c.Strategy == "calm" {
			sim.Calm()
		}
		sc.body(ops)
	})
}

var (
	fTier     = flag.String("tier", "quick", "")
	fSeed     = flag.Int64("seed", 1, "")
	fReplay   = flag.String("replay", "", "")
	fMinimize = flag.String("minimize", "", "")
	fWork     = flag.Bool("work", false, "")
	fFrom     = flag.Int("from", 0, "")
	fStride   = flag.Int("stride", 1, "")
	fN        = flag.Int("n", 0, "")
	fCap      = flag.Int("cap", 0, "")
	fEvid     = flag.String("evidence", "", "")
	fReplays  = flag.String("replays", "", "")
	fKnown    = flag.String("known", "", "")
	fProg     = flag.String("progress", "", "")
	fWorkers  = flag.Int("workers", 8, "")
	fOne      = flag.Int("one", -1, "run one index verbosely")
)

type known struct{ class, match, text string }

func (p *Prop) knowns() []known {
	var out []known
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> class=<class> match=<text> | <description>
		if !strings.HasPrefix(l, "known: property="+p.ID+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+p.ID+" class=")
		cl, rest, _ := strings.Cut(rest, " match=")
		m, text, _ := strings.Cut(rest, " | ")
		out = append(out, known{cl, m, text})
	}
	return out
}

func isKnown(ks []known, v *sim.Violation) *known {
	for i, k := range ks {
		if k.class == v.Class && strings.Contains(v.Msg, k.match) {
			return &ks[i]
		}
	}
	return nil
}

// Main is a check's main function.
func Main(p *Prop) {
	sim.RaceFails = !p.NoRace
	flag.Parse()
	if v := os.Getenv("DST_RUNS"); v != "" {
		n, _ := strconv.Atoi(v)
		p.Quick = n
	}
	switch {
	case *fReplay != "":
		p.replayMain()
	case *fMinimize != "":
		p.minimizeMain()
	case *fWork:
		p.workMain()
	case *fOne >= 0:
		p.oneMain()
	default:
		p.parentMain()
	}
}

func (p *Prop) oneMain() {
	sc, c, ops := p.build(*fSeed, *fOne)
	r := exec1(sc, c, ops, nil, false, true)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	oj, _ := json.Marshal(ops)
	cj, _ := json.Marshal(c)
	fmt.Println(sc.Name, string(cj))
	fmt.Println(string(oj))
	fmt.Printf("%+v\n", r.St)
	if r.Viol != nil {
		fmt.Println("violation:", r.Viol.Class, r.Viol.Msg)
	}
}

// ---- worker ----

func (p *Prop) workMain() {
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	say := func(m workerMsg) { enc.Encode(m); out.Flush() }
	prog, _ := os.OpenFile(*fProg, os.O_CREATE|os.O_RDWR, 0644)
	var pb [8]byte
	ks := p.knowns()
	a := newAgg()
	start := time.Now()
	var cur int
	var curMu sync.Mutex
	curStart := time.Now()
	go func() {
		for {
			time.Sleep(2 * time.Second)
			curMu.Lock()
			d := time.Since(curStart)
			i := cur
			curMu.Unlock()
			if d > 60*time.Second {
				fmt.Fprintf(os.Stderr, "run %d of %s does not end\n", i, p.ID)
				os.Exit(7)
			}
		}
	}()
	every := 400
	for i := *fFrom; i < *fN; i += *fStride {
		if *fCap > 0 && a.Runs%16 == 0 && time.Since(start) > time.Duration(*fCap)*time.Second {
			break
		}
		curMu.Lock()
		cur, curStart = i, time.Now()
		curMu.Unlock()
		if prog != nil {
			binary.LittleEndian.PutUint64(pb[:], uint64(i)+1)
			prog.WriteAt(pb[:], 0)
		}
		sc, c, ops := p.build(*fSeed, i)
		r := exec1(sc, c, ops, nil, false, false)
		a.add(sc, &r)
		a.Last = i
		if len(a.Samples) < 1 && r.St.Switches > 0 && i/(*fStride) >= 3 {
			oj, _ := json.Marshal(map[string]any{"run": i, "scenario": sc.Name, "config": c, "workload": ops, "steps": r.St.Steps,
				"switches": r.St.Switches, "faults": r.St.Faults, "sim_ns": r.St.SimNs, "schedule_hash": fmt.Sprintf("%016x", r.St.SchedHash), "decisions": head(r.Log, 12)})
			if len(oj) < 6000 {
				a.Samples = append(a.Samples, oj)
			}
		}
		if r.Viol != nil {
			if k := isKnown(ks, r.Viol); k != nil {
				a.Known[k.text]++
			} else {
				oj, _ := json.Marshal(ops)
				say(workerMsg{Kind: "violation", At: i, Agg: a.pack(), Rep: &Replay{Property: p.ID, Seed: *fSeed, Run: i, Scenario: sc.Name,
					Config: c, Ops: oj, Devs: r.Log, Violation: *r.Viol}})
				return
			}
		}
		if a.Runs%61 == 5 {
			_, _, ops2 := p.build(*fSeed, i)
			r2 := exec1(sc, c, ops2, r.Log, true, false)
			a.DetChecked++
			if r2.St.SchedHash != r.St.SchedHash || r2.St.Steps != r.St.Steps || r2.St.SimNs != r.St.SimNs || (r2.Viol == nil) != (r.Viol == nil) {
				a.DetMismatch++
				a.DetExample = fmt.Sprintf("run %d: steps %d/%d sim %d/%d", i, r.St.Steps, r2.St.Steps, r.St.SimNs, r2.St.SimNs)
			}
		}
		if a.Runs%every == 0 {
			say(workerMsg{Kind: "progress", At: i})
		}
	}
	say(workerMsg{Kind: "done", At: a.Last, Agg: a.pack()})
}

func head(d []sim.Dev, n int) []sim.Dev {
	if len(d) > n {
		return d[:n]
	}
	return d
}

func (a *agg) add(sc *Scenario, r *sim.Result) {
	a.Runs++
	a.Scen[sc.Name]++
	s := &r.St
	a.Steps += int64(s.Steps)
	a.Switches += int64(s.Switches)
	a.MemSwitches += int64(s.MemSwitches)
	a.Stalls += int64(s.Stalls)
	a.Leaps += int64(s.Leaps)
	a.WallSteps += int64(s.WallSteps)
	a.Crashes += int64(s.Crashes)
	a.Spawned += int64(s.Spawned)
	a.SimS += float64(s.SimNs) / 1e9
	nf := 0
	for k, v := range s.Faults {
		a.Faults[k] += v
		nf += v
	}
	if nf > 0 {
		a.RunsWithFault++
	}
	for k, v := range s.FaultPoints {
		a.FaultPoints[k] += v
	}
	for k, v := range s.Probes {
		a.Probes[k] += v
	}
	if s.Switches > 0 || nf > 0 || s.Stalls+s.Leaps+s.WallSteps+s.Crashes > 0 {
		a.Nontrivial++
		if len(a.Hashes) > 600000 {
			return
		}
		a.Hashes[s.SchedHash^mix(s.LogHash)] = struct{}{}
	}
}

func (a *agg) pack() *agg {
	a.HashList = a.HashList[:0]
	for h := range a.Hashes {
		a.HashList = append(a.HashList, h)
	}
	return a
}

func (a *agg) merge(b *agg) {
	a.Runs += b.Runs
	a.Nontrivial += b.Nontrivial
	a.Steps += b.Steps
	a.Switches += b.Switches
	a.MemSwitches += b.MemSwitches
	a.Stalls += b.Stalls
	a.Leaps += b.Leaps
	a.WallSteps += b.WallSteps
	a.Crashes += b.Crashes
	a.Spawned += b.Spawned
	a.SimS += b.SimS
	a.RunsWithFault += b.RunsWithFault
	a.DetChecked += b.DetChecked
	a.DetMismatch += b.DetMismatch
	if b.DetExample != "" {
		a.DetExample = b.DetExample
	}
	for _, m := range []struct{ d, s map[string]int }{{a.Faults, b.Faults}, {a.FaultPoints, b.FaultPoints}, {a.Probes, b.Probes}, {a.Scen, b.Scen}, {a.Known, b.Known}} {
		for k, v := range m.s {
			m.d[k] += v
		}
	}
	for _, h := range b.HashList {
		a.Hashes[h] = struct{}{}
	}
	a.Samples = append(a.Samples, b.Samples...)
}

// ---- parent ----

type wstate struct {
	msg     chan workerMsg
	cmd     *exec.Cmd
	stderr  bytes.Buffer
	prog    string
	at      int
	done    bool
	crashed bool
	hang    bool
}

func (p *Prop) parentMain() {
	start := time.Now()
	n, capS := p.Quick, 200
	if *fTier == "thorough" {
		n, capS = p.Thorough, p.ThoroughS
		if n == 0 {
			n = 1 << 30
		}
		if capS == 0 {
			capS = 600
		}
	}
	if v := os.Getenv("DST_CAP"); v != "" {
		capS, _ = strconv.Atoi(v)
	}
	tmp, err := os.MkdirTemp("", "dstrun")
	die(err)
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	die(err)
	total := newAgg()
	var found *Replay
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	ws := make([]*wstate, *fWorkers)
	for k := range ws {
		w := &wstate{prog: filepath.Join(tmp, fmt.Sprint("p", k)), at: -1}
		ws[k] = w
		w.cmd = exec.Command(self, "-work", "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(k), "-stride", fmt.Sprint(*fWorkers),
			"-n", fmt.Sprint(n), "-cap", fmt.Sprint(capS), "-progress", w.prog, "-known", *fKnown)
		w.cmd.Stderr = &w.stderr
		pipe, err := w.cmd.StdoutPipe()
		die(err)
		die(w.cmd.Start())
		go func() {
			dec := json.NewDecoder(bufio.NewReaderSize(pipe, 1<<20))
			fin := false
			for {
				var m workerMsg
				if dec.Decode(&m) != nil {
					break
				}
				mu.Lock()
				switch m.Kind {
				case "progress":
					w.at = m.At
				case "violation":
					total.merge(m.Agg)
					if found == nil || m.Rep.Run < found.Run {
						found = m.Rep
					}
					fin = true
					w.done = true
				case "done":
					total.merge(m.Agg)
					fin = true
					w.done = true
				}
				cond.Broadcast()
				mu.Unlock()
			}
			err := w.cmd.Wait()
			mu.Lock()
			if !fin {
				w.crashed = true
				if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 7 {
					w.hang = true
				}
			}
			w.done = true
			cond.Broadcast()
			mu.Unlock()
		}()
	}
	// wait: every worker ends, or has passed the earliest violation found
	mu.Lock()
	for {
		alld := true
		for _, w := range ws {
			if w.done {
				continue
			}
			if found != nil && w.at >= found.Run {
				continue
			}
			alld = false
		}
		if alld {
			break
		}
		cond.Wait()
	}
	for _, w := range ws {
		if !w.done {
			w.cmd.Process.Kill()
		}
	}
	mu.Unlock()
	for _, w := range ws {
		if w.crashed && found == nil {
			b, _ := os.ReadFile(w.prog)
			if len(b) < 8 {
				fmt.Printf("ERROR: a worker failed before its first run\n%s\n", tail(w.stderr.String(), 4000))
				os.Exit(2)
			}
			i := int(binary.LittleEndian.Uint64(b)) - 1
			if w.hang {
				fmt.Printf("ERROR: run %d of %s does not end in real time\n", i, p.ID)
				os.Exit(2)
			}
			// a fatal error of the process: does it repeat?
			cmd := exec.Command(self, "-work", "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(i), "-stride", "1", "-n", fmt.Sprint(i+1), "-progress", w.prog)
			var eb bytes.Buffer
			cmd.Stderr = &eb
			err := cmd.Run()
			fatal := fatalLine(eb.String())
			if err == nil || fatal == "" {
				fmt.Printf("ERROR: a worker failed in run %d, and that does not repeat\n%s\n", i, tail(w.stderr.String(), 4000))
				os.Exit(2)
			}
			sc, c, ops := p.build(*fSeed, i)
			oj, _ := json.Marshal(ops)
			found = &Replay{Property: p.ID, Seed: *fSeed, Run: i, Scenario: sc.Name, Config: c, Ops: oj,
				Violation: sim.Violation{Class: "process-death", Msg: fatal}, FromSeed: true}
		}
	}
	ks := p.knowns()
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", p.ID, k.text, total.Known[k.text])
	}
	wall := time.Since(start).Seconds()
	viol := 0
	code := 0
	if found != nil {
		viol = 1
		code = p.report(self, found, tmp)
	}
	p.evidence(total, wall, viol)
	fmt.Printf("%s %s: %d runs, %d distinct non-trivial schedules, %.1f simulated s, %d faults, %.1f s\n",
		p.ID, *fTier, total.Runs, len(total.Hashes), total.SimS, sum(total.Faults), wall)
	if total.DetMismatch > 0 {
		fmt.Printf("WARNING: %d of %d repeated runs differed (%s)\n", total.DetMismatch, total.DetChecked, total.DetExample)
	}
	if code == 0 && total.Runs == 0 {
		fmt.Println("ERROR: no runs")
		code = 2
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "unexpected fault") {
			return l
		}
	}
	return ""
}

func sum(m map[string]int) int {
	t := 0
	for _, v := range m {
		t += v
	}
	return t
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		os.Exit(2)
	}
}

func writeReplay(f string, r *Replay) {
	b, err := json.MarshalIndent(r, "", " ")
	die(err)
	die(os.WriteFile(f, b, 0644))
}

func readReplay(f string) *Replay {
	b, err := os.ReadFile(f)
	die(err)
	r := &Replay{}
	die(json.Unmarshal(b, r))
	return r
}

// report minimises, confirms and announces a violation.
func (p *Prop) report(self string, r *Replay, tmp string) int {
	os.MkdirAll(*fReplays, 0755)
	file := filepath.Join(*fReplays, fmt.Sprintf("%s-%d-%d.json", p.ID, r.Seed, r.Run))
	writeReplay(file, r)
	if !r.FromSeed {
		min := filepath.Join(tmp, "min.json")
		writeReplay(min, r)
		cmd := exec.Command(self, "-minimize", min)
		cmd.Stderr = os.Stderr
		cmd.Start()
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(150 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		// the minimiser always leaves a complete file; take it only if it replays
		if b, err := os.ReadFile(min); err == nil && json.Valid(b) {
			if exec.Command(self, "-replay", min).Run() != nil && confirm(self, min) {
				os.WriteFile(file, b, 0644)
			}
		}
	}
	note := ""
	if !confirm(self, file) {
		// something the simulator does not control had a part in it
		note = "  the replay does not lead to a violation every time: the code depends on something outside the simulator"
		for n := 0; n < 10; n++ {
			out, err := exec.Command(self, "-replay", file).CombinedOutput()
			if err != nil && bytes.Contains(out, []byte("\nthe file says: "+r.Violation.Class+":")) {
				note = "  the replay leads to the same violation with other particulars: the code depends on something outside the simulator"
				break
			}
		}
	}
	r = readReplay(file)
	fmt.Printf("%s: %s\n", r.Violation.Class, r.Violation.Msg)
	fmt.Printf("  scenario %s, run %d of VERIF_SEED %d, %d workload operations, %d decisions\n", r.Scenario, r.Run, r.Seed, countOps(r.Ops), len(r.Devs))
	if note != "" {
		fmt.Println(note)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
	return 1
}

func countOps(b json.RawMessage) int {
	var l []json.RawMessage
	json.Unmarshal(b, &l)
	return len(l)
}

// confirm replays a file in a fresh process and asks for the same violation.
func confirm(self, file string) bool {
	out, err := exec.Command(self, "-replay", file).CombinedOutput()
	if err == nil {
		return false
	}
	r := readReplay(file)
	if r.Violation.Class == "process-death" {
		return fatalLine(string(out)) != ""
	}
	return bytes.Contains(out, []byte("REPRODUCED"))
}

func (p *Prop) scenario(name string) *Scenario {
	for _, s := range p.Scenarios {
		if s.Name == name {
			return s
		}
	}
	die(fmt.Errorf("no scenario %q", name))
	return nil
}

func (p *Prop) replayMain() {
	r := readReplay(*fReplay)
	sc := p.scenario(r.Scenario)
	ops, err := sc.decode(r.Ops)
	die(err)
	res := exec1(sc, r.Config, ops, r.Devs, !r.FromSeed, true)
	w := bufio.NewWriter(os.Stdout)
	for _, l := range res.Trace {
		fmt.Fprintln(w, l)
	}
	w.Flush()
	if res.Viol == nil {
		fmt.Println("no violation in this replay")
		os.Exit(0)
	}
	fmt.Printf("%s: %s\n", res.Viol.Class, res.Viol.Msg)
	if *res.Viol == r.Violation {
		fmt.Println("REPRODUCED")
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fReplay)
	} else {
		fmt.Printf("the file says: %s: %s\n", r.Violation.Class, r.Violation.Msg)
	}
	os.Exit(1)
}

// ---- minimisation ----

func (p *Prop) minimizeMain() {
	debug.SetGCPercent(400)
	r := readReplay(*fMinimize)
	sc := p.scenario(r.Scenario)
	ops, err := sc.decode(r.Ops)
	die(err)
	class := r.Violation.Class
	deadline := time.Now().Add(60 * time.Second)
	cfg := r.Config
	devs := r.Devs
	tries := 0
	test := func(c sim.Config, o any, d []sim.Dev) *sim.Result {
		tries++
		res := exec1(sc, c, o, d, true, false)
		if res.Viol != nil && res.Viol.Class == class {
			return &res
		}
		return nil
	}
	save := func() {
		res := exec1(sc, cfg, ops, devs, true, true)
		if res.Viol == nil || res.Viol.Class != class {
			return
		}
		r.Config, r.Devs = cfg, devs
		r.Ops, _ = json.Marshal(ops)
		r.Violation = *res.Viol
		r.Trace = res.Trace
		if len(r.Trace) > 300 {
			r.Trace = append(r.Trace[:100:100], append([]string{"..."}, r.Trace[len(r.Trace)-200:]...)...)
		}
		r.Note = fmt.Sprintf("minimised in %d replays", tries)
		writeReplay(*fMinimize+".new", r)
		os.Rename(*fMinimize+".new", *fMinimize)
	}
	if test(cfg, ops, devs) == nil {
		os.Exit(1)
	}
	save()
	over := func() bool { return time.Now().After(deadline) }
	for round := 0; round < 4 && !over(); round++ {
		before := sc.length(ops) + len(devs)
		// operations: dropping one moves later decisions, so also try the
		// configuration's own random schedule with a few seeds
		n := sc.length(ops)
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		keep := ddmin(idx, over, func(sub []int) bool {
			if len(sub) == 0 {
				return false
			}
			o := sc.subset(ops, sub)
			if test(cfg, o, devs) != nil {
				return true
			}
			for k := 0; k < 6 && !over(); k++ {
				c := cfg
				c.Seed = mix(cfg.Seed, uint64(len(sub)), uint64(k))
				if k == 0 {
					c.Seed = cfg.Seed
				}
				res := exec1(sc, c, o, nil, false, false)
				tries++
				if res.Viol != nil && res.Viol.Class == class {
					if again := test(c, o, res.Log); again != nil {
						// adopt this schedule
						ops, cfg, devs = sc.subset(ops, allIdx(sc.length(ops))), c, res.Log
						return true
					}
				}
			}
			return false
		})
		if len(keep) < n {
			o := sc.subset(ops, keep)
			if test(cfg, o, devs) != nil {
				ops = o
			} else if res := exec1(sc, cfg, o, nil, false, false); res.Viol != nil && res.Viol.Class == class {
				ops, devs = o, res.Log
			}
			save()
		}
		// decisions
		kept := ddmin(devs, over, func(sub []sim.Dev) bool { return test(cfg, ops, sub) != nil })
		if test(cfg, ops, kept) != nil {
			devs = kept
			save()
		}
		// smaller stalls and leaps
		for i := range devs {
			if over() {
				break
			}
			if devs[i].K == "T" || devs[i].K == "L" {
				for devs[i].V > 1000 {
					d := append([]sim.Dev(nil), devs...)
					d[i].V /= 4
					if test(cfg, ops, d) == nil {
						break
					}
					devs = d
				}
			}
		}
		save()
		if sc.length(ops)+len(devs) >= before {
			break
		}
	}
	save()
}

func allIdx(n int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = i
	}
	return x
}

func ddmin[T any](in []T, over func() bool, ok func([]T) bool) []T {
	cur := append([]T(nil), in...)
	if len(cur) > 0 && ok(nil) {
		return nil
	}
	n := 2
	for len(cur) >= 2 && !over() {
		chunk := (len(cur) + n - 1) / n
		reduced := false
		for i := 0; i < len(cur) && !over(); i += chunk {
			j := i + chunk
			if j > len(cur) {
				j = len(cur)
			}
			sub := append(append([]T(nil), cur[:i]...), cur[j:]...)
			if len(sub) < len(cur) && ok(sub) {
				cur = sub
				if n > 2 {
					n--
				}
				reduced = true
				break
			}
		}
		if !reduced {
			if chunk == 1 {
				break
			}
			n *= 2
			if n > len(cur) {
				n = len(cur)
			}
		}
	}
	return cur
}

// ---- evidence ----

func (p *Prop) evidence(a *agg, wall float64, viol int) {
	if *fEvid == "" {
		return
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(a.Runs) / wall * 3600
	}
	samples := a.Samples
	sort.Slice(samples, func(i, j int) bool { return len(samples[i]) < len(samples[j]) })
	if len(samples) > 3 {
		samples = samples[:3]
	}
	seeds := map[string]any{"verif_seed": *fSeed, "run_seed": "hash(VERIF_SEED, property, run index)", "run_indices": []int{0, a.Runs - 1}, "distinct_run_seeds": a.Runs}
	faults := map[string]int{}
	for k, v := range a.Faults {
		faults[k] = v
	}
	add := func(k string, v int64) {
		if v > 0 {
			faults[k] = int(v)
		}
	}
	add("goroutine stalls", a.Stalls)
	add("time leaps (every task delayed)", a.Leaps)
	add("wall-clock steps", a.WallSteps)
	add("process crashes", a.Crashes)
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "wall_s": wall, "violations": viol,
		"assumptions": p.Assume,
		"coverage": map[string]any{
			"evaluations":                            a.Runs,
			"distinct_nontrivial":                    len(a.Hashes),
			"rule":                                   "(counted up to 600000 per worker) One evaluation is one simulated execution of a generated workload. Distinct: different hash over the sequence of (step, task switched to), faults, stalls, clock steps and choices. Non-trivial: at least one task switch, fault, stall, time leap, wall-clock step or crash. " + p.Rule,
			"samples":                                samples,
			"runs_per_hour":                          perHour,
			"seeds":                                  seeds,
			"simulated_seconds":                      a.SimS,
			"faults_injected":                        faults,
			"fault_points_offered":                   a.FaultPoints,
			"runs_with_fault":                        a.RunsWithFault,
			"scenarios":                              a.Scen,
			"probes":                                 a.Probes,
			"steps":                                  a.Steps,
			"task_switches":                          a.Switches,
			"task_switches_at_plain_memory_accesses": a.MemSwitches,
			"tasks_spawned":                          a.Spawned,
			"replayed_for_determinism":               a.DetChecked,
			"determinism_mismatches":                 a.DetMismatch,
			"ran_real_code":                          p.Real,
			"ran_stub":                               p.Stub,
			"instrumentation":                        os.Getenv("DST_MODE"),
			"workers":                                *fWorkers,
		},
	}
	if a.DetMismatch > 0 {
		ev["coverage"].(map[string]any)["determinism_example"] = a.DetExample
	}
	b, err := json.MarshalIndent(ev, "", " ")
	die(err)
	os.MkdirAll(filepath.Dir(*fEvid), 0755)
	die(os.WriteFile(*fEvid, append(b, '\n'), 0644))
}
