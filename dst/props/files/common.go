// Package files drives the file helpers for the properties C17 to C25.
package files

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	_ "github.com/ahKevinXy/go-web-tools/dstsites"
)

const ms = int64(1e6)

// Stub lists what is simulated in every file harness.
var Stub = []string{"goroutine scheduler", "package os, io/ioutil and the reading half of path/filepath on an in-memory file system with fault injection"}

// data makes n bytes that depend on the key: noise most of the time, else lines of text or nothing but zeros.
func data(key string, n int) []byte {
	sim.Grant(n)
	h := fnv.New64a()
	h.Write([]byte(key))
	r := sim.NewRng(h.Sum64())
	all := make([]byte, n)
	b := all
	switch (h.Sum64()>>7 + uint64(n)*0x9e3779b97f4a7c15>>9) % 16 {
	case 0:
		line := key + "\r\n" + key + " \n"
		for i := range b {
			b[i] = line[i%len(line)]
		}
		if n > 0 {
			b[n-1] = '\n'
		}
	case 1:
		if n > 0 {
			b[0] = byte(r.Uint64())
		}
	default:
		for len(b) >= 8 {
			binary.LittleEndian.PutUint64(b, r.Uint64())
			b = b[8:]
		}
		for i := range b {
			b[i] = byte(r.Uint64())
		}
	}
	return all
}

func brief(b []byte, ok bool) string {
	if !ok {
		return "nothing"
	}
	h := fnv.New32a()
	h.Write(b)
	return fmt.Sprintf("%d bytes (%08x)", len(b), h.Sum32())
}

// differ says where two contents part.
func differ(got, want []byte) string {
	n := min(len(got), len(want))
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("%d bytes instead of %d, different from byte %d", len(got), len(want), i)
		}
	}
	return fmt.Sprintf("%d bytes instead of %d, equal up to there", len(got), len(want))
}

func same(got []byte, ok bool, want []byte) bool { return ok && bytes.Equal(got, want) }

func errText(err error) string {
	if err == nil {
		return "success"
	}
	return "error " + err.Error()
}

// finish joins tasks; a file operation must not block. One that is still busy is
// given more time, up to the limit on steps.
func finish(what string, horizon int64, ts ...*sim.Task) {
	for inj := int64(-1); inj != sim.Injected() || sim.Busy(); {
		inj = sim.Injected()
		if sim.Join(sim.Abs(sim.Now()+horizon+200*ms+sim.Injected()), ts...) {
			return
		}
	}
	for _, t := range ts {
		if !t.Done() {
			sim.Fail("blocked", "%s does not complete: %s", what, t.Why())
		}
	}
}

// actors groups operations by actor, in order.
func actors[O any](ops []O, id func(O) int) (ids []int, by map[int][]O) {
	by = map[int][]O{}
	for _, o := range ops {
		k := id(o)
		if by[k] == nil {
			ids = append(ids, k)
		}
		by[k] = append(by[k], o)
	}
	sort.Ints(ids)
	return
}

// sizes draws a content size.
func size(g *run.G) int {
	if g.P(0.0007) {
		// beyond every buffer
		switch g.Weighted(6, 3, 1) {
		case 0:
			return g.Range(70000, 1<<20)
		case 1:
			return run.Pick(g, 1<<20, 1<<20+1, 3<<20, 4<<20+1)
		}
		return run.Pick(g, 8<<20+1, 10<<20+1, 16<<20+1)
	}
	switch g.Weighted(2, 6, 2, 2, 1) {
	case 0:
		return g.Intn(2)
	case 1:
		return g.Range(1, 60)
	case 2:
		return run.Pick(g, 511, 512, 513, 1000, 4095, 4096, 4097)
	case 3:
		return g.Range(60, 20000)
	}
	return run.Pick(g, 32767, 32768, 32769, 65536, 70000)
}

var _ = xos.Disk

// host is a process that is started again after a crash.
type host struct{ gen, crashes int }

func newHost(disk *xos.FS) *host {
	h := &host{gen: 1}
	sim.S.OnCrash = func(proc int) {
		disk.CrashProc(proc)
		if proc == h.gen {
			h.gen++
			h.crashes++
		}
	}
	return h
}

// call runs fn in the current process and says whether it came to its end.
func (h *host) call(what string, fn func()) (done bool) {
	t := sim.GoProc(h.gen, what, func() {
		fn()
		done = true
	})
	finish("a "+what+" call", 0, t)
	return
}

// injected says whether a fault of one of the kinds hit the running task since the mark.
func injected(disk *xos.FS, from int, kinds ...string) bool {
	for _, i := range disk.Injected[from:] {
		if i.Task != sim.Cur() {
			continue
		}
		if len(kinds) == 0 {
			return true
		}
		for _, k := range kinds {
			if i.Op == k {
				return true
			}
		}
	}
	return false
}

const allFaults = "open,read,write,close,stat,mkdir,readdir,rename,remove,seek,sync,truncate,chmod"

// ioFaults draws faults for a file workload; crashes if wanted.
func ioFaults(g *run.G, c *sim.Config, kinds string, crash bool) {
	g.Faults(c, 0.6, 4, kinds)
	if c.FaultP > 0.1 && g.P(0.7) {
		c.FaultP = 0.1
	}
	if g.P(0.3) {
		// one kind only
		list := strings.Split(kinds, ",")
		c.Faults, c.FaultP, c.MaxFault = list[g.Intn(len(list))], run.Pick(g, 0.03, 0.1, 0.3), g.Range(1, 2)
	}
	if crash && g.P(0.35) {
		c.CrashP = run.Pick(g, 0.002, 0.01, 0.03, 0.1)
		if c.Faults != "" {
			c.Faults += ",crash-in-write"
		} else if g.P(0.5) {
			c.Faults, c.FaultP, c.MaxFault = "crash-in-write", 0.05, 2
		}
	}
	if g.P(0.35) {
		c.Params = map[string]int64{"short": 2}
	}
	g.Stalls(c, 0.15, 1e3, 50e3, ms)
}

// pause is a wait before an operation.
func pause(g *run.G) int64 {
	if g.P(0.7) {
		return 0
	}
	return run.Pick(g, int64(50), 100, 2000, 50e3, ms)
}

// odd gives a name an unusual but legal form now and then: what trimming,
// pattern matching, case folding, splitting or unescaping would change.
func odd(g *run.G, p float64, name string) string {
	if !g.P(p) {
		return name
	}
	if g.P(0.3) {
		return run.Pick(g, " ", "-", ".", "~", "#", "\t") + name
	}
	return name + run.Pick(g, ".", " ", "..", "*", "?", "~", ".tmp", ".bak", "[1]", "%41", "\\x", "\n", "A", "é", "$x", "{a,b}", ";")
}
