package files

import (
	"bytes"
	"fmt"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Up is one step of one client of the upload service.
type Up struct {
	T int    `json:"t"`           // client; -1: setup
	K string `json:"k"`           // upload (setup), chunk, merge, remove, limit (setup)
	U int    `json:"u"`           // which upload
	N int    `json:"n,omitempty"` // chunk: which; limit: open files
	W int64  `json:"w,omitempty"` // ns to wait first
	R int    `json:"r,omitempty"` // attempts
	S []int  `json:"s,omitempty"` // upload: chunk sizes
	A string `json:"a,omitempty"` // upload: file name
	M string `json:"m,omitempty"` // upload: digest
	Z int    `json:"z,omitempty"` // upload: size of an old file at the destination
	V int    `json:"v,omitempty"` // chunk: which content: 0 the usual, 1 another of the same length, 2 a longer one, 3 a shorter one
}

type upload struct {
	name, md5 string
	chunks    [][]byte
	acked     []bool
	twin      bool   // another upload has the same file name
	ever      []vset // contents that were ever sent
	may       []vset // contents that may be stored now
	active    [][]*put
	merges    []*merging // under way
}

// merging is one merge request.
type merging struct {
	seen  []vset     // what it may meet
	least int        // so many chunks were acknowledged when it began
	with  []*merging // others under way meanwhile; the last to end decides what the path holds
}

const versions = 4

type vset [versions]bool

// put is a running chunk request.
type put struct{ alone bool }

// content gives a chunk's content in one of its versions.
func (u *upload) content(n, v int) []byte {
	c := u.chunks[n]
	switch v {
	case 0:
		return c
	case 2:
		return append(data(fmt.Sprint(u.name, u.md5, n, "v2"), len(c)), "more"...)
	case 3:
		return data(fmt.Sprint(u.name, u.md5, n, "v3"), len(c)/2)
	}
	return data(fmt.Sprint(u.name, u.md5, n, "v1"), len(c))
}

// spells says whether b is the concatenation of at least least of the first
// chunks, each in one of the given versions.
func (u *upload) spells(b []byte, sets []vset, n, least int) bool {
	if len(b) == 0 && n >= least {
		return true
	}
	if n == len(u.chunks) {
		return false
	}
	for v, ok := range sets[n] {
		if !ok {
			continue
		}
		if c := u.content(n, v); bytes.HasPrefix(b, c) && u.spells(b[len(c):], sets, n+1, least) {
			return true
		}
	}
	return false
}

type upWorld struct {
	ups     []*upload
	disk    *xos.FS
	gen     int
	removes map[string]int // digest -> removes begun and ended
	puts    map[string]int // digest -> chunk requests begun and ended
	removed map[string]bool
	crashes int
	task    map[*sim.Task]string // who may change what
	over    map[*sim.Task]func() // what to do when a request is over, also by a crash
	fin     map[string][]byte    // what the paths of merged files hold; nil: nothing
}

// merged looks at the path of a merged file: it holds what it held before or a whole merge.
func (w *upWorld) merged(name, when string) {
	path := "./fileDir/" + name
	got, ok := w.disk.Get(path)
	old := w.fin[name]
	if same(got, ok, old) && ok == (old != nil) || !ok && old == nil {
		return
	}
	if !ok {
		sim.Fail("merge-partial", "%s the file that was at %s is gone", when, path)
	}
	for _, u := range w.ups {
		if u.name != name {
			continue
		}
		if u.twin || w.removed[u.md5] {
			if u.spells(got, u.ever, 0, 0) {
				w.fin[name] = append([]byte{}, got...)
				return
			}
			continue
		}
		for _, m := range u.merges {
			if u.spells(got, m.seen, 0, m.least) {
				w.fin[name] = append([]byte{}, got...)
				return
			}
		}
	}
	sim.Fail("merge-partial", "%s %s holds %s, which is neither what it held before nor a whole merge", when, path, brief(got, ok))
}

// Upload runs a workload.
func Upload(ops []Up) {
	w := &upWorld{disk: xos.Disk(), gen: 1, removes: map[string]int{}, puts: map[string]int{}, removed: map[string]bool{}, task: map[*sim.Task]string{}, over: map[*sim.Task]func(){}, fin: map[string][]byte{}}
	var rest []Up
	horizon := int64(0)
	for _, o := range ops {
		horizon += o.W * int64(max(1, o.R))
		switch o.K {
		case "upload":
			u := &upload{name: o.A, md5: o.M}
			for i, s := range o.S {
				u.chunks = append(u.chunks, data(fmt.Sprint(o.A, o.M, i), s))
			}
			u.acked, u.active = make([]bool, len(o.S)), make([][]*put, len(o.S))
			u.ever, u.may = make([]vset, len(o.S)), make([]vset, len(o.S))
			if o.Z > 0 {
				w.disk.Put("./fileDir/"+o.A, data("old", o.Z))
			}
			for _, v := range w.ups {
				if v.name == u.name {
					v.twin, u.twin = true, true
				}
			}
			w.ups = append(w.ups, u)
		case "limit":
			w.disk.MaxOpen = o.N
		default:
			if o.U < len(w.ups) && (o.K != "chunk" || o.N < len(w.ups[o.U].chunks)) {
				rest = append(rest, o)
			}
		}
	}
	sim.S.OnCrash = func(proc int) {
		w.disk.CrashProc(proc)
		if proc == w.gen {
			w.gen++
			w.crashes++
		}
	}
	for _, u := range w.ups {
		if b, ok := w.disk.Get("./fileDir/" + u.name); ok {
			w.fin[u.name] = append([]byte{}, b...)
		}
	}
	w.disk.Watch = func(m xos.Mut) {
		for _, u := range w.ups {
			if m.Path == "/work/fileDir/"+u.name {
				w.merged(u.name, "after "+m.Op)
			}
		}
		if md5, ok := w.task[sim.Cur()]; ok {
			dir := "/work/breakpointDir/" + md5
			if m.Path != dir && !strings.HasPrefix(m.Path, dir+"/") {
				sim.Fail("removed-more", "removing the chunks of %q changed %s (%s)", md5, m.Path, m.Op)
			}
		}
	}
	ids, by := actors(rest, func(o Up) int { return o.T })
	var ts []*sim.Task
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				for k := 0; k <= o.R; k++ {
					if o.W > 0 {
						sim.Sleep(o.W)
					}
					if w.request(o) {
						break
					}
				}
			}
		}))
	}
	finish("an upload request", horizon, ts...)
	sim.Calm()
	// with no further fault everything acknowledged can be merged, as often as one likes
	last := sim.GoNamed("last", func() {
		for i, u := range w.ups {
			if w.removed[u.md5] {
				continue
			}
			all := len(u.chunks) > 0
			for n := range u.chunks {
				all = all && u.acked[n]
			}
			for k := 0; k < 2; k++ {
				ok := w.request(Up{K: "merge", U: i})
				if all && !ok {
					sim.Fail("merge-refused", "every chunk of %q was acknowledged and no fault happens any more, but the merge reports an error", u.name)
				}
			}
		}
	})
	finish("a merge", 0, last)
}

// request runs one request in the current server process and waits for it.
func (w *upWorld) request(o Up) (ok bool) {
	gen := w.gen
	done := false
	t := sim.GoProc(gen, o.K, func() {
		ok = w.serve(o)
		done = true
	})
	finish("a "+o.K+" request", 0, t)
	if f := w.over[t]; f != nil {
		f()
	}
	for _, u := range w.ups {
		w.merged(u.name, "after a "+o.K+" request")
	}
	return ok && done
}

func (w *upWorld) serve(o Up) bool {
	u := w.ups[o.U]
	switch o.K {
	case "chunk":
		c := u.content(o.N, o.V)
		sim.Grant(len(c))
		r0 := w.removes[u.md5]
		me := &put{alone: len(u.active[o.N]) == 0}
		for _, p := range u.active[o.N] {
			p.alone = false
		}
		u.active[o.N] = append(u.active[o.N], me)
		w.over[sim.Cur()] = func() {
			for i, p := range u.active[o.N] {
				if p == me {
					u.active[o.N] = append(u.active[o.N][:i:i], u.active[o.N][i+1:]...)
				}
			}
		}
		u.ever[o.N][o.V], u.may[o.N][o.V] = true, true
		for _, m := range u.merges {
			m.seen[o.N][o.V] = true
		}
		w.puts[u.md5]++
		arg := append(make([]byte, 0, len(c)), c...)
		path, err := utils.BreakPointContinue(arg, u.name, o.N, len(u.chunks), u.md5)
		sim.Tracef("chunk %d (content %d) of %s/%s: %s", o.N, o.V, u.md5, u.name, errText(err))
		if !bytes.Equal(arg, c) {
			sim.Fail("argument", "storing a chunk changed the caller's buffer")
		}
		if err != nil {
			return false
		}
		if w.removes[u.md5] == r0 && !running("remove") {
			got, ok := w.disk.Get(path)
			good := same(got, ok, c)
			for v, may := range u.may[o.N] {
				// a request for the same chunk at the same time may have won
				good = good || may && !me.alone && same(got, ok, u.content(o.N, v))
			}
			if !good {
				sim.Fail("ack", "chunk %d of %q was acknowledged, but %s holds %s: %s", o.N, u.name, path, brief(got, ok), differ(got, c))
			}
		}
		if me.alone {
			u.may[o.N] = vset{}
			u.may[o.N][o.V] = true
		}
		u.acked[o.N] = true
		return true
	case "merge":
		r0 := w.removes[u.md5]
		least := 0
		for n, a := range u.acked {
			if a {
				least = n + 1
			}
		}
		seen := append([]vset(nil), u.may...)
		m := &merging{seen, least, append([]*merging(nil), u.merges...)}
		for _, p := range u.merges {
			p.with = append(p.with, m)
		}
		u.merges = append(u.merges, m)
		w.over[sim.Cur()] = func() {
			for i, p := range u.merges {
				if p == m {
					u.merges = append(u.merges[:i:i], u.merges[i+1:]...)
				}
			}
		}
		path, err := utils.MakeFile(u.name, u.md5)
		sim.Tracef("merge of %s/%s: %s", u.md5, u.name, errText(err))
		if err != nil {
			return false
		}
		sim.Probe("merged")
		got, ok := w.disk.Get(path)
		if w.removes[u.md5] != r0 || running("remove") || w.removed[u.md5] || u.twin {
			// chunks came and went: whole chunks all the same
			for _, v := range w.ups {
				if v.name == u.name && ok && v.spells(got, v.ever, 0, 0) {
					return true
				}
			}
			sim.Fail("merge-content", "the merge of %q reported success, but %s holds %s, which is no sequence of its chunks", u.name, path, brief(got, ok))
		}
		for _, p := range append(m.with, m) {
			if ok && u.spells(got, p.seen, 0, p.least) {
				return true
			}
		}
		for n := 0; n < least; n++ {
			if seen[n] == (vset{}) {
				sim.Fail("merge-missing", "the merge of %q reported success although chunk %d was never stored", u.name, n)
			}
		}
		var want []byte
		for n := range u.chunks {
			for v, ok := range seen[n] {
				if ok {
					want = append(want, u.content(n, v)...)
					break
				}
			}
		}
		sim.Fail("merge-content", "the merge of %q (%d chunks, the first %d acknowledged) reported success, but %s holds %s: %s", u.name, len(u.chunks), least, path, brief(got, ok), differ(got, want))
	case "remove":
		w.removes[u.md5]++
		w.removed[u.md5] = true
		for _, v := range w.ups {
			if v.md5 == u.md5 {
				clear(v.acked)
			}
		}
		puts, live := w.puts[u.md5], running("chunk")
		w.task[sim.Cur()] = u.md5
		err := utils.RemoveChunk(u.md5)
		delete(w.task, sim.Cur())
		sim.Tracef("remove of %s: %s", u.md5, errText(err))
		w.removes[u.md5]++
		if err == nil && !live && w.puts[u.md5] == puts {
			if e := w.disk.Exists("./breakpointDir/" + u.md5); e != "" {
				for _, p := range sim.Keys(w.disk.Tree("./breakpointDir/" + u.md5)) {
					if p != "breakpointDir/"+u.md5 {
						sim.Fail("removed-less", "removing the chunks of %q reported success, but %s is still there", u.md5, p)
					}
				}
			}
		}
		return err == nil
	}
	return false
}

// running says whether such a request is under way.
func running(what string) bool {
	for _, t := range sim.Live() {
		if t.Name == what {
			return true
		}
	}
	return false
}

// GenUpload makes a workload.
func GenUpload(g *run.G, c *sim.Config) []Up {
	g.Faults(c, 0.5, 4, "open,read,write,close,stat,mkdir,readdir,rename,remove,seek,sync,truncate,chmod")
	if c.FaultP > 0.1 {
		c.FaultP = 0.1
	}
	if g.P(0.35) {
		c.CrashP = run.Pick(g, 0.002, 0.01, 0.03)
		if c.Faults != "" {
			c.Faults += ",crash-in-write"
		} else if g.P(0.5) {
			c.Faults, c.FaultP, c.MaxFault = "crash-in-write", 0.05, 2
		}
	}
	if g.P(0.3) {
		c.Params = map[string]int64{"short": 2}
	}
	g.Stalls(c, 0.2, 1e3, 50e3, ms)
	var ops []Up
	names := []string{"a.bin", "a.bin_1", "b", "a[1].bin", "文件.txt", "a.bin.tmp"}
	md5s := []string{"m1", "m1", "m10", "d41d8cd98f00b204e9800998ecf8427e"}
	nu := 1 + g.Weighted(5, 3, 1)
	for i := 0; i < nu; i++ {
		o := Up{T: -1, K: "upload", U: i, A: names[g.Intn(len(names))], M: md5s[g.Intn(len(md5s))]}
		if i > 0 && g.P(0.7) {
			// distinct names most of the time
			o.A = names[(i*2+g.Intn(2))%len(names)]
		}
		for _, p := range ops {
			if p.A == o.A && p.M == o.M {
				o.M += "x"
			}
		}
		n := g.Range(1, 4)
		if g.P(0.12) {
			n = g.Range(10, 13)
		}
		if g.P(0.003) {
			n = run.Pick(g, 64, 101, 130, 260)
		}
		for k := 0; k < n; k++ {
			s := size(g)
			if n > 4 {
				s = g.Range(0, 9)
			}
			o.S = append(o.S, s)
		}
		if g.P(0.35) {
			o.Z = size(g) + size(g)
		}
		ops = append(ops, o)
	}
	if g.P(0.15) {
		ops = append(ops, Up{T: -1, K: "limit", N: g.Range(4, 8)})
	}
	w := func() int64 {
		if g.P(0.7) {
			return 0
		}
		return run.Pick(g, int64(100), 2000, 50e3, ms)
	}
	clients := g.Range(1, 4)
	removes := g.P(0.2)
	other := g.P(0.3)
	ups := ops[:nu]
	for u, o := range ups {
		// deal the chunks out, in any order, with repeats and gaps
		var list []int
		for k := range o.S {
			if len(o.S) > 40 || g.P(0.95) {
				list = append(list, k)
			}
			if g.P(0.2) {
				list = append(list, k)
			}
		}
		for i := range list {
			j := g.Intn(i + 1)
			list[i], list[j] = list[j], list[i]
		}
		for _, k := range list {
			o := Up{T: 1 + g.Intn(clients), K: "chunk", U: u, N: k, W: w(), R: run.Pick(g, 0, 1, 3, 3)}
			if other && g.P(0.3) {
				o.V = g.Range(1, versions-1)
			}
			ops = append(ops, o)
			if g.P(0.12) && (len(o.S) < 40 || k%32 == 0) {
				ops = append(ops, Up{T: 1 + g.Intn(clients), K: "merge", U: u, W: w(), R: g.Intn(2)})
			}
			if removes && g.P(0.1) {
				ops = append(ops, Up{T: 1 + g.Intn(clients), K: "remove", U: u, W: w(), R: g.Intn(3)})
			}
		}
		for k := g.Range(1, 3); k > 0; k-- {
			ops = append(ops, Up{T: 1 + g.Intn(clients), K: "merge", U: u, W: w(), R: g.Intn(3)})
		}
		if removes && g.P(0.5) {
			ops = append(ops, Up{T: 1 + g.Intn(clients), K: "remove", U: u, W: w(), R: g.Intn(3)})
		}
	}
	return ops
}
