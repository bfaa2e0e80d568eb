package files

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"path"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Cv is one step of a CSV workload.
type Cv struct {
	T int      `json:"t"`           // client; -1: setup
	K string   `json:"k"`           // rows, limit, space (setup); write, read
	F int      `json:"f,omitempty"` // which file
	L []string `json:"l,omitempty"` // the row
	N int      `json:"n,omitempty"` // rows, limit
	P int      `json:"p,omitempty"` // how the file's path is spelled
	W int64    `json:"w,omitempty"`
	R int      `json:"r,omitempty"`
}

type csvRow struct {
	bytes   []byte
	fields  []string
	by      *sim.Task
	call    uint64
	ret     uint64 // 0: running
	failed  bool
	untidy  bool // cleaning up after the failure was itself hit by a fault
	faulted int
}

type csvFile struct {
	name  string
	start []byte
	first [][]string
	rows  []*csvRow
	torn  bool
}

func encode(row []string) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	w.UseCRLF = true
	_ = w.Write(row)
	w.Flush()
	return b.Bytes()
}

// CSV runs a workload.
func CSV(ops []Cv) {
	disk := xos.Disk()
	fs := make([]*csvFile, 2)
	for i := range fs {
		fs[i] = &csvFile{name: fmt.Sprintf("t%d.csv", i)}
	}
	var rest []Cv
	horizon := int64(0)
	for _, o := range ops {
		f := fs[o.F]
		switch o.K {
		case "rows":
			f.start = append(f.start, encode(o.L)...)
			f.first = append(f.first, o.L)
			disk.Put(f.name, f.start)
		case "limit":
			disk.MaxOpen = o.N
		case "space":
			disk.Capacity = disk.Used() + int64(o.N)
		default:
			rest = append(rest, o)
			horizon += o.W * int64(1+o.R)
		}
	}
	if disk.Capacity > 0 {
		disk.Capacity = 0
		for _, o := range ops {
			if o.K == "space" {
				disk.Capacity = disk.Used() + int64(o.N)
			}
		}
	}
	disk.Watch = func(m xos.Mut) {
		for _, f := range fs {
			if disk.Abs(f.name) == m.Path {
				got, _ := disk.Get(f.name)
				if !bytes.HasPrefix(got, f.start) {
					sim.Fail("damage", "%s damaged the rows that %s held before: %s", m.Op, f.name, differ(got, f.start))
				}
			}
		}
	}
	ids, by := actors(rest, func(o Cv) int { return o.T })
	var ts []*sim.Task
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				for k := 0; k <= o.R; k++ {
					if o.W > 0 {
						sim.Sleep(o.W)
					}
					if o.K == "write" {
						if fs[o.F].write(disk, o.L, o.P) {
							break
						}
					} else if fs[o.F].read(disk, o.P) {
						break
					}
				}
			}
		}))
	}
	finish("a CSV call", horizon, ts...)
	for _, f := range fs {
		f.judge(disk)
	}
	sim.Calm()
	disk.Capacity, disk.MaxOpen = 0, 0
	last := sim.GoNamed("last", func() {
		for _, f := range fs {
			if len(f.rows) == 0 && len(f.first) == 0 {
				continue
			}
			width := 2
			if len(f.first) > 0 {
				width = len(f.first[0])
			} else {
				width = len(f.rows[0].fields)
			}
			row := make([]string, width)
			for i := range row {
				row[i] = fmt.Sprint("last", i)
			}
			if !f.write(disk, row, 0) {
				sim.Fail("write-refused", "a row cannot be written although no fault happens any more")
			}
			f.judge(disk)
			if !f.read(disk, 0) && !f.torn {
				sim.Fail("read-refused", "%s cannot be read although no fault happens any more and every row was written whole", f.name)
			}
		}
	})
	finish("a CSV call", 0, last)
}

// spell gives one of the ways to write the file's path.
func (f *csvFile) spell(disk *xos.FS, p int) string {
	switch p {
	case 1:
		return "./" + f.name
	case 2:
		return disk.Abs(f.name)
	case 3:
		return ".//" + f.name
	case 4:
		return "../" + path.Base(disk.Abs(".")) + "/" + f.name
	}
	return f.name
}

func (f *csvFile) write(disk *xos.FS, row []string, p int) bool {
	r := &csvRow{bytes: encode(row), fields: row, by: sim.Cur(), call: sim.Seq()}
	f.rows = append(f.rows, r)
	n0 := len(disk.Injected)
	arg := append(make([]string, 0, len(row)), row...)
	err := utils.WriteCsv(f.spell(disk, p), arg)
	sim.Tracef("write %q: %s", row, errText(err))
	for _, i := range disk.Injected[n0:] {
		if i.Task == sim.Cur() {
			r.faulted++
		}
	}
	r.ret = sim.Seq()
	r.failed = err != nil
	r.untidy = r.failed && r.faulted > 1
	if err != nil && r.faulted == 0 && disk.MaxOpen == 0 {
		sim.Fail("write-refused", "writing a row reports an error although nothing failed: %v", err)
	}
	if strings.Join(arg, "\x00") != strings.Join(row, "\x00") {
		sim.Fail("argument", "writing a row changed the caller's row")
	}
	if err == nil {
		sim.Probe("row written")
	}
	return err == nil
}

// judge checks the file when nothing is running: the rows before, then every
// row reported written once, in an order that keeps calls that did not overlap.
func (f *csvFile) judge(disk *xos.FS) {
	got, ok := disk.Get(f.name)
	if !ok {
		for _, r := range f.rows {
			if !r.failed {
				sim.Fail("row-lost", "%s does not exist, but writing %q reported success", f.name, r.fields)
			}
		}
		return
	}
	if !bytes.HasPrefix(got, f.start) {
		sim.Fail("damage", "the rows that %s held before are damaged: %s", f.name, differ(got, f.start))
	}
	rest := got[len(f.start):]
	left := append([]*csvRow(nil), f.rows...)
	budget := 20000
	var match func(rest []byte, left []*csvRow) bool
	match = func(rest []byte, left []*csvRow) bool {
		if budget--; budget < 0 {
			return true
		}
		done := true
		for _, r := range left {
			done = done && r.failed
		}
		if done && len(rest) == 0 {
			return true
		}
		for i, r := range left {
			first := true
			for _, q := range left {
				if q != r && q.ret < r.call && !q.failed {
					first = false
				}
			}
			if !first {
				continue
			}
			others := append(append([]*csvRow(nil), left[:i]...), left[i+1:]...)
			if !r.failed && bytes.HasPrefix(rest, r.bytes) && match(rest[len(r.bytes):], others) {
				return true
			}
			if r.untidy {
				for n := len(r.bytes); n > 0; n-- {
					if bytes.HasPrefix(rest, r.bytes[:n]) && match(rest[n:], others) {
						f.torn = true
						return true
					}
				}
			}
		}
		return false
	}
	if !match(rest, left) {
		var want []string
		for _, r := range f.rows {
			s := fmt.Sprintf("%q", r.bytes)
			if len(s) > 60 {
				s = s[:60] + "..."
			}
			if r.failed {
				s += " (failed)"
			}
			want = append(want, s)
		}
		sim.Fail("rows", "%s holds %s behind its first rows, which is not the rows written, once each and whole: %s", f.name, short(rest), strings.Join(want, ", "))
	}
}

func short(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// read reads the file back; it says whether there was an answer.
func (f *csvFile) read(disk *xos.FS, p int) bool {
	start := sim.Seq()
	n0 := len(disk.Injected)
	busy := false
	for _, r := range f.rows {
		busy = busy || r.ret == 0 || r.untidy
	}
	got := utils.ReadCsv(f.spell(disk, p))
	sim.Tracef("read %s: %v", f.name, got != nil)
	for _, r := range f.rows {
		busy = busy || r.ret == 0 || r.ret > start || r.untidy
	}
	if busy {
		return got != nil // a row may be half written
	}
	if got == nil {
		_, ok := disk.Get(f.name)
		if ok && !injected(disk, n0) && disk.MaxOpen == 0 {
			sim.Fail("read-refused", "%s cannot be read although nothing failed and every row was written whole", f.name)
		}
		return false
	}
	sim.Probe("read back")
	rows := *got
	if len(rows) < len(f.first) {
		sim.Fail("read", "reading %s gives %d rows, fewer than the %d it started with", f.name, len(rows), len(f.first))
	}
	same := func(a, b []string) bool {
		return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b)
	}
	for i, r := range f.first {
		if !same(rows[i], r) {
			sim.Fail("read", "reading %s gives row %d as %q, not %q", f.name, i, rows[i], r)
		}
	}
	left := map[string]int{}
	n := 0
	for _, r := range f.rows {
		if !r.failed {
			left[strings.Join(r.fields, "\x00")]++
			n++
		}
	}
	for _, r := range rows[len(f.first):] {
		if k := strings.Join(r, "\x00"); left[k] > 0 {
			left[k]--
			n--
		} else {
			sim.Fail("read", "reading %s gives the row %q, which was not written (so often)", f.name, r)
		}
	}
	if n != 0 {
		sim.Fail("read", "reading %s gives %d rows too few", f.name, n)
	}
	return true
}

// GenCSV makes a workload.
func GenCSV(g *run.G, c *sim.Config) []Cv {
	ioFaults(g, c, "open,read,write,close,stat,seek,sync,truncate,rename,remove,chmod", false)
	var ops []Cv
	width := []int{g.Range(1, 5), g.Range(1, 5)}
	n := 0
	row := func(f int) []string {
		r := make([]string, width[f])
		n++
		for i := range r {
			r[i] = run.Pick(g, "", "a", "x,y", "say \"hi\"", "two\nlines", " lead", "ünï", "=1+1", "\\.", "1", "a;b", "#no", "tab\tx")
			if g.P(0.04) {
				r[i] = strings.Repeat(run.Pick(g, "long ", "\"q", "x"), g.Range(100, 3000))
			}
		}
		if g.P(0.8) || width[f] == 1 {
			r[0] = fmt.Sprint("r", n, r[0])
		}
		return r
	}
	if g.P(0.15) {
		ops = append(ops, Cv{T: -1, K: "limit", N: g.Range(1, 3)})
	}
	for f := 0; f < 2; f++ {
		if g.P(0.5) {
			for k := g.Range(1, 3); k > 0; k-- {
				ops = append(ops, Cv{T: -1, K: "rows", F: f, L: row(f)})
			}
		}
	}
	spelled := g.P(0.2)
	clients := g.Range(1, 4)
	for t := 1; t <= clients; t++ {
		for k := g.Range(1, 4); k > 0; k-- {
			f := 0
			if g.P(0.2) {
				f = 1
			}
			p := 0
			if spelled {
				p = g.Intn(5)
			}
			if g.P(0.2) {
				ops = append(ops, Cv{T: t, K: "read", F: f, P: p, W: pause(g)})
			} else {
				ops = append(ops, Cv{T: t, K: "write", F: f, L: row(f), P: p, W: pause(g), R: g.Intn(3)})
			}
		}
	}
	if g.P(0.2) {
		ops = append(ops, Cv{T: -1, K: "space", N: g.Range(1, 80) * run.Pick(g, 1, 1, 100)})
	}
	return ops
}
