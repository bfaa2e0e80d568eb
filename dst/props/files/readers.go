package files

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/csv"
	"errors"
	"fmt"
	"io"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Rd is one step of a reading workload.
type Rd struct {
	T int    `json:"t"`           // client; -1: setup
	K string `json:"k"`           // file, table, bare, limit (setup); md5, stream, csv, image
	A string `json:"a,omitempty"` // path
	N int    `json:"n,omitempty"` // size; stream: length
	E int    `json:"e,omitempty"` // stream: 1 fails at the end, 2 fails together with the last bytes, 3 ends together with the last bytes; table: 1 malformed
	C []int  `json:"c,omitempty"` // stream: sizes of the pieces
	W int64  `json:"w,omitempty"` // wait before the call; stream: before every piece
	R int    `json:"r,omitempty"`
}

// stream is a reader that gives its content in pieces and may fail.
type stream struct {
	rest  []byte
	piece []int
	i     int
	end   int
	wait  int64
}

var errStream = errors.New("connection reset")

func (s *stream) Read(p []byte) (int, error) {
	sim.Yield()
	if s.wait > 0 {
		sim.Sleep(s.wait)
	}
	n := len(s.rest)
	if len(s.piece) > 0 {
		n = min(n, s.piece[s.i%len(s.piece)])
		s.i++
	}
	if len(s.rest) == 0 {
		if s.end == 1 || s.end == 2 {
			return 0, errStream
		}
		return 0, io.EOF
	}
	n = copy(p[:min(len(p), n)], s.rest)
	s.rest = s.rest[n:]
	if len(s.rest) == 0 {
		switch s.end {
		case 2:
			return n, errStream
		case 3:
			return n, io.EOF
		}
	}
	return n, nil
}

func table(o Rd) []byte {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	for i := 0; i < o.N; i++ {
		w.Write([]string{fmt.Sprint("row", i), strings.Repeat("x", i*7%90), "a,\"b\"\nc"})
	}
	w.Flush()
	if o.E == 1 {
		b.WriteString("bad\"quote,2,3\n")
	}
	return b.Bytes()
}

// Read runs a workload.
func Read(ops []Rd) {
	disk := xos.Disk()
	disk.Mkdir("/work/dir")
	var rest []Rd
	horizon := int64(0)
	for _, o := range ops {
		switch o.K {
		case "file":
			disk.Put(o.A, data(o.A, o.N))
		case "table":
			disk.Put(o.A, table(o))
		case "bare":
			disk.Sizeless(o.A)
		case "limit":
			disk.MaxOpen = o.N
		default:
			rest = append(rest, o)
			horizon += o.W * int64(1+o.R) * int64(2+o.N)
		}
	}
	ids, by := actors(rest, func(o Rd) int { return o.T })
	var ts []*sim.Task
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				for k := 0; k <= o.R; k++ {
					if o.W > 0 {
						sim.Sleep(o.W)
					}
					if read(disk, o) {
						break
					}
				}
			}
		}))
	}
	finish("a read", horizon, ts...)
}

func read(disk *xos.FS, o Rd) (answered bool) {
	n0 := len(disk.Injected)
	want, there := disk.Get(o.A)
	sound := there
	judge := func(what string, ok, right bool, got any) {
		hit := injected(disk, n0)
		sim.Tracef("%s of %s: answered %v", what, o.A, ok)
		if ok && !sound {
			sim.Fail("answer", "%s of %s, which cannot be read whole, gives %.80q", what, o.A, fmt.Sprint(got))
		}
		if ok && !right {
			sim.Fail("answer", "%s of %s gives %.80q, which is not the answer for its %d bytes (%d faults in the call)", what, o.A, fmt.Sprint(got), len(want), len(disk.Injected)-n0)
		}
		if !ok && sound && !hit && disk.MaxOpen == 0 {
			sim.Fail("refused", "%s of %s gives no answer although nothing failed", what, o.A)
		}
		if ok {
			sim.Probe("answered")
		} else {
			sim.Probe("failure reported")
		}
		answered = ok
	}
	switch o.K {
	case "md5":
		got, err := utils.FileMd5(o.A)
		judge("the digest", err == nil, got == fmt.Sprintf("%x", md5.Sum(want)), got)
		if err != nil && got != "" {
			sim.Fail("answer", "the digest of %s gives both an error and %q", o.A, got)
		}
	case "stream":
		want = data("stream"+o.A, o.N)
		sound = o.E != 1 && o.E != 2
		got := utils.ComputeFileMD5(&stream{rest: want, piece: o.C, end: o.E, wait: o.W})
		o.A = "a stream"
		judge("the digest", got != "", got == fmt.Sprintf("%x", md5.Sum(want)), got)
	case "csv":
		rows, err := csv.NewReader(bytes.NewReader(want)).ReadAll()
		sound = sound && err == nil
		got := utils.ReadCsv(o.A)
		right := got != nil && len(*got) == len(rows)
		for i := 0; right && i < len(rows); i++ {
			right = strings.Join(rows[i], "\x00") == strings.Join((*got)[i], "\x00")
		}
		n := 0
		if got != nil {
			n = len(*got)
		}
		judge("the table", got != nil, right, fmt.Sprint(n, " rows"))
	case "image":
		got := utils.ImageFileToBase64(o.A)
		judge("the encoding", got != "", got == "data:image/png;base64,"+base64.StdEncoding.EncodeToString(want), got)
	}
	return
}

// GenRead makes a workload.
func GenRead(g *run.G, c *sim.Config) []Rd {
	ioFaults(g, c, "open,read,close,stat,seek", false)
	var ops []Rd
	n := g.Range(1, 3)
	for i := 0; i < n; i++ {
		ops = append(ops, Rd{T: -1, K: "file", A: fmt.Sprint("f", i), N: size(g)})
		o := Rd{T: -1, K: "table", A: fmt.Sprint("t", i), N: run.Pick(g, 0, 1, 3, 20, 120)}
		if g.P(0.005) {
			o.N = run.Pick(g, 1000, 5001, 12000)
		}
		if g.P(0.1) {
			o.E = 1
		}
		ops = append(ops, o)
		if g.P(0.04) {
			ops = append(ops, Rd{T: -1, K: "bare", A: run.Pick(g, "f", "t") + fmt.Sprint(i)})
		}
	}
	if g.P(0.1) {
		ops = append(ops, Rd{T: -1, K: "limit", N: g.Range(1, 3)})
	}
	clients := g.Range(1, 4)
	for t := 1; t <= clients; t++ {
		for k := g.Range(1, 3); k > 0; k-- {
			o := Rd{T: t, K: run.Pick(g, "md5", "stream", "csv", "image"), W: pause(g), R: g.Intn(3)}
			o.A = fmt.Sprint("f", g.Intn(n))
			switch o.K {
			case "csv":
				o.A = fmt.Sprint("t", g.Intn(n))
			case "stream":
				o.N, o.E = size(g), run.Pick(g, 0, 0, 1, 2, 3)
				for j := g.Intn(3); j > 0; j-- {
					o.C = append(o.C, run.Pick(g, g.Range(max(1, o.N/4), max(1, o.N)), max(1, o.N/3), max(1, o.N-1), 0))
				}
				if len(o.C) > 0 {
					o.C = append(o.C, max(1, o.N/2))
				}
			}
			if g.P(0.04) {
				o.A = run.Pick(g, "absent", "dir")
			}
			ops = append(ops, o)
		}
	}
	return ops
}
