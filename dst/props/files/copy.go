package files

import (
	"fmt"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Cp is one step of a copying workload.
type Cp struct {
	T int    `json:"t"`           // client; -1: setup
	K string `json:"k"`           // file, bare, dir, link, limit, space (setup); copy
	A string `json:"a"`           // path, or destination
	B string `json:"b,omitempty"` // link target, or source
	N int    `json:"n,omitempty"` // size, limit
	W int64  `json:"w,omitempty"`
	R int    `json:"r,omitempty"` // attempts after a failure
}

// Copy runs a workload. Several clients never write one destination.
func Copy(ops []Cp) {
	disk := xos.Disk()
	h := newHost(disk)
	src := map[string][]byte{}
	disk.Mkdir("/work/dir")
	var rest []Cp
	horizon := int64(0)
	for _, o := range ops {
		switch o.K {
		case "file":
			disk.Put(o.A, data(o.A, o.N))
		case "bare":
			disk.Sizeless(o.A)
		case "dir":
			disk.Mkdir(disk.Abs(o.A))
		case "link":
			disk.Symlink(o.B, o.A)
		case "limit":
			disk.MaxOpen = o.N
		case "space":
			disk.Capacity = disk.Used() + int64(o.N)
		case "copy":
			rest = append(rest, o)
			horizon += o.W * int64(1+o.R)
		}
	}
	for _, o := range rest {
		if b, ok := disk.Get(o.B); ok {
			src[o.B] = b
		}
	}
	sources := func(when string) {
		for _, p := range sim.Keys(src) {
			b := src[p]
			if got, ok := disk.Get(p); !same(got, ok, b) {
				sim.Fail("source", "%s the source %s holds %s: %s", when, p, brief(got, ok), differ(got, b))
			}
		}
	}
	total := 0
	for _, b := range src {
		total += len(b)
	}
	disk.Watch = func(m xos.Mut) {
		if total > 300000 && src[strings.TrimPrefix(m.Path, "/work/")] == nil {
			return // looking at all of it every time takes too long
		}
		sources("after " + m.Op + " of " + m.Path)
	}
	ids, by := actors(rest, func(o Cp) int { return o.T })
	var ts []*sim.Task
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				for k := 0; k <= o.R; k++ {
					if o.W > 0 {
						sim.Sleep(o.W)
					}
					ok := false
					h.call("copy", func() {
						n, err := utils.CopyFile(o.A, o.B)
						sim.Tracef("copy %s to %s: %d, %s", o.B, o.A, n, errText(err))
						if err != nil {
							return
						}
						ok = true
						want, there := src[o.B]
						if !there {
							sim.Fail("copied-nothing", "copying %s, which is no file, reported success", o.B)
						}
						sim.Probe("copied")
						if got, is := disk.Get(o.A); !same(got, is, want) {
							sim.Fail("copy", "copying %s to %s reported success, but the destination holds %s: %s", o.B, o.A, brief(got, is), differ(got, want))
						}
						if n != int64(len(want)) {
							sim.Fail("count", "copying the %d bytes of %s reported %d", len(want), o.B, n)
						}
					})
					if ok {
						break
					}
				}
			}
		}))
	}
	finish("a copy", horizon, ts...)
	sources("in the end")
}

// GenCopy makes a workload.
func GenCopy(g *run.G, c *sim.Config) []Cp {
	ioFaults(g, c, "open,read,write,close,stat,seek,sync,truncate,chmod,rename", true)
	var ops []Cp
	ns := g.Range(1, 3)
	for i := 0; i < ns; i++ {
		ops = append(ops, Cp{T: -1, K: "file", A: fmt.Sprint("src", i), N: size(g)})
		if g.P(0.03) && i > 0 {
			ops = append(ops, Cp{T: -1, K: "bare", A: fmt.Sprint("src", i)})
		}
	}
	if g.P(0.15) {
		ops = append(ops, Cp{T: -1, K: "limit", N: g.Range(1, 4)})
	}
	clients := g.Range(1, 3)
	for t := 1; t <= clients; t++ {
		nd := g.Range(1, 2)
		for d := 0; d < nd; d++ {
			dst := odd(g, 0.1, fmt.Sprintf("dst%d_%d", t, d))
			switch g.Weighted(4, 5, 1, 1, 1) {
			case 1:
				ops = append(ops, Cp{T: -1, K: "file", A: dst, N: size(g) + size(g)})
			case 2:
				dst = "sub/" + dst
				if g.P(0.7) {
					ops = append(ops, Cp{T: -1, K: "dir", A: "sub"})
				}
			case 3:
				ops = append(ops, Cp{T: -1, K: "file", A: "real" + dst, N: size(g) + size(g)}, Cp{T: -1, K: "link", A: dst, B: "real" + dst})
			case 4:
				dst = run.Pick(g, "dir", "src0")
				if dst == "src0" {
					// a file copied onto itself stays what it is
					if g.P(0.5) {
						ops = append(ops, Cp{T: -1, K: "link", A: "same", B: "src0"})
						dst = "same"
					}
					ops = append(ops, Cp{T: t, K: "copy", A: dst, B: "src0", W: pause(g)})
					continue
				}
			}
			for k := g.Range(1, 3); k > 0; k-- {
				s := fmt.Sprint("src", g.Intn(ns))
				if g.P(0.04) {
					s = run.Pick(g, "absent", "dir")
				}
				ops = append(ops, Cp{T: t, K: "copy", A: dst, B: s, W: pause(g), R: g.Intn(3)})
			}
		}
	}
	if g.P(0.2) {
		ops = append(ops, Cp{T: -1, K: "space", N: size(g)})
	}
	return ops
}
