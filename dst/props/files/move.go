package files

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Mv is one step of a moving workload.
type Mv struct {
	T int    `json:"t"`           // client; -1: setup
	K string `json:"k"`           // item, old, dir, link, mount, cwd (setup); move
	I int    `json:"i"`           // which item; a client moves only its own items, a shared item is moved by all
	A string `json:"a,omitempty"` // path, or destination
	B string `json:"b,omitempty"` // link target
	N int    `json:"n,omitempty"` // size
	D int    `json:"d,omitempty"` // item: a directory of so many files
	W int64  `json:"w,omitempty"`
	R int    `json:"r,omitempty"`
}

type item struct {
	at     string // where it is known to be
	want   string // its content
	to     map[string]bool
	shared bool
	moved  int
}

// Move runs a workload.
func Move(ops []Mv) {
	disk := xos.Disk()
	h := newHost(disk)
	disk.Mkdir("/work/deep/er")
	items := map[int]*item{}
	var order []int
	var rest []Mv
	horizon := int64(0)
	content := func(p string) string {
		t := disk.Tree(p)
		if len(t) == 0 {
			return ""
		}
		ks := make([]string, 0, len(t))
		for k, v := range t {
			ks = append(ks, strings.TrimPrefix(k, path.Clean(p))+" "+v)
		}
		sort.Strings(ks)
		return strings.Join(ks, "\n")
	}
	for _, o := range ops {
		switch o.K {
		case "item":
			if o.D == 0 {
				disk.Put(o.A, data(o.A, o.N))
			} else {
				disk.Mkdir(disk.Abs(o.A))
				for i := 0; i < o.D; i++ {
					disk.Put(fmt.Sprint(o.A, "/f", i), data(fmt.Sprint(o.A, i), o.N))
				}
			}
			items[o.I] = &item{at: disk.Abs(o.A), want: content(disk.Abs(o.A)), to: map[string]bool{}}
			order = append(order, o.I)
		case "old":
			disk.Put(o.A, data("old", o.N))
		case "dir":
			disk.Mkdir(disk.Abs(o.A))
		case "link":
			disk.Symlink(o.B, o.A)
		case "mount":
			disk.Mkdir(o.A)
			disk.Mounts = append(disk.Mounts, o.A)
		case "move":
			rest = append(rest, o)
			horizon += o.W * int64(1+o.R)
		}
	}
	who := map[int]int{}
	var keep []Mv
	for _, o := range rest {
		it := items[o.I]
		if it == nil {
			continue
		}
		if w, ok := who[o.I]; ok && w != o.T {
			it.shared = true
		}
		who[o.I] = o.T
		keep = append(keep, o)
	}
	whole := func(it *item, when string) {
		if content(it.at) == it.want {
			return
		}
		for p := range it.to {
			if content(p) == it.want {
				return
			}
		}
		var all []string
		for p := range it.to {
			all = append(all, p)
		}
		sort.Strings(all)
		sim.Fail("lost", "%s the file moved from %s to %v is complete at neither place", when, it.at, all)
	}
	disk.Watch = func(m xos.Mut) {
		if m.Op == "rename-from" {
			return // one step with the rename-to that follows
		}
		for _, i := range order {
			whole(items[i], fmt.Sprintf("after %s of %s", m.Op, m.Path))
		}
	}
	ids, by := actors(keep, func(o Mv) int { return o.T })
	var ts []*sim.Task
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				it := items[o.I]
				for k := 0; k <= o.R; k++ {
					if o.W > 0 {
						sim.Sleep(o.W)
					}
					dst := disk.Abs(o.A)
					src := it.at
					it.to[dst] = true
					ok := false
					done := h.call("move", func() {
						arg := src
						if strings.HasPrefix(src, "/work/") && o.N%2 == 1 {
							arg = strings.TrimPrefix(src, "/work/")
						}
						moved := it.moved
						err := utils.FileMove(arg, o.A)
						sim.Tracef("move of %s to %s: %s", arg, o.A, errText(err))
						if it.shared {
							if err == nil {
								it.moved++
								sim.Probe("moved")
								if it.moved > 1 {
									sim.Fail("twice", "moving %s succeeded more than once", src)
								}
								if content(dst) != it.want {
									sim.Fail("move", "moving %s to %s reported success, but the file is not there", src, dst)
								}
							} else if it.moved == 0 && moved == 0 {
								// nobody's success is known yet: whole somewhere (checked all along)
								whole(it, "after a failed move")
							}
							return
						}
						if err == nil {
							ok = true
							sim.Probe("moved")
							if content(dst) != it.want {
								sim.Fail("move", "moving %s to %s reported success, but the file is not there", src, dst)
							}
							if disk.LExists(src) != "" && !sameEntry(disk, src, dst) {
								sim.Fail("move-left", "moving %s to %s reported success, but the source is still there", src, dst)
							}
						} else if content(src) != it.want {
							sim.Fail("move-failed", "moving %s to %s reported an error (%v), but the file is not at the source any more", src, dst, err)
						}
					})
					if it.shared {
						if it.moved > 0 {
							break
						}
						continue
					}
					if !done && content(src) != it.want {
						ok = true // the crash came after the move
					}
					if ok {
						it.at = dst
						it.to = map[string]bool{}
						break
					}
					it.to = map[string]bool{}
				}
			}
		}))
	}
	finish("a move", horizon, ts...)
	for _, i := range order {
		whole(items[i], "in the end")
	}
	sim.Calm()
	last := sim.GoNamed("last", func() {
		for _, i := range order {
			it := items[i]
			if it.shared {
				continue
			}
			dst := fmt.Sprint("/work/end/of/", i, "/it")
			it.to[dst] = true
			same := disk.Mounts == nil
			if err := utils.FileMove(it.at, dst); err == nil {
				if content(dst) != it.want || disk.LExists(it.at) != "" {
					sim.Fail("move", "moving %s to %s reported success, but the file is not there", it.at, dst)
				}
			} else if same {
				sim.Fail("move-refused", "moving %s to %s reports an error although no fault happens any more: %v", it.at, dst, err)
			}
		}
	})
	finish("a move", 0, last)
}

// sameEntry says whether two paths name one directory entry.
func sameEntry(disk *xos.FS, a, b string) bool {
	return disk.Real(a) == disk.Real(b)
}

// GenMove makes a workload.
func GenMove(g *run.G, c *sim.Config) []Mv {
	ioFaults(g, c, "stat,mkdir,rename,getwd,open,read,write,close,remove,sync,truncate,chmod", true)
	var ops []Mv
	if g.P(0.25) {
		ops = append(ops, Mv{T: -1, K: "mount", A: "/mnt"})
	}
	if g.P(0.2) {
		ops = append(ops, Mv{T: -1, K: "dir", A: "/work/real"}, Mv{T: -1, K: "link", A: "/work/lnk", B: "real"})
	}
	clients := g.Range(1, 3)
	n := 0
	add := func(t int) int {
		o := Mv{T: -1, K: "item", I: n, A: run.Pick(g, "", "deep/", "deep/er/", "/mnt/", "/tmp/") + odd(g, 0.1, fmt.Sprint("item", n)), N: size(g)}
		if g.P(0.12) {
			o.D, o.N = g.Range(1, 3), g.Range(0, 40)
		}
		ops = append(ops, o)
		n++
		return o.I
	}
	dest := func(i int) string {
		d := run.Pick(g, "", "new/", "new/a/b/", "/mnt/x/", "/mnt/", "deep/", "/tmp/y/z/", "lnk/q/", "../up/", "new/./c/../d/") + odd(g, 0.15, fmt.Sprint("dst", i))
		if g.P(0.15) {
			d = "occupied/" + fmt.Sprint("dst", i)
			ops = append(ops, Mv{T: -1, K: "old", A: d, N: size(g)})
		}
		if g.P(0.04) {
			d = run.Pick(g, "", "standing/") + fmt.Sprint("dir", i)
			ops = append(ops, Mv{T: -1, K: "dir", A: d})
			if g.P(0.5) {
				ops = append(ops, Mv{T: -1, K: "old", A: d + "/x", N: 5})
			}
		}
		if g.P(0.03) {
			d = fmt.Sprint("item", i) // onto itself perhaps
		}
		if g.P(0.03) {
			d = fmt.Sprint("blocked/x/dst", i)
			ops = append(ops, Mv{T: -1, K: "old", A: "blocked", N: 3})
		}
		return d
	}
	for t := 1; t <= clients; t++ {
		for k := g.Range(1, 2); k > 0; k-- {
			i := add(t)
			for j := g.Range(1, 3); j > 0; j-- {
				ops = append(ops, Mv{T: t, K: "move", I: i, A: dest(i), N: g.Intn(2), W: pause(g), R: g.Intn(3)})
			}
		}
	}
	if clients > 1 && g.P(0.25) {
		i := add(0)
		for t := 1; t <= clients; t++ {
			ops = append(ops, Mv{T: t, K: "move", I: i, A: fmt.Sprint("won/by", t, "/it"), W: pause(g), R: g.Intn(2)})
		}
	}
	return ops
}
