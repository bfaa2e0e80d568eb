package files

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Dr is one step of a directory workload.
type Dr struct {
	T int      `json:"t"`           // client; -1: setup
	K string   `json:"k"`           // file, dir, link, limit (setup); create, mk, scan, delete
	A string   `json:"a,omitempty"` // path
	B string   `json:"b,omitempty"` // link target
	L []string `json:"l,omitempty"` // create: directories
	N int      `json:"n,omitempty"`
	W int64    `json:"w,omitempty"`
	R int      `json:"r,omitempty"`
}

type dirWorld struct {
	disk *xos.FS
	// what each running task may change
	create map[*sim.Task][]string
	remove map[*sim.Task]string
	crash  bool
}

// Dirs runs a workload. Creations share the tree /work/new, every client scans
// the still tree /work/still, and deletes only below its own directory.
func Dirs(ops []Dr) {
	disk := xos.Disk()
	h := newHost(disk)
	w := &dirWorld{disk: disk, create: map[*sim.Task][]string{}, remove: map[*sim.Task]string{}}
	disk.Mkdir("/work/new")
	disk.Mkdir("/work/still")
	var rest []Dr
	horizon := int64(0)
	for _, o := range ops {
		switch o.K {
		case "file":
			disk.Put(o.A, data(o.A, o.N))
		case "dir":
			disk.Mkdir(disk.Abs(o.A))
		case "link":
			if disk.LExists(o.A) == "" {
				disk.Symlink(o.B, o.A)
			}
		case "limit":
			disk.MaxOpen = o.N
		default:
			rest = append(rest, o)
			horizon += o.W * int64(1+o.R)
		}
	}
	before := disk.Tree("/")
	within := func(p, d string) bool { return p == d || strings.HasPrefix(p, d+"/") || d == "/" }
	disk.Watch = func(m xos.Mut) {
		me := sim.Cur()
		if ds, ok := w.create[me]; ok {
			for _, d := range ds {
				for p := disk.Abs(d); m.Op == "mkdir" && p != "/"; p = path.Dir(p) {
					if disk.Real(p) == m.Path {
						return
					}
				}
			}
			sim.Fail("create-more", "creating %q changed %s (%s)", ds, m.Path, m.Op)
		}
		if d, ok := w.remove[me]; ok {
			if !within(m.Path, d) {
				sim.Fail("delete-more", "deleting %q changed %s (%s)", d, m.Path, m.Op)
			}
			return
		}
		sim.Fail("change", "%s changed %s although nothing was to be changed", m.Op, m.Path)
	}
	ids, by := actors(rest, func(o Dr) int { return o.T })
	var ts []*sim.Task
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				for k := 0; k <= o.R; k++ {
					if o.W > 0 {
						sim.Sleep(o.W)
					}
					ok := false
					h.call(o.K, func() { ok = w.step(o) })
					if ok {
						break
					}
				}
			}
		}))
	}
	finish("a directory call", horizon, ts...)
	// what nobody was to delete is as it was
	var all []string
	for p := range before {
		all = append(all, p)
	}
	sort.Strings(all)
	after := disk.Tree("/")
	for _, p := range all {
		if !strings.HasPrefix(p, "/work/own") && after[p] != before[p] {
			sim.Fail("changed", "%s is not what it was", p)
		}
	}
}

func (w *dirWorld) step(o Dr) bool {
	disk := w.disk
	n0 := len(disk.Injected)
	quiet := func() bool { return !injected(disk, n0) && disk.MaxOpen == 0 }
	switch o.K {
	case "create", "mk":
		list := o.L
		var err error
		blocked := ""
		for _, d := range list {
			for p := disk.Abs(d); p != "/"; p = path.Dir(p) {
				if k := disk.Exists(p); k == "file" || k == "" && disk.LExists(p) == "link" {
					blocked = p
				}
			}
		}
		w.create[sim.Cur()] = list
		if o.K == "create" {
			err = utils.CreateDir(list...)
		} else {
			list = list[:1]
			err = utils.MkDir(list[0])
		}
		delete(w.create, sim.Cur())
		sim.Tracef("create %q: %s", list, errText(err))
		if err == nil {
			sim.Probe("created")
			for _, d := range list {
				if disk.Exists(d) != "dir" {
					sim.Fail("create", "creating %q reported success, but there is no directory %s", list, d)
				}
			}
		} else if blocked == "" && quiet() {
			sim.Fail("create-refused", "creating %q reports an error although nothing failed: %v", list, err)
		}
		return err == nil
	case "scan":
		kind := disk.Exists(o.A)
		var want []string
		for p, c := range disk.Tree(o.A) {
			if c != "d" {
				want = append(want, disk.Abs(p))
			}
		}
		sort.Strings(want)
		got, err := utils.ScanDir(o.A)
		sim.Tracef("scan of %s: %d files, %s", o.A, len(got), errText(err))
		if err != nil {
			if kind == "dir" && quiet() {
				sim.Fail("scan-refused", "scanning %s reports an error although nothing failed: %v", o.A, err)
			}
			if len(got) != 0 {
				sim.Fail("scan-both", "scanning %s reports an error and %d files", o.A, len(got))
			}
			return false
		}
		sim.Probe("scanned")
		if kind != "dir" {
			sim.Fail("scan", "scanning %s, which is no directory, reported success", o.A)
		}
		var abs []string
		for _, p := range got {
			abs = append(abs, disk.Abs(p))
		}
		sort.Strings(abs)
		if strings.Join(abs, "\n") != strings.Join(want, "\n") {
			sim.Fail("scan", "scanning %s reported success with %q instead of %q", o.A, abs, want)
		}
		return true
	case "delete":
		p := disk.Abs(o.A)
		w.remove[sim.Cur()] = p
		err := utils.DeLFile(o.A)
		delete(w.remove, sim.Cur())
		sim.Tracef("delete of %s: %s", o.A, errText(err))
		if err == nil {
			sim.Probe("deleted")
			if k := disk.LExists(o.A); k != "" {
				sim.Fail("delete", "deleting %s reported success, but it is still there (%s)", o.A, k)
			}
		} else if quiet() && disk.LExists(path.Dir(p)) == "dir" {
			sim.Fail("delete-refused", "deleting %s reports an error although nothing failed: %v", o.A, err)
		}
		return err == nil
	}
	return true
}

// GenDirs makes a workload.
func GenDirs(g *run.G, c *sim.Config) []Dr {
	ioFaults(g, c, "open,stat,mkdir,readdir,remove,rename,chmod,close", true)
	var ops []Dr
	// the tree to scan
	dirs := []string{"still"}
	for k := g.Range(0, 4); k > 0; k-- {
		d := dirs[g.Intn(len(dirs))] + "/" + odd(g, 0.1, run.Pick(g, "a", "b", "c d", "目录", ".hid"))
		dirs = append(dirs, d)
		ops = append(ops, Dr{T: -1, K: "dir", A: d})
	}
	for k := g.Range(0, 6); k > 0; k-- {
		ops = append(ops, Dr{T: -1, K: "file", A: dirs[g.Intn(len(dirs))] + "/" + odd(g, 0.2, run.Pick(g, "f1", "f2", ".dot", "x y", "a.txt")), N: g.Intn(9)})
	}
	if g.P(0.3) {
		ops = append(ops, Dr{T: -1, K: "link", A: dirs[g.Intn(len(dirs))] + "/l", B: run.Pick(g, "..", "f1", "nowhere", "/work/still", "/etc")})
	}
	ops = append(ops, Dr{T: -1, K: "file", A: "/etc/keep", N: 3}, Dr{T: -1, K: "file", A: "keep/me", N: 3})
	if g.P(0.3) {
		ops = append(ops, Dr{T: -1, K: "file", A: "new/file", N: 3})
	}
	if g.P(0.15) {
		ops = append(ops, Dr{T: -1, K: "link", A: "new/ln", B: run.Pick(g, "real", "/work/keep", "nowhere")}, Dr{T: -1, K: "dir", A: "new/real"})
	}
	if g.P(0.1) {
		ops = append(ops, Dr{T: -1, K: "limit", N: g.Range(1, 3)})
	}
	clients := g.Range(1, 4)
	for t := 1; t <= clients; t++ {
		own := fmt.Sprint("own", t)
		if g.P(0.2) {
			own = "own1"
		}
		for k := g.Range(0, 5); k > 0; k-- {
			d := own + run.Pick(g, "/x", "/x/y", "/x/y/z", "/w")
			if g.P(0.6) {
				ops = append(ops, Dr{T: -1, K: "file", A: d + "/" + run.Pick(g, "f1", "f2"), N: g.Intn(9)})
			} else if g.P(0.5) {
				ops = append(ops, Dr{T: -1, K: "dir", A: d})
			} else {
				ops = append(ops, Dr{T: -1, K: "link", A: d + "/out", B: run.Pick(g, "/work/keep", "../../../keep", "/etc/keep", "..")})
			}
		}
		// names that differ in what a careless clean-up takes away
		var alike []string
		if g.P(0.3) {
			for k := g.Range(1, 4); k > 0; k-- {
				n := own + "/" + odd(g, 0.7, run.Pick(g, "v1", "v1", "v2", "x"))
				alike = append(alike, n)
				ops = append(ops, Dr{T: -1, K: "file", A: n + run.Pick(g, "", "", "/in"), N: g.Intn(9)})
			}
		}
		for k := g.Range(1, 4); k > 0; k-- {
			o := Dr{T: t, K: run.Pick(g, "create", "create", "mk", "scan", "delete"), W: pause(g), R: g.Intn(3)}
			switch o.K {
			case "create", "mk":
				for j := g.Range(1, 3); j > 0; j-- {
					d := run.Pick(g, "new/a", "new/a/b", "new/a/b/c", "./new/d/e", "/work/new/a/f", "new/a/b/", "new/./h", "new/"+odd(g, 1, "o"), "new/"+odd(g, 1, "a")+"/q")
					if g.P(0.08) {
						d = run.Pick(g, "new/file", "new/file/x", "new/ln", "new/ln/x", "keep/me")
					}
					o.L = append(o.L, d)
				}
			case "scan":
				o.A = run.Pick(g, "still", "./still", "/work/still", "still/")
				if g.P(0.2) {
					o.A = dirs[g.Intn(len(dirs))]
				}
				if g.P(0.05) {
					o.A = run.Pick(g, "absent", "keep/me")
				}
			case "delete":
				o.A = own + run.Pick(g, "", "", "/x", "/x/y", "/w", "/x/f1", "/x/y/out", "/absent", "/w/out")
				if alike != nil && g.P(0.6) {
					o.A = alike[g.Intn(len(alike))] + run.Pick(g, "", "", "/in")
					if g.P(0.1) {
						o.A = own + "/" + odd(g, 0.9, "v1")
					}
				}
			}
			ops = append(ops, o)
		}
	}
	return ops
}

// Ex is one step of an existence workload.
type Ex struct {
	T int    `json:"t"`           // client; -1: setup
	K string `json:"k"`           // file, dir, link (setup); touch, rm, mkdir, rmdir; ask
	A string `json:"a,omitempty"` // path
	B string `json:"b,omitempty"` // link target
	F string `json:"f,omitempty"` // which check
	W int64  `json:"w,omitempty"`
}

// kinds seen at a path over a time
type seen map[string]bool

// Exists runs a workload.
func Exists(ops []Ex) {
	disk := xos.Disk()
	disk.Mkdir("/work/d")
	var rest []Ex
	horizon := int64(0)
	for _, o := range ops {
		switch o.K {
		case "file":
			disk.Put(o.A, data(o.A, 5))
		case "dir":
			disk.Mkdir(disk.Abs(o.A))
		case "link":
			if disk.LExists(o.A) == "" {
				disk.Symlink(o.B, o.A)
			}
		default:
			rest = append(rest, o)
			horizon += o.W
		}
	}
	// what every running question could have seen: the kind with links followed and not
	type question struct {
		path string
		kind seen
		link seen
	}
	asked := map[*sim.Task]*question{}
	look := func(q *question) {
		q.kind[disk.Exists(q.path)] = true
		q.link[disk.LExists(q.path)] = true
	}
	disk.Watch = func(m xos.Mut) {
		for _, q := range asked {
			look(q)
		}
	}
	ids, by := actors(rest, func(o Ex) int { return o.T })
	var ts []*sim.Task
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				if o.W > 0 {
					sim.Sleep(o.W)
				}
				switch o.K {
				case "touch":
					if f, err := xos.Create(o.A); err == nil {
						f.Close()
					}
				case "mkdir":
					xos.Mkdir(o.A, 0o755)
				case "rm":
					xos.Remove(o.A)
				case "ask":
					q := &question{o.A, seen{}, seen{}}
					look(q)
					asked[sim.Cur()] = q
					n0 := len(disk.Injected)
					var yes bool
					var err error
					switch o.F {
					case "PathExists":
						yes, err = utils.PathExists(o.A)
					case "FileExist":
						yes = utils.FileExist(o.A)
					case "FileIsExisted":
						yes = utils.FileIsExisted(o.A)
					case "IsDir":
						yes = utils.IsDir(o.A)
					case "IsFile":
						yes = utils.IsFile(o.A)
					}
					delete(asked, sim.Cur())
					hit := injected(disk, n0)
					sim.Tracef("%s(%s): %v, %s", o.F, o.A, yes, errText(err))
					if hit {
						sim.Probe("asked under fault")
					}
					bad := false
					switch o.F {
					case "PathExists":
						// directory: true; file: an error; nothing: false
						switch {
						case yes:
							bad = !q.kind["dir"] || err != nil
						case err == nil:
							bad = !q.kind[""]
						default:
							bad = !hit && !q.kind["file"]
						}
					case "FileExist":
						// a name that is no directory, links not followed
						if yes {
							bad = !hit && !q.link["file"] && !q.link["link"]
						} else {
							bad = !q.link[""] && !q.link["dir"]
						}
					case "FileIsExisted":
						if yes {
							bad = !hit && !q.kind["file"] && !q.kind["dir"]
						} else {
							bad = !q.kind[""]
						}
					case "IsDir":
						bad = !hit && (yes && !q.kind["dir"] || !yes && !q.kind["file"] && !q.kind[""])
					case "IsFile":
						bad = !hit && (yes && !q.kind["file"] && !q.kind[""] || !yes && !q.kind["dir"])
					}
					if bad {
						var ks []string
						for k := range q.kind {
							ks = append(ks, map[string]string{"": "nothing"}[k]+k)
						}
						sort.Strings(ks)
						sim.Fail("exists", "%s(%q) answers %v, %s, but there was %v all the time (fault in the call: %v)", o.F, o.A, yes, errText(err), ks, hit)
					}
				}
			}
		}))
	}
	finish("an existence check", horizon, ts...)
}

// GenExists makes a workload.
func GenExists(g *run.G, c *sim.Config) []Ex {
	ioFaults(g, c, "stat,open,readdir", false)
	if c.Faults != "" && g.P(0.5) {
		c.FaultP = 0.3
	}
	var ops []Ex
	paths := []string{"a", "b.txt", "d/c", "d", "absent/x/y", "l", "dl", "d/l2", "/work/a", "./b.txt", "d/"}
	for _, p := range []string{"a", "b.txt", "d/c"} {
		if g.P(0.6) {
			ops = append(ops, Ex{T: -1, K: run.Pick(g, "file", "file", "dir"), A: p})
		}
	}
	ops = append(ops, Ex{T: -1, K: "link", A: "l", B: run.Pick(g, "a", "d", "nowhere", "dl")}, Ex{T: -1, K: "link", A: "dl", B: "nowhere"}, Ex{T: -1, K: "link", A: "d/l2", B: "../a"})
	clients := g.Range(1, 4)
	for t := 1; t <= clients; t++ {
		for k := g.Range(1, 5); k > 0; k-- {
			o := Ex{T: t, K: "ask", F: run.Pick(g, "PathExists", "FileExist", "FileIsExisted", "IsDir", "IsFile"), A: paths[g.Intn(len(paths))], W: pause(g)}
			if g.P(0.25) {
				o = Ex{T: t, K: run.Pick(g, "touch", "mkdir", "rm", "rm"), A: run.Pick(g, "a", "b.txt", "d/c"), W: pause(g)}
			}
			ops = append(ops, o)
		}
	}
	return ops
}
