package files

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"

	"dst/run"
	"dst/sim"
	"dst/x/xos"

	"github.com/ahKevinXy/go-web-tools/help/utils"
)

// Zp is one step of a zip workload.
type Zp struct {
	T int      `json:"t"`           // client; -1: setup
	K string   `json:"k"`           // file, bare, dir, entry, damage, cut, limit, space (setup); pack, unpack
	A string   `json:"a,omitempty"` // path; entry: name; unpack: destination
	Z int      `json:"z,omitempty"` // which archive
	N int      `json:"n,omitempty"` // size, position
	V int      `json:"v,omitempty"` // damage: what to flip; entry: 1 stored, 2 symbolic link
	L []string `json:"l,omitempty"` // pack: files
	O string   `json:"o,omitempty"` // pack: part of the name to replace
	P string   `json:"p,omitempty"` // pack: by what
	W int64    `json:"w,omitempty"`
	R int      `json:"r,omitempty"`
}

// ZipChecks says what is judged.
type ZipChecks struct{ Faithful, Confined bool }

type zentry struct {
	name string
	dir  bool
	data []byte
}

// unzipRef reads an archive's entries.
func unzipRef(b []byte) (out []zentry, err error) {
	r, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	for _, f := range r.File {
		e := zentry{name: f.Name, dir: f.FileInfo().IsDir()}
		if !e.dir {
			rc, err := f.Open()
			if err != nil {
				return nil, err
			}
			if e.data, err = io.ReadAll(io.LimitReader(rc, 1<<27)); err != nil {
				return nil, err
			}
		}
		out = append(out, e)
	}
	return out, nil
}

// enough descriptors for three clients, each with an archive and what it is copying.
const enough = 24

func archive(z int) string { return fmt.Sprintf("arc%d.zip", z) }

// outside says whether a name leads out of the directory it is joined to.
func outside(dest, name string) bool {
	rel, err := filepath.Rel(dest, filepath.Join(dest, name))
	return err != nil || rel == ".." || strings.HasPrefix(rel, "../")
}

// Zip returns the body of a workload.
func Zip(c ZipChecks) func(ops []Zp) {
	return func(ops []Zp) { zipRun(c, ops) }
}

func zipRun(c ZipChecks, ops []Zp) {
	disk := xos.Disk()
	var rest []Zp
	horizon := int64(0)
	entries := map[int][]Zp{}
	var zs []int
	for _, o := range ops {
		switch o.K {
		case "entry":
			if entries[o.Z] == nil {
				zs = append(zs, o.Z)
			}
			entries[o.Z] = append(entries[o.Z], o)
		case "file":
			disk.Put(o.A, data(o.A, o.N))
		case "bare":
			disk.Sizeless(o.A)
		case "dir":
			disk.Mkdir(disk.Abs(o.A))
		case "limit":
			disk.MaxOpen = o.N
		case "pack", "unpack":
			rest = append(rest, o)
			horizon += o.W * int64(1+o.R)
		}
	}
	for _, z := range zs {
		var b bytes.Buffer
		w := zip.NewWriter(&b)
		for i, e := range entries[z] {
			h := &zip.FileHeader{Name: e.A, Method: zip.Deflate}
			if e.V&1 != 0 {
				h.Method = zip.Store
			}
			body := data(fmt.Sprint(e.A, i), e.N)
			if e.V&2 != 0 {
				h.SetMode(fs.ModeSymlink | 0777)
				body = []byte(e.O)
			}
			if strings.HasSuffix(e.A, "/") {
				h.Method = zip.Store
			}
			f, err := w.CreateHeader(h)
			if err == nil && !strings.HasSuffix(e.A, "/") {
				_, err = f.Write(body)
			}
			if err != nil {
				panic(err)
			}
		}
		if err := w.Close(); err != nil {
			panic(err)
		}
		disk.Put(archive(z), b.Bytes())
	}
	damaged := map[int]bool{}
	for _, o := range ops {
		b, ok := disk.Get(archive(o.Z))
		if o.K == "damage" || o.K == "cut" {
			damaged[o.Z] = true
		}
		switch o.K {
		case "damage":
			if ok && len(b) > 0 {
				b[o.N%len(b)] ^= byte(o.V)
				disk.Put(archive(o.Z), b)
			}
		case "cut":
			if ok && len(b) > 0 {
				disk.Put(archive(o.Z), b[:o.N%len(b)])
			}
		case "space":
			disk.Capacity = disk.Used() + int64(o.N)
		}
	}
	// every name an archive may hold, before and after the damage
	names := map[int]map[string]bool{}
	for _, z := range zs {
		names[z] = map[string]bool{}
		for _, e := range entries[z] {
			names[z][e.A] = true
		}
		b, _ := disk.Get(archive(z))
		if r, err := zip.NewReader(bytes.NewReader(b), int64(len(b))); err == nil {
			for _, f := range r.File {
				names[z][f.Name] = true
			}
		}
	}
	before := map[string][]byte{}
	for _, o := range ops {
		if o.K == "file" {
			if b, ok := disk.Get(o.A); ok {
				before[o.A] = b
			}
		}
	}
	dest := map[*sim.Task]string{}
	disk.Watch = func(m xos.Mut) {
		d, ok := dest[sim.Cur()]
		if !ok || !c.Confined {
			return
		}
		d = disk.Abs(d)
		in := d == "/" || m.Path == d || strings.HasPrefix(m.Path, d+"/")
		if !in && !(m.Op == "mkdir" && strings.HasPrefix(d+"/", m.Path+"/")) {
			sim.Fail("escape", "extracting to %s changed %s (%s)", d, m.Path, m.Op)
		}
	}
	ids, by := actors(rest, func(o Zp) int { return o.T })
	var ts []*sim.Task
	for _, id := range ids {
		list := by[id]
		ts = append(ts, sim.GoNamed(fmt.Sprint("client", id), func() {
			for _, o := range list {
				for k := 0; k <= o.R; k++ {
					if o.W > 0 {
						sim.Sleep(o.W)
					}
					ok := false
					if o.K == "pack" {
						ok = pack(c, disk, o)
					} else {
						dest[sim.Cur()] = o.A
						ok = unpack(c, disk, o, damaged[o.Z])
						delete(dest, sim.Cur())
					}
					if ok {
						break
					}
				}
			}
		}))
	}
	mine := map[string]bool{}
	for _, o := range rest {
		if o.K == "pack" {
			mine[disk.Abs(made(o))] = true
			continue
		}
		for n := range names[o.Z] {
			mine[disk.Abs(filepath.Join(o.A, n))] = true
		}
	}
	finish("a zip operation", horizon, ts...)
	for _, o := range ops {
		if o.K != "file" || !c.Faithful || mine[disk.Abs(o.A)] {
			continue
		}
		want, ok := before[o.A]
		if got, is := disk.Get(o.A); ok && !same(got, is, want) {
			sim.Fail("bystander", "%s, which no archive names, holds %s after the extractions: %s", o.A, brief(got, is), differ(got, want))
		}
	}
}

func made(o Zp) string { return fmt.Sprintf("new%d_%d.zip", o.T, o.Z) }

func pack(c ZipChecks, disk *xos.FS, o Zp) bool {
	n0 := len(disk.Injected)
	name := made(o)
	err := utils.ZipFiles(name, o.L, o.O, o.P)
	sim.Tracef("pack %s: %s", name, errText(err))
	missing := ""
	for _, f := range o.L {
		if _, ok := disk.Get(f); !ok {
			missing = f
		}
	}
	if err != nil {
		if c.Faithful && missing == "" && !injected(disk, n0) && disk.Capacity == 0 && (disk.MaxOpen == 0 || disk.MaxOpen >= enough) {
			sim.Fail("pack-refused", "packing %q reports an error although nothing failed: %v", o.L, err)
		}
		return false
	}
	if !c.Faithful {
		return true
	}
	sim.Probe("packed")
	if missing != "" {
		sim.Fail("pack-missing", "packing reported success although %q cannot be packed", missing)
	}
	b, ok := disk.Get(name)
	if !ok {
		sim.Fail("pack", "packing reported success, but there is no archive")
	}
	got, err := unzipRef(b)
	if err != nil {
		sim.Fail("pack", "packing reported success, but the archive (%d bytes) cannot be read: %v", len(b), err)
	}
	if len(got) != len(o.L) {
		sim.Fail("pack", "packing %d files reported success, but the archive holds %d entries", len(o.L), len(got))
	}
	left := append([]string(nil), o.L...)
next:
	for _, e := range got {
		for i, f := range left {
			want, _ := disk.Get(f)
			if strings.Replace(f, o.O, o.P, -1) == e.name && bytes.Equal(want, e.data) && !e.dir {
				left = append(left[:i], left[i+1:]...)
				continue next
			}
		}
		sim.Fail("pack", "packing %q (%q replaced by %q) reported success, but the archive's entry %q with %s is none of the files", o.L, o.O, o.P, e.name, brief(e.data, true))
	}
	return true
}

func unpack(c ZipChecks, disk *xos.FS, o Zp, damaged bool) bool {
	n0 := len(disk.Injected)
	b, ok := disk.Get(archive(o.Z))
	want, bad := unzipRef(b)
	if !ok {
		bad = fs.ErrNotExist
	}
	escapes := ""
	if b != nil {
		if r, err := zip.NewReader(bytes.NewReader(b), int64(len(b))); err == nil {
			for _, f := range r.File {
				if outside(o.A, f.Name) {
					escapes = f.Name
				}
			}
		}
	}
	paths, err := utils.Unzip(archive(o.Z), o.A)
	sim.Tracef("unpack %s to %s: %d paths, %s", archive(o.Z), o.A, len(paths), errText(err))
	if err != nil {
		sim.Probe("unpack-error")
	} else {
		sim.Probe("unpacked")
	}
	if c.Confined && err == nil && escapes != "" {
		sim.Fail("escape-accepted", "extracting to %q an archive with the entry %q reported success", o.A, escapes)
	}
	if !c.Faithful {
		return err == nil
	}
	// what has to be there in the end; two entries can exclude each other
	conflict := ""
	files := map[string][]byte{}
	dirs := map[string]bool{}
	var list []string
	up := func(p string) {
		for ; p != "." && p != "/"; p = filepath.Dir(p) {
			dirs[p] = true
		}
	}
	for _, e := range want {
		p := filepath.Join(o.A, e.name)
		list = append(list, p)
		a := disk.Abs(p)
		if e.dir {
			up(a)
		} else {
			files[a] = e.data
			up(filepath.Dir(a))
		}
	}
	for _, p := range sim.Keys(dirs) {
		if _, is := files[p]; is || disk.Exists(p) == "file" {
			conflict = p
		}
	}
	for _, p := range sim.Keys(files) {
		if disk.Exists(p) == "dir" {
			conflict = p
		}
	}
	if err != nil {
		if bad == nil && !damaged && conflict == "" && escapes == "" && !injected(disk, n0) && disk.Capacity == 0 && (disk.MaxOpen == 0 || disk.MaxOpen >= enough) {
			sim.Fail("unpack-refused", "extracting a sound archive reports an error although nothing failed: %v", err)
		}
		return false
	}
	if bad != nil {
		sim.Fail("unpack-bad", "extracting an archive that cannot be read (%v) reported success", bad)
	}
	if conflict != "" {
		sim.Fail("unpack", "extracting reported success, but %s is both a file and a directory of the archive", conflict)
	}
	var all []string
	for p := range files {
		all = append(all, p)
	}
	sort.Strings(all)
	for _, p := range all {
		if got, is := disk.Get(p); !same(got, is, files[p]) {
			sim.Fail("unpack", "extracting reported success, but %s holds %s: %s", p, brief(got, is), differ(got, files[p]))
		}
	}
	all = all[:0]
	for p := range dirs {
		all = append(all, p)
	}
	sort.Strings(all)
	for _, p := range all {
		if disk.Exists(p) != "dir" {
			sim.Fail("unpack", "extracting reported success, but there is no directory %s", p)
		}
	}
	got := append([]string(nil), paths...)
	sort.Strings(got)
	sort.Strings(list)
	if strings.Join(got, "\n") != strings.Join(list, "\n") {
		sim.Fail("paths", "extracting reported the paths %q, not %q", got, list)
	}
	return true
}

// GenZip makes a workload of packing and faithful archives.
func GenZip(g *run.G, c *sim.Config) []Zp {
	ioFaults(g, c, allFaults, false)
	var ops []Zp
	src := []string{"src/a.txt", "src/b/c.bin", "src/src.txt", "z", "src/b/文.txt"}
	for _, f := range src {
		ops = append(ops, Zp{T: -1, K: "file", A: f, N: size(g)})
	}
	if g.P(0.03) {
		ops = append(ops, Zp{T: -1, K: "bare", A: src[g.Intn(len(src))]})
	}
	if g.P(0.1) {
		ops = append(ops, Zp{T: -1, K: "limit", N: g.Range(2, 6)})
	}
	many := 0
	if g.P(0.02) {
		many = run.Pick(g, 30, 60, 130)
		ops = append(ops, Zp{T: -1, K: "limit", N: enough})
	}
	names := []string{"a.txt", "d/b.txt", "d/", "d/e/", "d/e/f", "top", "deep/x/y/z", "empty", "/abs/x"}
	if g.P(0.15) { // dots that lead nowhere
		names = append(names, "v1..2", "..d/x", ".../", "a...txt", "..", "d/../up", "d/..e/f", ".hid/..")
	}
	nz := 0
	mk := func() int {
		z := nz
		nz++
		k := g.Range(1, 5)
		if many > 0 && g.P(0.5) {
			k = g.Range(5, many)
		}
		for ; k > 0; k-- {
			n := names[g.Intn(len(names))]
			if k > 5 {
				n = run.Pick(g, "m", "d/m", "e/m/") + fmt.Sprint(k)
			}
			if g.P(0.03) {
				n = run.Pick(g, "d", "top/", "d/e", "a.txt/x")
			}
			e := Zp{T: -1, K: "entry", Z: z, A: n, V: g.Intn(2)}
			if k > 5 {
				e.N = g.Intn(3)
			} else if !strings.HasSuffix(n, "/") && n != "empty" {
				e.N = size(g)
			}
			ops = append(ops, e)
		}
		if g.P(0.2) {
			for k := g.Range(1, 3); k > 0; k-- {
				ops = append(ops, Zp{T: -1, K: "damage", Z: z, N: g.Intn(100000), V: 1 << g.Intn(8)})
			}
		} else if g.P(0.05) {
			ops = append(ops, Zp{T: -1, K: "cut", Z: z, N: g.Intn(100000)})
		}
		return z
	}
	clients := g.Range(1, 3)
	for t := 1; t <= clients; t++ {
		for k := g.Range(1, 3); k > 0; k-- {
			if g.P(0.5) {
				o := Zp{T: t, K: "pack", Z: g.Intn(2), W: pause(g), R: g.Intn(3)}
				j := g.Intn(5)
				if many > 0 && g.P(0.5) {
					j = g.Range(5, many)
				}
				for ; j > 0; j-- {
					o.L = append(o.L, src[g.Intn(len(src))])
				}
				if g.P(0.03) {
					o.L = append(o.L, run.Pick(g, "src", "absent"))
				}
				if g.P(0.7) {
					o.O, o.P = run.Pick(g, "src/", "src", "b", "."), run.Pick(g, "", "out/", "s")
				}
				ops = append(ops, o)
			} else {
				z := 0
				if nz == 0 || g.P(0.6) {
					z = mk()
				} else {
					z = g.Intn(nz)
				}
				d := run.Pick(g, "out", "./out/", "/work/out", "deep/er/out") + fmt.Sprint(t)
				if clients == 1 && g.P(0.1) {
					d = run.Pick(g, ".", "/", "./", "../work", "/work/")
				} else if g.P(0.1) {
					d = run.Pick(g, "out..", "./src/../out", "../work/out", "..out", ".//out") + fmt.Sprint(t)
				}
				if g.P(0.3) {
					ops = append(ops, Zp{T: -1, K: "file", A: d + "/" + run.Pick(g, "a.txt", "d/b.txt", "top", "deep/x/y/z"), N: size(g) + size(g)})
				}
				if g.P(0.3) {
					ops = append(ops, Zp{T: -1, K: "file", A: d + "/" + run.Pick(g, "other", "d/other", "d/e/other", "deep/x/other", "m1/other"), N: size(g)})
				}
				if g.P(0.03) {
					ops = append(ops, Zp{T: -1, K: "file", A: d + "/" + run.Pick(g, "d", "deep/x"), N: 3})
				}
				ops = append(ops, Zp{T: t, K: "unpack", Z: z, A: d, W: pause(g), R: g.Intn(3)})
			}
		}
	}
	if g.P(0.2) {
		ops = append(ops, Zp{T: -1, K: "space", N: size(g) + size(g)})
	}
	return ops
}

// GenHostile makes a workload of hostile archives.
func GenHostile(g *run.G, c *sim.Config) []Zp {
	ioFaults(g, c, allFaults, false)
	var ops []Zp
	for _, f := range []string{"keep", "outer/x", "out1x/keep", "/etc/passwd", "/tmp/t"} {
		ops = append(ops, Zp{T: -1, K: "file", A: f, N: 9})
	}
	part := []string{"..", "..", "..", ".", "a", "b", "", "etc", "passwd", "outer", "x", "out1x", "work", "..\\", "... ", "..."}
	clients := g.Range(1, 2)
	z := 0
	for t := 1; t <= clients; t++ {
		for k := g.Range(1, 2); k > 0; k-- {
			n := g.Range(1, 4)
			for i := 0; i < n; i++ {
				var name string
				switch g.Weighted(4, 3, 1) {
				case 0:
					name = run.Pick(g, "a", "a/b", "a/", "b/c/d", "x", "a/b/", "link/x", "link")
				case 1:
					var ps []string
					for j := g.Range(1, 4); j > 0; j-- {
						ps = append(ps, part[g.Intn(len(part))])
					}
					name = strings.Join(ps, "/")
					if g.P(0.3) {
						name += "/"
					}
					if g.P(0.15) {
						name = "/" + name
					}
				case 2:
					name = run.Pick(g, "../out1x/evil", "../outer/evil", "../keep", "../../etc/passwd", "/etc/passwd", "a/../../keep", "..", "../", "../out1/ok")
				}
				e := Zp{T: -1, K: "entry", Z: z, A: name, V: g.Intn(2)}
				if !strings.HasSuffix(name, "/") {
					e.N = g.Range(0, 40)
				}
				if g.P(0.15) && !strings.HasSuffix(name, "/") {
					e.V |= 2
					e.O = run.Pick(g, "..", "/etc", "../outer", "/etc/passwd", ".")
				}
				ops = append(ops, e)
			}
			if g.P(0.05) {
				ops = append(ops, Zp{T: -1, K: "damage", Z: z, N: g.Intn(100000), V: 1 << g.Intn(8)})
			}
			d := run.Pick(g, "out1", "./out1/", "/work/out1", "../work/out1", "new/er/out1", ".", "", "/work/outer", "../out1", "..")
			if t == 2 {
				d = "out1x/deep"
			}
			ops = append(ops, Zp{T: t, K: "unpack", Z: z, A: d, W: pause(g), R: g.Intn(2)})
			z++
		}
	}
	return ops
}
