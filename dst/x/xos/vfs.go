// Package xos stands in for os: an in-memory file system with fault injection.
package xos

import (
	"dst/sim"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

type inode struct {
	ino      int
	mode     fs.FileMode
	data     []byte
	target   string
	kids     map[string]*inode
	mtime    int64
	nlink    int
	par      *inode
	sizeless bool // states no size, as the files of /proc
}

func (n *inode) dir() bool  { return n.mode.IsDir() }
func (n *inode) link() bool { return n.mode&fs.ModeSymlink != 0 }

// Mut is one change to the file system made by the code under test.
type Mut struct {
	Op   string
	Path string // resolved
	Proc int
}

// Inj is one injected fault.
type Inj struct {
	Op, Path string
	Err      syscall.Errno
	Task     *sim.Task
	Seq      uint64
}

// FS is the state of the disk and of the processes' descriptor tables.
type FS struct {
	root     *inode
	cwd      string
	inoN     int
	Capacity int64
	used     int64
	MaxOpen  int
	open     map[*File]bool
	Muts     []Mut
	Injected []Inj
	Mounts   []string // path prefixes that are separate devices
	harness  int
	// Watch is called after every mutation (no scheduling inside)
	Watch func(m Mut)
	tmpN  int
	Reads int
}

// Disk is the file system of the current run.
func Disk() *FS {
	return sim.Obj[FS]("xos.FS", func() *FS {
		f := &FS{cwd: "/work", open: map[*File]bool{}}
		f.root = f.newNode(fs.ModeDir|0755, nil)
		f.root.par = f.root
		f.Mkdir("/work")
		f.Mkdir("/tmp")
		return f
	})
}

func (f *FS) newNode(mode fs.FileMode, par *inode) *inode {
	f.inoN++
	n := &inode{ino: f.inoN, mode: mode, par: par, nlink: 1, mtime: sim.Wall()}
	if mode.IsDir() {
		n.kids = map[string]*inode{}
	}
	return n
}

// walk resolves a path. It returns the parent directory, the last name and the
// node (nil if the last name does not exist). follow says whether a final
// symbolic link is followed.
func (f *FS) walk(p string, follow bool) (par *inode, name string, n *inode, err syscall.Errno) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(p) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	cur := f.root
	if p[0] != '/' {
		_, _, c, e := f.walk(f.cwd, true)
		if e != 0 || c == nil {
			return nil, "", nil, syscall.ENOENT
		}
		cur = c
	}
	return f.walkFrom(cur, p, follow, 0)
}

func (f *FS) walkFrom(cur *inode, p string, follow bool, depth int) (par *inode, name string, n *inode, err syscall.Errno) {
	if depth > 40 {
		return nil, "", nil, syscall.ELOOP
	}
	mustDir := strings.HasSuffix(p, "/") || strings.HasSuffix(p, "/.") || p == "."
	var parts []string
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			parts = append(parts, c)
		}
	}
	par, name, n = cur.par, "", cur
	if len(parts) == 0 {
		return par, ".", cur, 0
	}
	for i, c := range parts {
		last := i == len(parts)-1
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if !cur.dir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if c == ".." {
			cur = cur.par
			par, name, n = cur.par, "..", cur
			continue
		}
		k := cur.kids[c]
		par, name, n = cur, c, k
		if k == nil {
			if last {
				return par, name, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		if k.link() && (!last || follow || mustDir) {
			base := cur
			if strings.HasPrefix(k.target, "/") {
				base = f.root
			}
			p2, nm, n2, e := f.walkFrom(base, k.target, true, depth+1)
			if e != 0 {
				return nil, "", nil, e
			}
			par, name, n = p2, nm, n2
			if n2 == nil {
				if last {
					return par, name, nil, 0
				}
				return nil, "", nil, syscall.ENOENT
			}
			cur = n2
			continue
		}
		cur = k
	}
	if mustDir && n != nil && !n.dir() {
		return nil, "", nil, syscall.ENOTDIR
	}
	return par, name, n, 0
}

// pathOf is the resolved absolute path of a directory entry.
func (f *FS) pathOf(par *inode, name string) string {
	if par == nil {
		return "?" + name
	}
	if name == "." || name == ".." || name == "" {
		return f.dirPath(par)
	}
	return path.Join(f.dirPath(par), name)
}

func (f *FS) dirPath(d *inode) string {
	if d == f.root {
		return "/"
	}
	var parts []string
	for n := d; n != f.root; n = n.par {
		nm := ""
		for k, v := range n.par.kids {
			if v == n {
				nm = k
				break
			}
		}
		if nm == "" {
			parts = append(parts, "(deleted)")
			break
		}
		parts = append(parts, nm)
	}
	var b strings.Builder
	for i := len(parts) - 1; i >= 0; i-- {
		b.WriteString("/" + parts[i])
	}
	return b.String()
}

func (f *FS) mut(op, p string) {
	if f.harness > 0 {
		return
	}
	m := Mut{op, p, sim.Proc()}
	f.Muts = append(f.Muts, m)
	sim.Tracef("fs %s %s", op, p)
	if f.Watch != nil {
		f.Watch(m)
	}
}

// ---- harness access: no faults, no scheduling ----

// Mkdir creates a directory and its parents, if no file is in the way.
func (f *FS) Mkdir(p string) bool {
	cur := f.root
	for _, c := range strings.Split(path.Clean("/"+p), "/") {
		if c == "" {
			continue
		}
		k := cur.kids[c]
		if k == nil {
			k = f.newNode(fs.ModeDir|0755, cur)
			cur.kids[c] = k
		}
		if !k.dir() {
			return false
		}
		cur = k
	}
	return true
}

// Put writes a file, if no directory is in the way.
func (f *FS) Put(p string, data []byte) {
	p = f.Abs(p)
	if !f.Mkdir(path.Dir(p)) {
		return
	}
	par, name, n, e := f.walk(p, true)
	if e != 0 || n != nil && n.dir() {
		return
	}
	if n == nil {
		n = f.newNode(0644, par)
		par.kids[name] = n
	}
	f.used += int64(len(data) - len(n.data))
	n.data = append([]byte(nil), data...)
}

// Symlink creates a symbolic link.
func (f *FS) Sizeless(p string) {
	if _, _, n, e := f.walk(p, true); e == 0 && n != nil {
		n.sizeless = true
	}
}

func (f *FS) Symlink(target, p string) {
	p = f.Abs(p)
	if !f.Mkdir(path.Dir(p)) {
		return
	}
	par, name, _, _ := f.walk(p, false)
	n := f.newNode(fs.ModeSymlink|0777, par)
	n.target = target
	par.kids[name] = n
}

// Abs makes a path absolute.
func (f *FS) Abs(p string) string {
	if strings.HasPrefix(p, "/") {
		return path.Clean(p)
	}
	return path.Join(f.cwd, p)
}

// Cwd is the working directory.
func (f *FS) Cwd() string { return f.cwd }

// Get reads a file.
func (f *FS) Get(p string) ([]byte, bool) {
	_, _, n, e := f.walk(p, true)
	if e != 0 || n == nil || n.dir() {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Exists says what is at a path (following links): "", "file" or "dir".
func (f *FS) Exists(p string) string {
	_, _, n, e := f.walk(p, true)
	if e != 0 || n == nil {
		return ""
	}
	if n.dir() {
		return "dir"
	}
	return "file"
}

// LExists is Exists without following a final link ("link" is possible).
func (f *FS) LExists(p string) string {
	_, _, n, e := f.walk(p, false)
	if e != 0 || n == nil {
		return ""
	}
	if n.dir() {
		return "dir"
	}
	if n.link() {
		return "link"
	}
	return "file"
}

// Tree is a snapshot of everything below a directory: path -> "d", "f:content" or "l:target".
func (f *FS) Tree(p string) map[string]string {
	out := map[string]string{}
	_, _, n, e := f.walk(p, true)
	if e == 0 && n != nil {
		f.tree(n, path.Clean(p), out)
	}
	return out
}

func (f *FS) tree(n *inode, p string, out map[string]string) {
	switch {
	case n.dir():
		out[p] = "d"
		for k, v := range n.kids {
			f.tree(v, path.Join(p, k), out)
		}
	case n.link():
		out[p] = "l:" + n.target
	default:
		out[p] = "f:" + string(n.data)
	}
}

// OpenCount is the number of open descriptors.
func (f *FS) OpenCount() int { return len(f.open) }

// CrashProc closes the descriptors of a crashed process group.
func (f *FS) CrashProc(proc int) {
	for h := range f.open {
		if h.proc == proc {
			delete(f.open, h)
		}
	}
}

// Used is the number of bytes stored.
func (f *FS) Used() int64 { return f.used }

// ---- operations ----

var site = sim.Site("os")

// point is a scheduling point of a file system call.
func point() *FS {
	if sim.S == nil {
		panic("xos: used outside a simulation")
	}
	sim.SyncPoint(site)
	return Disk()
}

func (f *FS) fault(kind, p string, errs ...syscall.Errno) syscall.Errno {
	v := sim.Fault(kind, len(errs), kind+" "+p)
	if v == 0 {
		return 0
	}
	e := errs[v-1]
	f.Injected = append(f.Injected, Inj{kind, p, e, sim.Cur(), sim.Seq()})
	return e
}

func perr(op, p string, e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return &fs.PathError{Op: op, Path: p, Err: e}
}

// NInjected counts the faults injected so far that were real failures.
func (f *FS) NInjected() int { return len(f.Injected) }

type fileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	n     *inode
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() fs.FileMode  { return i.mode }
func (i *fileInfo) ModTime() time.Time { return time.Unix(0, i.mtime) }
func (i *fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *fileInfo) Sys() any           { return nil }

func info(name string, n *inode) *fileInfo {
	sz := int64(len(n.data))
	if n.link() {
		sz = int64(len(n.target))
	}
	if n.dir() {
		sz = 4096
	}
	if n.sizeless {
		sz = 0
	}
	return &fileInfo{path.Base(name), sz, n.mode, n.mtime, n}
}

type dirEntry struct {
	dir  string
	name string
	mode fs.FileMode
}

func (d *dirEntry) Name() string      { return d.name }
func (d *dirEntry) IsDir() bool       { return d.mode.IsDir() }
func (d *dirEntry) Type() fs.FileMode { return d.mode.Type() }
func (d *dirEntry) String() string    { return fs.FormatDirEntry(d) }
func (d *dirEntry) Info() (fs.FileInfo, error) {
	return Lstat(d.dir + "/" + d.name)
}

func Stat(p string) (fs.FileInfo, error) { return stat("stat", p, true) }

func Lstat(p string) (fs.FileInfo, error) { return stat("lstat", p, false) }

func stat(op, p string, follow bool) (fs.FileInfo, error) {
	f := point()
	if e := f.fault("stat", p, syscall.EIO, syscall.EACCES, syscall.ENOMEM); e != 0 {
		return nil, perr(op, p, e)
	}
	_, _, n, e := f.walk(p, follow)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return nil, perr(op, p, e)
	}
	return info(p, n), nil
}

func Mkdir(p string, perm fs.FileMode) error {
	f := point()
	if e := f.fault("mkdir", p, syscall.EACCES, syscall.ENOSPC, syscall.EIO, syscall.EROFS); e != 0 {
		return perr("mkdir", p, e)
	}
	par, name, n, e := f.walk(strings.TrimRight(p, "/")+map[bool]string{true: "/", false: ""}[strings.Trim(p, "/") == "" && p != ""], false)
	if e == 0 && n != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return perr("mkdir", p, e)
	}
	if par.nlink == 0 {
		return perr("mkdir", p, syscall.ENOENT)
	}
	par.kids[name] = f.newNode(fs.ModeDir|perm&0777&^022, par)
	par.mtime = sim.Wall()
	f.mut("mkdir", f.pathOf(par, name))
	return nil
}

// MkdirAll follows the real algorithm step by step.
func MkdirAll(p string, perm fs.FileMode) error {
	d, err := Stat(p)
	if err == nil {
		if d.IsDir() {
			return nil
		}
		return &fs.PathError{Op: "mkdir", Path: p, Err: syscall.ENOTDIR}
	}
	i := len(p) - 1
	for i >= 0 && p[i] == '/' {
		i--
	}
	for i >= 0 && p[i] != '/' {
		i--
	}
	if i < 0 {
		i = -1
	}
	if parent := p[:i+1]; len(parent) > 0 && strings.Trim(parent, "/") != "" {
		if err = MkdirAll(strings.TrimRight(parent, "/"), perm); err != nil {
			return err
		}
	}
	err = Mkdir(p, perm)
	if err != nil {
		d, err1 := Lstat(p)
		if err1 == nil && d.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(p string) error {
	f := point()
	if e := f.fault("remove", p, syscall.EBUSY, syscall.EIO, syscall.EACCES); e != 0 {
		return perr("remove", p, e)
	}
	par, name, n, e := f.walk(p, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && n.dir() && len(n.kids) > 0 {
		e = syscall.ENOTEMPTY
	}
	if e == 0 && (name == "." || name == ".." || n == f.root) {
		e = syscall.EINVAL
	}
	if e != 0 {
		return perr("remove", p, e)
	}
	f.unlink(par, name, n)
	f.mut("remove", f.pathOf(par, name))
	return nil
}

func (f *FS) unlink(par *inode, name string, n *inode) {
	delete(par.kids, name)
	par.mtime = sim.Wall()
	n.nlink--
	if n.nlink == 0 && !n.dir() {
		f.used -= int64(len(n.data))
	}
}

func RemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if strings.HasSuffix(p, "/.") || p == "." {
		return perr("RemoveAll", p, syscall.EINVAL)
	}
	err := Remove(p)
	if err == nil || os.IsNotExist(err) {
		return nil
	}
	fi, serr := Lstat(p)
	if serr != nil {
		if os.IsNotExist(serr) {
			return nil
		}
		return err
	}
	if !fi.IsDir() {
		return err
	}
	var first error
	for {
		d, e := Open(p)
		if e != nil {
			if os.IsNotExist(e) {
				return nil
			}
			first = e
			break
		}
		names, e := d.Readdirnames(-1)
		d.Close()
		if e != nil {
			first = e
			break
		}
		if len(names) == 0 {
			break
		}
		first = nil
		for _, n := range names {
			if e := RemoveAll(p + "/" + n); e != nil && first == nil {
				first = e
			}
		}
		if first != nil {
			break
		}
	}
	err = Remove(p)
	if err == nil || os.IsNotExist(err) {
		return nil
	}
	if first != nil {
		return first
	}
	return err
}

func (f *FS) device(p string) int {
	best, dev := -1, 0
	for i, m := range f.Mounts {
		if (p == m || strings.HasPrefix(p, strings.TrimRight(m, "/")+"/")) && len(m) > best {
			best, dev = len(m), i+1
		}
	}
	return dev
}

func Rename(o, n string) error {
	f := point()
	lerr := func(e syscall.Errno) error { return &os.LinkError{Op: "rename", Old: o, New: n, Err: e} }
	if e := f.fault("rename", o+" -> "+n, syscall.EXDEV, syscall.EIO, syscall.EACCES); e != 0 {
		return lerr(e)
	}
	op, on, ox, e := f.walk(strings.TrimRight(o, "/"), false)
	if e != 0 {
		return lerr(e)
	}
	if ox == nil {
		return lerr(syscall.ENOENT)
	}
	np, nn, nx, e := f.walk(strings.TrimRight(n, "/"), false)
	if e != 0 {
		return lerr(e)
	}
	if nx != nil && nx.dir() {
		// the real package refuses to rename onto a directory
		if !(ox == nx) {
			return lerr(syscall.EEXIST)
		}
	}
	if ox == nx {
		return nil
	}
	if on == "." || on == ".." || nn == "." || nn == ".." {
		return lerr(syscall.EBUSY)
	}
	oldP, newP := f.pathOf(op, on), f.pathOf(np, nn)
	if f.device(oldP) != f.device(newP) {
		return lerr(syscall.EXDEV)
	}
	if ox.dir() {
		if nx != nil {
			return lerr(syscall.ENOTDIR)
		}
		for d := np; ; d = d.par {
			if d == ox {
				return lerr(syscall.EINVAL)
			}
			if d == f.root {
				break
			}
		}
	}
	if nx != nil {
		f.unlink(np, nn, nx)
	}
	delete(op.kids, on)
	np.kids[nn] = ox
	ox.par = np
	f.mut("rename-from", oldP)
	f.mut("rename-to", newP)
	return nil
}

func Symlink(target, p string) error {
	f := point()
	lerr := func(e syscall.Errno) error { return &os.LinkError{Op: "symlink", Old: target, New: p, Err: e} }
	if e := f.fault("mkdir", p, syscall.EACCES, syscall.ENOSPC); e != 0 {
		return lerr(e)
	}
	par, name, n, e := f.walk(p, false)
	if e == 0 && n != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return lerr(e)
	}
	k := f.newNode(fs.ModeSymlink|0777, par)
	k.target = target
	par.kids[name] = k
	f.mut("symlink", f.pathOf(par, name))
	return nil
}

func Link(o, n string) error {
	f := point()
	lerr := func(e syscall.Errno) error { return &os.LinkError{Op: "link", Old: o, New: n, Err: e} }
	if e := f.fault("rename", o+" -> "+n, syscall.EXDEV, syscall.EIO, syscall.EACCES); e != 0 {
		return lerr(e)
	}
	_, _, ox, e := f.walk(o, false)
	if e == 0 && ox == nil {
		e = syscall.ENOENT
	}
	if e == 0 && ox.dir() {
		e = syscall.EPERM
	}
	if e != 0 {
		return lerr(e)
	}
	np, nn, nx, e := f.walk(n, false)
	if e == 0 && nx != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return lerr(e)
	}
	if f.device(f.Abs(o)) != f.device(f.pathOf(np, nn)) {
		return lerr(syscall.EXDEV)
	}
	np.kids[nn] = ox
	ox.nlink++
	f.mut("link", f.pathOf(np, nn))
	return nil
}

func Readlink(p string) (string, error) {
	f := point()
	if e := f.fault("stat", p, syscall.EIO, syscall.EACCES); e != 0 {
		return "", perr("readlink", p, e)
	}
	_, _, n, e := f.walk(p, false)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && !n.link() {
		e = syscall.EINVAL
	}
	if e != 0 {
		return "", perr("readlink", p, e)
	}
	return n.target, nil
}

func Chmod(p string, mode fs.FileMode) error {
	f := point()
	if e := f.fault("chmod", p, syscall.EPERM, syscall.EIO); e != 0 {
		return perr("chmod", p, e)
	}
	par, name, n, e := f.walk(p, true)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return perr("chmod", p, e)
	}
	n.mode = n.mode.Type() | mode.Perm()
	f.mut("chmod", f.pathOf(par, name))
	return nil
}

func Chtimes(p string, a, m time.Time) error {
	f := point()
	par, name, n, e := f.walk(p, true)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return perr("chtimes", p, e)
	}
	n.mtime = m.UnixNano()
	f.mut("chtimes", f.pathOf(par, name))
	return nil
}

func Chown(p string, uid, gid int) error  { _, err := Stat(p); return err }
func Lchown(p string, uid, gid int) error { _, err := Lstat(p); return err }

func Truncate(p string, size int64) error {
	f := point()
	if e := f.fault("truncate", p, syscall.EIO, syscall.EACCES); e != 0 {
		return perr("truncate", p, e)
	}
	par, name, n, e := f.walk(p, true)
	switch {
	case e != 0:
	case n == nil:
		e = syscall.ENOENT
	case n.dir():
		e = syscall.EISDIR
	case size < 0:
		e = syscall.EINVAL
	}
	if e != 0 {
		return perr("truncate", p, e)
	}
	f.resize(n, size)
	f.mut("truncate", f.pathOf(par, name))
	return nil
}

func (f *FS) resize(n *inode, size int64) {
	f.used += size - int64(len(n.data))
	if size <= int64(len(n.data)) {
		n.data = n.data[:size:size]
	} else {
		n.data = append(n.data, make([]byte, size-int64(len(n.data)))...)
	}
}

func Getwd() (string, error) {
	f := point()
	if e := f.fault("getwd", ".", syscall.ENOENT, syscall.EACCES); e != 0 {
		return "", os.NewSyscallError("getwd", e)
	}
	return f.cwd, nil
}

func Chdir(p string) error {
	f := point()
	par, name, n, e := f.walk(p, true)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && !n.dir() {
		e = syscall.ENOTDIR
	}
	if e != 0 {
		return perr("chdir", p, e)
	}
	if n == f.root {
		f.cwd = "/"
	} else if name == ".." || name == "." {
		f.cwd = f.dirPath(n)
	} else {
		f.cwd = f.pathOf(par, name)
	}
	return nil
}

func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok && ok2 && x.n == y.n
}

func sortedNames(n *inode) []string {
	out := make([]string, 0, len(n.kids))
	for k := range n.kids {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Real is the resolved path of a directory entry, without following a final link.
func (f *FS) Real(p string) string {
	par, name, _, e := f.walk(p, false)
	if e != 0 {
		return ""
	}
	return f.pathOf(par, name)
}

// OpenNames are the names of the open descriptors.
func (f *FS) OpenNames() []string {
	var out []string
	for h := range f.open {
		out = append(out, h.name)
	}
	sort.Strings(out)
	return out
}
