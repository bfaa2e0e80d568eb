package xos

import (
	"dst/sim"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// File is an open file description.
type File struct {
	fs     *FS
	name   string
	rpath  string
	n      *inode
	flag   int
	off    int64
	closed bool
	proc   int
	fd     int
	names  []string
	namesI int
	listed bool
	// last write through this handle, for losses at close
	wOff, wLen int64
	wOld       []byte
	wrote      bool
	sink       bool
}

func Open(p string) (*File, error)   { return OpenFile(p, os.O_RDONLY, 0) }
func Create(p string) (*File, error) { return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666) }

func OpenFile(p string, flag int, perm fs.FileMode) (*File, error) {
	f := point()
	if e := f.fault("open", p, syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.ENFILE); e != 0 {
		return nil, perr("open", p, e)
	}
	if f.MaxOpen > 0 && len(f.open) >= f.MaxOpen {
		f.Injected = append(f.Injected, Inj{"limit", p, syscall.EMFILE, sim.Cur(), sim.Seq()})
		return nil, perr("open", p, syscall.EMFILE)
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	follow := !(flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0)
	par, name, n, e := f.walk(p, follow)
	if e != 0 {
		return nil, perr("open", p, e)
	}
	rp := f.pathOf(par, name)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", p, syscall.ENOENT)
		}
		if strings.HasSuffix(p, "/") {
			return nil, perr("open", p, syscall.EISDIR)
		}
		if par.nlink == 0 {
			return nil, perr("open", p, syscall.ENOENT)
		}
		n = f.newNode(perm&0777&^022, par)
		par.kids[name] = n
		f.mut("create", rp)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", p, syscall.EEXIST)
		}
		if n.dir() && (acc != os.O_RDONLY || flag&os.O_TRUNC != 0 || flag&os.O_CREATE != 0) {
			return nil, perr("open", p, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && !n.dir() && acc != os.O_RDONLY {
			if len(n.data) > 0 {
				f.used -= int64(len(n.data))
				n.data = nil
			}
			f.mut("truncate", rp)
		}
	}
	h := &File{fs: f, name: p, rpath: rp, n: n, flag: flag, proc: sim.Proc(), fd: len(f.open) + 3}
	f.open[h] = true
	return h, nil
}

func (h *File) check(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return &fs.PathError{Op: op, Path: h.name, Err: os.ErrClosed}
	}
	return nil
}

func (h *File) Name() string { return h.name }
func (h *File) Fd() uintptr  { return uintptr(h.fd) }

func (h *File) Read(b []byte) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	f := point()
	if h.n.dir() {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.flag&(os.O_WRONLY) != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := h.readAt(f, b, h.off)
	h.off += int64(n)
	return n, err
}

func (h *File) readAt(f *FS, b []byte, off int64) (int, error) {
	f.Reads++
	if e := f.fault("read", h.name, syscall.EIO, syscall.ESTALE); e != 0 {
		return 0, perr("read", h.name, e)
	}
	if off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.n.data[off:])
	if p := sim.Param("short"); p > 0 && n > 1 {
		if k := sim.Choose(int(p)+1, "short read"); k > 0 {
			n = 1 + (n-1)*k/(int(p)+1)
		}
	}
	return n, nil
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	f := point()
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: h.name, Err: errors.New("negative offset")}
	}
	if h.n.dir() {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	n := 0
	for len(b) > 0 {
		m, err := h.readAt(f, b, off)
		if err != nil {
			return n, err
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return n, nil
}

func (h *File) Write(b []byte) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	f := point()
	if h.sink {
		return len(b), nil
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if h.flag&os.O_APPEND != 0 {
		h.off = int64(len(h.n.data))
	}
	n, err := h.writeAt(f, b, h.off)
	h.off += int64(n)
	return n, err
}

func (h *File) writeAt(f *FS, b []byte, off int64) (int, error) {
	want := len(b)
	var fail syscall.Errno
	if want > 0 {
		fail = f.fault("write", h.name, syscall.ENOSPC, syscall.EIO, syscall.EDQUOT)
		if fail != 0 {
			// how much got through before the failure
			b = b[:len(b)*sim.Choose(3, "partial write")/3]
		}
	}
	end := off + int64(len(b))
	grow := end - int64(len(h.n.data))
	if grow > 0 && f.Capacity > 0 && f.used+grow > f.Capacity {
		over := f.used + grow - f.Capacity
		if over > int64(len(b)) {
			over = int64(len(b))
		}
		b = b[:int64(len(b))-over]
		end = off + int64(len(b))
		grow = end - int64(len(h.n.data))
		fail = syscall.ENOSPC
		f.Injected = append(f.Injected, Inj{"full", h.name, fail, sim.Cur(), sim.Seq()})
	}
	torn := false
	if want > 0 && fail == 0 && sim.Proc() != 0 {
		// the process may die in the middle of a large write
		if v := sim.Fault("crash-in-write", 3, h.name); v > 0 {
			torn = true
			b = b[:len(b)*(v-1)/3/4096*4096]
			end = off + int64(len(b))
			grow = end - int64(len(h.n.data))
		}
	}
	if len(b) > 0 {
		h.wOld = nil
		if off < int64(len(h.n.data)) {
			h.wOld = append(h.wOld, h.n.data[off:min(end, int64(len(h.n.data)))]...)
		}
		if grow > 0 {
			h.n.data = append(h.n.data, make([]byte, grow)...)
			f.used += grow
		}
		copy(h.n.data[off:], b)
		h.n.mtime = sim.Wall()
		h.wOff, h.wLen, h.wrote = off, int64(len(b)), true
		f.mut("write", h.rpath)
	}
	if torn {
		sim.CrashNow(sim.Proc())
	}
	if fail != 0 {
		return len(b), perr("write", h.name, fail)
	}
	return len(b), nil
}

func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	f := point()
	if h.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "writeat", Path: h.name, Err: errors.New("negative offset")}
	}
	return h.writeAt(f, b, off)
}

func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *File) ReadFrom(r io.Reader) (int64, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(struct{ io.Writer }{h}, r)
}

func (h *File) WriteTo(w io.Writer) (int64, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, struct{ io.Reader }{h})
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	f := point()
	if e := f.fault("seek", h.name, syscall.EIO); e != 0 {
		return 0, perr("seek", h.name, e)
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += h.off
	case io.SeekEnd:
		off += int64(len(h.n.data))
	default:
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = off
	if h.n.dir() && off == 0 {
		h.listed = false
	}
	return off, nil
}

func (h *File) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return &fs.PathError{Op: "close", Path: h.name, Err: os.ErrClosed}
	}
	if sim.Killed() {
		return nil
	}
	f := point()
	h.closed = true
	delete(f.open, h)
	if h.wrote && h.n.nlink > 0 {
		if e := f.fault("close", h.name, syscall.EIO, syscall.ENOSPC, syscall.EDQUOT); e != 0 {
			// written back too late: the last write did not reach the disk
			had := h.wOff + int64(len(h.wOld))
			if h.wOff+h.wLen >= int64(len(h.n.data)) && had <= int64(len(h.n.data)) {
				f.used -= int64(len(h.n.data)) - had
				h.n.data = h.n.data[:had]
			}
			if h.wOff+h.wLen <= int64(len(h.n.data)) {
				clear(h.n.data[h.wOff : h.wOff+h.wLen])
			}
			if h.wOff < int64(len(h.n.data)) {
				copy(h.n.data[h.wOff:], h.wOld)
			}
			return perr("close", h.name, e)
		}
	}
	return nil
}

func (h *File) Stat() (fs.FileInfo, error) {
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	f := point()
	if e := f.fault("stat", h.name, syscall.EIO); e != 0 {
		return nil, perr("stat", h.name, e)
	}
	return info(h.name, h.n), nil
}

func (h *File) Sync() error {
	if err := h.check("sync"); err != nil {
		return err
	}
	f := point()
	if e := f.fault("sync", h.name, syscall.EIO, syscall.ENOSPC); e != 0 {
		return perr("sync", h.name, e)
	}
	h.wrote = false
	return nil
}

func (h *File) Truncate(size int64) error {
	if err := h.check("truncate"); err != nil {
		return err
	}
	f := point()
	if e := f.fault("truncate", h.name, syscall.EIO, syscall.EPERM); e != 0 {
		return perr("truncate", h.name, e)
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 || size < 0 {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	f.resize(h.n, size)
	f.mut("truncate", h.rpath)
	return nil
}

func (h *File) Chmod(m fs.FileMode) error {
	if err := h.check("chmod"); err != nil {
		return err
	}
	f := point()
	if e := f.fault("chmod", h.name, syscall.EPERM, syscall.EIO); e != 0 {
		return perr("chmod", h.name, e)
	}
	h.n.mode = h.n.mode.Type() | m.Perm()
	f.mut("chmod", h.rpath)
	return nil
}

func (h *File) Chown(uid, gid int) error           { return h.check("chown") }
func (h *File) SetDeadline(t time.Time) error      { return os.ErrNoDeadline }
func (h *File) SetReadDeadline(t time.Time) error  { return os.ErrNoDeadline }
func (h *File) SetWriteDeadline(t time.Time) error { return os.ErrNoDeadline }

func (h *File) list(n int) ([]string, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	f := point()
	if !h.n.dir() {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	if !h.listed {
		h.listed = true
		h.names, h.namesI = sortedNames(h.n), 0
	}
	if e := f.fault("readdir", h.name, syscall.EIO, syscall.EACCES); e != 0 {
		// part of the entries may have been read before the failure
		rest := h.names[h.namesI:]
		k := len(rest) * sim.Choose(3, "partial readdir") / 3
		h.namesI = len(h.names)
		return rest[:k], perr("readdirent", h.name, e)
	}
	rest := h.names[h.namesI:]
	if n > 0 {
		if len(rest) == 0 {
			return nil, io.EOF
		}
		if len(rest) > n {
			rest = rest[:n]
		}
	}
	h.namesI += len(rest)
	return rest, nil
}

func (h *File) Readdirnames(n int) ([]string, error) {
	x, err := h.list(n)
	return append([]string(nil), x...), err
}

func (h *File) ReadDir(n int) ([]fs.DirEntry, error) {
	x, err := h.list(n)
	var out []fs.DirEntry
	for _, nm := range x {
		if k := h.n.kids[nm]; k != nil {
			out = append(out, &dirEntry{strings.TrimRight(h.name, "/"), nm, k.mode})
		}
	}
	return out, err
}

func (h *File) Readdir(n int) ([]fs.FileInfo, error) {
	x, err := h.list(n)
	var out []fs.FileInfo
	for _, nm := range x {
		fi, e := Lstat(strings.TrimRight(h.name, "/") + "/" + nm)
		if e != nil {
			if os.IsNotExist(e) {
				continue
			}
			return out, e
		}
		out = append(out, fi)
	}
	return out, err
}

func ReadDir(p string) ([]fs.DirEntry, error) {
	h, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	d, err := h.ReadDir(-1)
	sort.Slice(d, func(i, j int) bool { return d[i].Name() < d[j].Name() })
	return d, err
}

func ReadFile(p string) ([]byte, error) {
	h, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	size := 0
	if fi, err := h.Stat(); err == nil {
		size = int(fi.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	data := make([]byte, 0, size)
	for {
		n, err := h.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
		if len(data) >= cap(data) {
			d := append(data[:cap(data)], 0)
			data = d[:len(data)]
		}
	}
}

func WriteFile(p string, data []byte, perm fs.FileMode) error {
	h, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if err1 := h.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func tempName(dir, pattern string) (string, string, string) {
	if dir == "" {
		dir = TempDir()
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	return dir, prefix, suffix
}

func CreateTemp(dir, pattern string) (*File, error) {
	if strings.ContainsRune(pattern, '/') {
		return nil, &fs.PathError{Op: "createtemp", Path: pattern, Err: errors.New("pattern contains path separator")}
	}
	dir, pre, suf := tempName(dir, pattern)
	for try := 0; ; try++ {
		f := Disk()
		f.tmpN++
		name := path.Join(dir, pre+strconv.Itoa(1000000+f.tmpN)+suf)
		if strings.HasPrefix(dir, "./") || dir == "." {
			name = dir + "/" + pre + strconv.Itoa(1000000+f.tmpN) + suf
		}
		h, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) && try < 10000 {
			continue
		}
		return h, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	dir, pre, suf := tempName(dir, pattern)
	for try := 0; ; try++ {
		f := Disk()
		f.tmpN++
		name := path.Join(dir, pre+strconv.Itoa(1000000+f.tmpN)+suf)
		err := Mkdir(name, 0700)
		if os.IsExist(err) && try < 10000 {
			continue
		}
		return name, err
	}
}

func TempDir() string { return "/tmp" }

// ---- the rest of the package, made harmless ----

var (
	Stdin  = &File{name: "/dev/stdin", n: &inode{}}
	Stdout = &File{name: "/dev/stdout", n: &inode{}, flag: os.O_WRONLY, sink: true}
	Stderr = &File{name: "/dev/stderr", n: &inode{}, flag: os.O_WRONLY, sink: true}
	Args   = []string{"/work/app"}
)

func Exit(code int) { sim.Fail("exit", "the code called os.Exit(%d)", code) }

func Getpid() int { return 4242 }

// SendSignal is set by xexec.
var SendSignal func(pid int, sig os.Signal) error

// Process is a process by its number.
type Process struct{ Pid int }

func FindProcess(pid int) (*Process, error) { return &Process{Pid: pid}, nil }
func (p *Process) Signal(s os.Signal) error { return SendSignal(p.Pid, s) }
func (p *Process) Kill() error              { return SendSignal(p.Pid, os.Kill) }
func (p *Process) Release() error           { return nil }

func Getppid() int                    { return 4241 }
func Getuid() int                     { return 1000 }
func Geteuid() int                    { return 1000 }
func Getgid() int                     { return 1000 }
func Getegid() int                    { return 1000 }
func Getpagesize() int                { return 4096 }
func Getenv(string) string            { return "" }
func LookupEnv(string) (string, bool) { return "", false }
func Environ() []string               { return nil }
func Hostname() (string, error)       { return "sim", nil }
func Executable() (string, error)     { return "/work/app", nil }
func UserHomeDir() (string, error)    { return "/home/sim", nil }
func UserCacheDir() (string, error)   { return "/home/sim/.cache", nil }
func UserConfigDir() (string, error)  { return "/home/sim/.config", nil }

type dirFS string

func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	return Open(string(d) + "/" + name)
}
func (d dirFS) ReadFile(name string) ([]byte, error)       { return ReadFile(string(d) + "/" + name) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(string(d) + "/" + name) }
func (d dirFS) Stat(name string) (fs.FileInfo, error)      { return Stat(string(d) + "/" + name) }
