package xos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"
)

// Root is os.Root: operations that cannot leave a directory.
type Root struct {
	h   *File
	dir string
}

var errEscapes = errors.New("path escapes from parent")

func OpenRoot(name string) (*Root, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	if !h.n.dir() {
		_ = h.Close()
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOTDIR}
	}
	return &Root{h, name}, nil
}

func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	defer r.Close()
	return r.Open(name)
}

func (r *Root) Name() string { return r.dir }
func (r *Root) Close() error {
	if r.h.check("close") != nil {
		return nil
	}
	return r.h.Close()
}

// real is the path, free of links, that name stands for within the root.
func (r *Root) real(op, name string, follow bool) (string, error) {
	fail := func(err error) (string, error) {
		return "", &fs.PathError{Op: op + "at", Path: name, Err: err}
	}
	if r.h.check(op) != nil {
		return fail(os.ErrClosed)
	}
	if name == "" {
		return fail(syscall.ENOENT)
	}
	if strings.HasPrefix(name, "/") {
		return fail(errEscapes)
	}
	f := point()
	at := []*inode{r.h.n}
	todo := strings.Split(name, "/")
	tail := "" // what does not exist yet
	for links := 0; len(todo) > 0; {
		c := todo[0]
		todo = todo[1:]
		if c == "" || c == "." {
			continue
		}
		if tail != "" {
			if c == ".." {
				return fail(syscall.ENOENT)
			}
			tail += "/" + c
			continue
		}
		cur := at[len(at)-1]
		if !cur.dir() {
			return fail(syscall.ENOTDIR)
		}
		if c == ".." {
			if len(at) == 1 {
				return fail(errEscapes)
			}
			at = at[:len(at)-1]
			continue
		}
		k := cur.kids[c]
		last := strings.Trim(strings.Join(todo, ""), "./") == ""
		switch {
		case k == nil:
			tail = c
		case k.link() && (!last || follow):
			if links++; links > 40 {
				return fail(syscall.ELOOP)
			}
			if strings.HasPrefix(k.target, "/") {
				return fail(errEscapes)
			}
			todo = append(strings.Split(k.target, "/"), todo...)
		case k.dir():
			at = append(at, k)
		default:
			if !last {
				return fail(syscall.ENOTDIR)
			}
			tail = c
		}
	}
	return path.Join(f.dirPath(at[len(at)-1]), tail), nil
}

func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p, err := r.real("open", name, flag&(os.O_CREATE|os.O_EXCL) != os.O_CREATE|os.O_EXCL)
	if err != nil {
		return nil, err
	}
	h, err := OpenFile(p, flag, perm)
	if h != nil {
		h.name = path.Join(r.dir, name)
	}
	return h, err
}
func (r *Root) Open(name string) (*File, error) { return r.OpenFile(name, os.O_RDONLY, 0) }
func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func (r *Root) OpenRoot(name string) (*Root, error) {
	p, err := r.real("open", name, true)
	if err != nil {
		return nil, err
	}
	q, err := OpenRoot(p)
	if q != nil {
		q.dir = path.Join(r.dir, name)
	}
	return q, err
}
func (r *Root) one(op, name string, follow bool, do func(string) error) error {
	p, err := r.real(op, name, follow)
	if err != nil {
		return err
	}
	return do(p)
}
func (r *Root) Mkdir(name string, perm fs.FileMode) error {
	return r.one("mkdir", name, false, func(p string) error { return Mkdir(p, perm) })
}
func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
	return r.one("mkdir", name, true, func(p string) error { return MkdirAll(p, perm) })
}
func (r *Root) Remove(name string) error    { return r.one("unlink", name, false, Remove) }
func (r *Root) RemoveAll(name string) error { return r.one("unlink", name, false, RemoveAll) }
func (r *Root) Chmod(name string, m fs.FileMode) error {
	return r.one("chmod", name, true, func(p string) error { return Chmod(p, m) })
}
func (r *Root) Chown(name string, u, g int) error {
	return r.one("chown", name, true, func(p string) error { return Chown(p, u, g) })
}
func (r *Root) Lchown(name string, u, g int) error {
	return r.one("lchown", name, false, func(p string) error { return Lchown(p, u, g) })
}
func (r *Root) Chtimes(name string, a, m time.Time) error {
	return r.one("chtimes", name, true, func(p string) error { return Chtimes(p, a, m) })
}
func (r *Root) Symlink(target, name string) error {
	return r.one("symlink", name, false, func(p string) error { return Symlink(target, p) })
}
func (r *Root) two(op, o, n string, do func(o, n string) error) error {
	p, err := r.real(op, o, false)
	if err != nil {
		return err
	}
	return r.one(op, n, false, func(q string) error { return do(p, q) })
}
func (r *Root) Link(o, n string) error   { return r.two("link", o, n, Link) }
func (r *Root) Rename(o, n string) error { return r.two("rename", o, n, Rename) }
func (r *Root) Readlink(name string) (string, error) {
	p, err := r.real("readlink", name, false)
	if err != nil {
		return "", err
	}
	return Readlink(p)
}
func (r *Root) Stat(name string) (fs.FileInfo, error) {
	p, err := r.real("stat", name, true)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
func (r *Root) Lstat(name string) (fs.FileInfo, error) {
	p, err := r.real("lstat", name, false)
	if err != nil {
		return nil, err
	}
	return Lstat(p)
}
func (r *Root) ReadFile(name string) ([]byte, error) {
	p, err := r.real("open", name, true)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}
func (r *Root) WriteFile(name string, data []byte, perm fs.FileMode) error {
	return r.one("open", name, true, func(p string) error { return WriteFile(p, data, perm) })
}
func (r *Root) FS() fs.FS { return rootFS{r} }

type rootFS struct{ r *Root }

func (d rootFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	h, err := d.r.Open(name)
	if err != nil {
		return nil, err
	}
	return h, nil
}
func (d rootFS) ReadFile(name string) ([]byte, error)   { return d.r.ReadFile(name) }
func (d rootFS) Stat(name string) (fs.FileInfo, error)  { return d.r.Stat(name) }
func (d rootFS) Lstat(name string) (fs.FileInfo, error) { return d.r.Lstat(name) }
func (d rootFS) ReadLink(name string) (string, error)   { return d.r.Readlink(name) }
func (d rootFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.r.real("open", name, true)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}

// CopyFS is os.CopyFS.
func CopyFS(dir string, fsys fs.FS) error {
	return fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if p != "." && strings.HasPrefix(path.Clean("/"+p), "/..") {
			return &fs.PathError{Op: "CopyFS", Path: p, Err: fs.ErrInvalid}
		}
		to := path.Join(dir, p)
		switch d.Type() {
		case fs.ModeDir:
			return MkdirAll(to, 0777)
		case fs.ModeSymlink:
			target, err := fs.ReadLink(fsys, p)
			if err != nil {
				return err
			}
			return Symlink(target, to)
		case 0:
			r, err := fsys.Open(p)
			if err != nil {
				return err
			}
			defer r.Close()
			info, err := r.Stat()
			if err != nil {
				return err
			}
			w, err := OpenFile(to, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0666|info.Mode()&0777)
			if err != nil {
				return err
			}
			if _, err := io.Copy(w, r); err != nil {
				_ = w.Close()
				return &fs.PathError{Op: "Copy", Path: to, Err: err}
			}
			return w.Close()
		}
		return &fs.PathError{Op: "CopyFS", Path: p, Err: fs.ErrInvalid}
	})
}

func ExpandEnv(s string) string    { return os.Expand(s, Getenv) }
func Setenv(key, val string) error { return nil }
func Unsetenv(key string) error    { return nil }
func Clearenv()                    {}
func Getgroups() ([]int, error)    { return []int{1000}, nil }
