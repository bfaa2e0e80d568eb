// Package xfilepath stands in for path/filepath.
package xfilepath

import (
	"dst/x/xos"
	"errors"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := xos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	abs := filepath.IsAbs(p)
	parts := strings.Split(p, "/")
	cur := ""
	if abs {
		cur = "/"
	}
	links := 0
	for len(parts) > 0 {
		c := parts[0]
		parts = parts[1:]
		if c == "" || c == "." {
			continue
		}
		next := filepath.Join(cur, c)
		if c == ".." {
			cur = next
			continue
		}
		fi, err := xos.Lstat(next)
		if err != nil {
			return "", err
		}
		if fi.Mode()&fs.ModeSymlink != 0 {
			if links++; links > 255 {
				return "", errors.New("EvalSymlinks: too many links")
			}
			t, err := xos.Readlink(next)
			if err != nil {
				return "", err
			}
			if filepath.IsAbs(t) {
				cur = "/"
			}
			parts = append(strings.Split(t, "/"), parts...)
			continue
		}
		cur = next
	}
	if cur == "" {
		cur = "."
	}
	return filepath.Clean(cur), nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := xos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	h, err := xos.Open(p)
	var names []string
	if err == nil {
		names, err = h.Readdirnames(-1)
		h.Close()
		sort.Strings(names)
	}
	if err != nil {
		names = nil
	}
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, n := range names {
		f := filepath.Join(p, n)
		fi, err := xos.Lstat(f)
		if err != nil {
			if err := fn(f, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else if err = walk(f, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := xos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := xos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, x := range dirs {
		if err := walkDir(filepath.Join(p, x.Name()), x, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := xos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = strings.TrimRight(dir, "/")
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		fi, err := xos.Stat(d)
		if err != nil || !fi.IsDir() {
			continue
		}
		h, err := xos.Open(d)
		if err != nil {
			continue
		}
		names, _ := h.Readdirnames(-1)
		h.Close()
		sort.Strings(names)
		for _, n := range names {
			if ok, err := filepath.Match(file, n); err != nil {
				return out, err
			} else if ok {
				out = append(out, filepath.Join(d, n))
			}
		}
	}
	return out, nil
}
