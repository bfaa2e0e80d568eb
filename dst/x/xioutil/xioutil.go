// Package xioutil stands in for io/ioutil.
package xioutil

import (
	"dst/x/xos"
	"io"
	"io/fs"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                  { return io.NopCloser(r) }
func ReadFile(p string) ([]byte, error)                    { return xos.ReadFile(p) }
func WriteFile(p string, d []byte, perm fs.FileMode) error { return xos.WriteFile(p, d, perm) }
func TempFile(dir, pattern string) (*xos.File, error)      { return xos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)          { return xos.MkdirTemp(dir, pattern) }

func ReadDir(p string) ([]fs.FileInfo, error) {
	entries, err := xos.ReadDir(p)
	if err != nil {
		return nil, err
	}
	list := make([]fs.FileInfo, 0, len(entries))
	for _, e := range entries {
		info, err := e.Info()
		if err != nil {
			return nil, err
		}
		list = append(list, info)
	}
	return list, nil
}
