// Package xzip stands in for archive/zip: files are opened on the simulated disk.
package xzip

import (
	"archive/zip"
	"dst/x/xos"
	"errors"
)

type ReadCloser struct {
	f *xos.File
	zip.Reader
}

func OpenReader(name string) (*ReadCloser, error) {
	f, err := xos.Open(name)
	if err != nil {
		return nil, err
	}
	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	z, err := zip.NewReader(f, fi.Size())
	if err != nil && !errors.Is(err, zip.ErrInsecurePath) {
		f.Close()
		return nil, err
	}
	r := &ReadCloser{f: f}
	r.Reader.File = z.File
	r.Reader.Comment = z.Comment
	return r, err
}

func (r *ReadCloser) Close() error { return r.f.Close() }
