// Package zip replaces the part of archive/zip that opens files.
package zip

import (
	real "archive/zip"

	"ZZSIM/std/os"
)

// ReadCloser replaces zip.ReadCloser.
type ReadCloser struct {
	f *os.File
	real.Reader
}

// OpenReader is zip.OpenReader.
func OpenReader(name string) (*ReadCloser, error) {
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	r, err := real.NewReader(f, fi.Size())
	if err != nil {
		f.Close()
		return nil, err
	}
	return &ReadCloser{f: f, Reader: *r}, nil
}

// Close closes the file.
func (r *ReadCloser) Close() error { return r.f.Close() }
