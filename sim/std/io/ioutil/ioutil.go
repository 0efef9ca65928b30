// Package ioutil replaces io/ioutil.
package ioutil

import (
	"io"
	"io/fs"
	"sort"

	"ZZSIM/std/os"
)

// Discard is io.Discard.
var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)      { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error)     { return os.ReadFile(name) }
func NopCloser(r io.Reader) io.ReadCloser      { return io.NopCloser(r) }
func TempDir(dir, pat string) (string, error)  { return os.MkdirTemp(dir, pat) }
func TempFile(dir, pat string) (*os.File, error) { return os.CreateTemp(dir, pat) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}

func ReadDir(dir string) ([]fs.FileInfo, error) {
	f, err := os.Open(dir)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.Readdir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}
