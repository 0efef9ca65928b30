// Package filepath replaces the parts of path/filepath that touch files.
package filepath

import (
	"io/fs"
	real "path/filepath"
	"sort"
	"strings"

	"ZZSIM/std/os"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	return real.Join(wd, p), err
}

func EvalSymlinks(p string) (string, error) {
	if _, err := os.Stat(p); err != nil {
		return "", err
	}
	return real.Clean(p), nil
}

func hasMeta(p string) bool { return strings.ContainsAny(p, `*?[\`) }

// Glob is filepath.Glob.
func Glob(pattern string) (matches []string, err error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err = os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	if !hasMeta(dir) {
		return glob(dir, file, nil)
	}
	if dir == pattern {
		return nil, real.ErrBadPattern
	}
	m, err := Glob(dir)
	if err != nil {
		return
	}
	for _, d := range m {
		matches, err = glob(d, file, matches)
		if err != nil {
			return
		}
	}
	return
}

func glob(dir, pattern string, matches []string) (m []string, e error) {
	m = matches
	fi, err := os.Stat(dir)
	if err != nil || !fi.IsDir() {
		return
	}
	d, err := os.Open(dir)
	if err != nil {
		return
	}
	defer d.Close()
	names, _ := d.Readdirnames(-1)
	sort.Strings(names)
	for _, n := range names {
		ok, err := real.Match(pattern, n)
		if err != nil {
			return m, err
		}
		if ok {
			m = append(m, real.Join(dir, n))
		}
	}
	return
}

// WalkDir is filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	ds, err := os.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == fs.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, x := range ds {
		if err := walkDir(real.Join(path, x.Name()), x, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk is filepath.Walk.
func Walk(root string, fn real.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if d != nil {
			fi, _ = d.Info()
		}
		return fn(p, fi, err)
	})
}
