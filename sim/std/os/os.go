// Package os replaces package os: files, arguments and exit of the simulated process.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"sort"
	"strconv"
	"syscall"
	"time"

	rt "ZZSIM/rt"
)

// Per-process variables.
var (
	ZzG_Args   = rt.NewGlobal("os", "Args", func() []string { return append([]string(nil), rt.Cur().Args()...) })
	ZzG_Stdin  = rt.NewGlobal("os", "Stdin", func() *File { return &File{f: rt.StdFile(0), name: "/dev/stdin"} })
	ZzG_Stdout = rt.NewGlobal("os", "Stdout", func() *File { return &File{f: rt.StdFile(1), name: "/dev/stdout"} })
	ZzG_Stderr = rt.NewGlobal("os", "Stderr", func() *File { return &File{f: rt.StdFile(2), name: "/dev/stderr"} })
	zzEnv      = rt.NewGlobal("os", "env", func() map[string]string {
		return map[string]string{"PATH": "/usr/bin:/bin", "HOME": "/work", "TMPDIR": "/tmp"}
	})
)

func CurStdin() *File  { return *ZzG_Stdin.P() }
func CurStdout() *File { return *ZzG_Stdout.P() }
func CurStderr() *File { return *ZzG_Stderr.P() }

// File replaces os.File.
type File struct {
	f    *rt.OpenFile
	name string
}

// ZzOpenFile gives the simulator's open file.
func (f *File) ZzOpenFile() *rt.OpenFile { return f.f }

// ZzNewFile wraps an open file of the simulator.
func ZzNewFile(f *rt.OpenFile, name string) *File { return &File{f, name} }

func perr(op, path string, e syscall.Errno) error {
	if e == syscall.EBADF {
		return &fs.PathError{Op: op, Path: path, Err: fs.ErrClosed}
	}
	return &fs.PathError{Op: op, Path: path, Err: e}
}

func (f *File) ok(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	return nil
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f, e := rt.FSOpen(name, flag, uint32(perm.Perm()))
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return &File{f, name}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, e := f.f.Read(b, -1)
	if e != 0 {
		return n, perr("read", f.name, e)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: f.name, Err: errors.New("negative offset")}
	}
	n := 0
	for len(b) > 0 {
		m, e := f.f.Read(b, off)
		if e != 0 {
			return n, perr("read", f.name, e)
		}
		if m == 0 {
			return n, io.EOF
		}
		n += m
		b = b[m:]
		off += int64(m)
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	n, e := f.f.Write(b, -1)
	if e != 0 {
		return n, perr("write", f.name, e)
	}
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	n, e := f.f.Write(b, off)
	if e != 0 {
		return n, perr("write", f.name, e)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	n, e := f.f.Seek(off, whence)
	if e != 0 {
		return 0, perr("seek", f.name, e)
	}
	return n, nil
}

func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if e := f.f.Close(); e != 0 {
		return perr("close", f.name, e)
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	if e := f.f.Sync(); e != 0 {
		return perr("sync", f.name, e)
	}
	return nil
}

func (f *File) Truncate(n int64) error {
	if e := f.f.Truncate(n); e != 0 {
		return perr("truncate", f.name, e)
	}
	return nil
}

func (f *File) Chmod(m fs.FileMode) error                { f.f.Chmod(uint32(m.Perm())); return nil }
func (f *File) SetDeadline(t time.Time) error            { return real.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error        { return real.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error       { return real.ErrNoDeadline }

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	s, e := f.f.Stat()
	if e != 0 {
		return nil, perr("stat", f.name, e)
	}
	return info{s}, nil
}

type info struct{ s *rt.FileStat }

func (i info) Name() string { return i.s.Name }
func (i info) Size() int64  { return i.s.Size }
func (i info) Mode() fs.FileMode {
	m := fs.FileMode(i.s.Mode)
	switch {
	case i.s.Dir:
		m |= fs.ModeDir
	case i.s.Fifo:
		m |= fs.ModeNamedPipe
	case i.s.Dev:
		m |= fs.ModeDevice | fs.ModeCharDevice
	}
	return m
}
func (i info) ModTime() time.Time          { return rt.Epoch.Add(time.Duration(i.s.MTime)) }
func (i info) IsDir() bool                 { return i.s.Dir }
func (i info) Sys() any                    { return i.s }
func (i info) Type() fs.FileMode           { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error)  { return i, nil }
func (i info) String() string              { return fs.FormatDirEntry(i) }

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	ss, e := f.f.ReadDir(n)
	var out []fs.DirEntry
	for _, s := range ss {
		out = append(out, info{s})
	}
	if e != 0 {
		return out, perr("readdirent", f.name, e)
	}
	if n > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	ds, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, d := range ds {
		out = append(out, d.(info))
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	ds, err := f.ReadDir(n)
	var out []string
	for _, d := range ds {
		out = append(out, d.Name())
	}
	return out, err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ds, err := f.ReadDir(-1)
	sort.Slice(ds, func(i, j int) bool { return ds[i].Name() < ds[j].Name() })
	return ds, err
}

func Stat(name string) (fs.FileInfo, error) {
	s, e := rt.FSStat(name)
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return info{s}, nil
}

func Lstat(name string) (fs.FileInfo, error) {
	s, e := rt.FSStat(name)
	if e != 0 {
		return nil, perr("lstat", name, e)
	}
	return info{s}, nil
}

// SameFile is os.SameFile.
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.Sys().(*rt.FileStat)
	y, ok2 := b.Sys().(*rt.FileStat)
	return ok && ok2 && x.ID == y.ID
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Rename(from, to string) error {
	if e := rt.FSRename(from, to); e != 0 {
		return &real.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	return nil
}

func Link(from, to string) error {
	if e := rt.FSLink(from, to); e != 0 {
		return &real.LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	return nil
}

func Symlink(from, to string) error {
	return &real.LinkError{Op: "symlink", Old: from, New: to, Err: syscall.ENOSYS}
}

func Readlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }

func Remove(name string) error {
	if e := rt.FSRemove(name); e != 0 {
		return perr("remove", name, e)
	}
	return nil
}

func RemoveAll(name string) error {
	s, e := rt.FSStat(name)
	if e == syscall.ENOENT {
		return nil
	}
	if e != 0 {
		return perr("unlinkat", name, e)
	}
	if s.Dir {
		ds, err := ReadDir(name)
		if err != nil {
			return err
		}
		for _, d := range ds {
			if err := RemoveAll(name + "/" + d.Name()); err != nil {
				return err
			}
		}
	}
	return Remove(name)
}

func Mkdir(name string, perm fs.FileMode) error {
	if e := rt.FSMkdir(name, uint32(perm.Perm())); e != 0 {
		return perr("mkdir", name, e)
	}
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	if s, e := rt.FSStat(name); e == 0 {
		if s.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	i := len(name)
	for i > 0 && name[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && name[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := MkdirAll(name[:j-1], perm); err != nil {
			return err
		}
	}
	err := Mkdir(name[:i], perm)
	if err != nil && errors.Is(err, fs.ErrExist) {
		return nil
	}
	return err
}

func TempDir() string {
	if d := Getenv("TMPDIR"); d != "" {
		return d
	}
	return "/tmp"
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			pre, suf = pattern[:i], pattern[i+1:]
			break
		}
	}
	if dir[len(dir)-1] != '/' {
		dir += "/"
	}
	return dir + pre + strconv.FormatUint(rt.EnvUint64()%10000000000, 10) + suf
}

func CreateTemp(dir, pattern string) (*File, error) {
	for try := 0; ; try++ {
		n := tempName(dir, pattern)
		f, err := OpenFile(n, real.O_RDWR|real.O_CREATE|real.O_EXCL, 0600)
		if errors.Is(err, fs.ErrExist) && try < 10000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func Chmod(name string, m fs.FileMode) error {
	if e := rt.FSChmod(name, uint32(m.Perm())); e != 0 {
		return perr("chmod", name, e)
	}
	return nil
}
func Chtimes(name string, a, m time.Time) error { return nil }
func Chown(name string, u, g int) error         { return nil }
func Truncate(name string, n int64) error {
	if e := rt.FSTruncate(name, n); e != 0 {
		return perr("truncate", name, e)
	}
	return nil
}

func Getwd() (string, error) { return rt.Getwd(), nil }
func Chdir(d string) error {
	if e := rt.Chdir(d); e != 0 {
		return perr("chdir", d, e)
	}
	return nil
}

func Exit(code int) { rt.Exit(code) }

func Getenv(k string) string            { return (*zzEnv.P())[k] }
func LookupEnv(k string) (string, bool) { v, ok := (*zzEnv.P())[k]; return v, ok }
func Setenv(k, v string) error          { (*zzEnv.P())[k] = v; return nil }
func Unsetenv(k string) error           { delete(*zzEnv.P(), k); return nil }
func Environ() []string {
	var out []string
	for k, v := range *zzEnv.P() {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return out
}
func ExpandEnv(s string) string        { return real.Expand(s, Getenv) }
func Hostname() (string, error)        { return rt.HostOf().Name, nil }
func Getpid() int                      { return 1000 + rt.Cur().ID() }
func Getppid() int                     { return 1 }
func Getuid() int                      { return 1000 }
func Geteuid() int                     { return 1000 }
func Getgid() int                      { return 1000 }
func Getegid() int                     { return 1000 }
func Executable() (string, error)      { return "/usr/bin/" + rt.Cur().Args()[0], nil }
func UserHomeDir() (string, error)     { return "/work", nil }
func UserCacheDir() (string, error)    { return "/work/.cache", nil }

func Pipe() (*File, *File, error) {
	r, w := rt.Pipe()
	return &File{r, "|0"}, &File{w, "|1"}, nil
}

// Process replaces os.Process.
type Process struct {
	Pid int
	P   *rt.Proc
}

func (p *Process) Kill() error { rt.Kill(p.P, "signal: killed"); return nil }
func (p *Process) Signal(s real.Signal) error {
	if p.P.Dead() {
		return real.ErrProcessDone
	}
	rt.Kill(p.P, "signal: "+s.String())
	return nil
}
func (p *Process) Release() error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	rt.WaitProc(p.P)
	return &ProcessState{P: p.P}, nil
}

// ProcessState replaces os.ProcessState.
type ProcessState struct{ P *rt.Proc }

func (s *ProcessState) ExitCode() int { return s.P.ExitCode() }
func (s *ProcessState) Exited() bool  { return s.P.Killed() == "" }
func (s *ProcessState) Success() bool { return s.P.Killed() == "" && s.P.ExitCode() == 0 }
func (s *ProcessState) Pid() int      { return 1000 + s.P.ID() }
func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if k := s.P.Killed(); k != "" {
		return "signal: killed"
	}
	return "exit status " + strconv.Itoa(s.P.ExitCode())
}

// FindProcess and StartProcess are not simulated.
func FindProcess(pid int) (*Process, error) { return nil, syscall.ESRCH }
