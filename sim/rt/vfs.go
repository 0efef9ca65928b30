package rt

import (
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// Simulated file systems: one per host.  Every inode has a current content and
// a durable content (what the last fsync saved); directory changes go through a
// journal of which a power loss keeps a prefix.  fsync commits the journal.

const tearBlock = 512

// Inode is a file or directory.
type Inode struct {
	dir     bool
	fifo    bool // a pipe; data is what its reader gets
	data    []byte
	dur     []byte // content at the last fsync
	dirty   bool   // data differs from dur
	kids    imap
	mode    uint32
	mtime   int64
	nlink   int
	id      int
	everDur bool
}

type jop struct {
	dir  *Inode
	name string
	old  *Inode // what the name was before
	new  *Inode // what it becomes
	grp  int    // operations of one atomic change share a group
}

// FS is a file system.
type FS struct {
	root    *Inode
	journal []jop
	grp     int
	nextID  int
	cap     int64 // bytes; <0: unlimited
	used    int64
}

func newFS() *FS {
	fs := &FS{cap: -1}
	fs.root = fs.newInode(true)
	for _, d := range []string{"tmp", "dev", "work"} {
		fs.root.kids.put(d, fs.newInode(true))
	}
	return fs
}

func (fs *FS) newInode(dir bool) *Inode {
	fs.nextID++
	m := uint32(0644)
	if dir {
		m = 0755
	}
	now := int64(0)
	if W != nil {
		now = W.now
	}
	return &Inode{dir: dir, mode: m, mtime: now, id: fs.nextID}
}

// SplitPath normalises a path relative to cwd into its components.
func splitPath(cwd, p string) []string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	var out []string
	for _, e := range strings.Split(p, "/") {
		switch e {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, e)
		}
	}
	return out
}

func (fs *FS) walk(parts []string) (*Inode, syscall.Errno) {
	n := fs.root
	for _, e := range parts {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		k, ok := n.kids.get(e)
		if !ok {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, 0
}

func (fs *FS) parent(parts []string) (*Inode, string, syscall.Errno) {
	if len(parts) == 0 {
		return nil, "", syscall.EISDIR
	}
	d, e := fs.walk(parts[:len(parts)-1])
	if e != 0 {
		return nil, "", e
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, parts[len(parts)-1], 0
}

func (fs *FS) set(d *Inode, name string, n *Inode, grp int) {
	old, _ := d.kids.get(name)
	fs.journal = append(fs.journal, jop{dir: d, name: name, old: old, new: n, grp: grp})
	if n == nil {
		d.kids.del(name)
	} else {
		d.kids.put(name, n)
	}
	d.mtime = W.now
}

func (fs *FS) newGrp() int { fs.grp++; return fs.grp }

// powerLoss reverts the file system to a state a crash of the machine may leave.
func (fs *FS) powerLoss(w *World) {
	r := w.env
	// keep a prefix of the journal, by atomic groups
	cut := len(fs.journal)
	if cut > 0 {
		switch r.Intn(3) {
		case 0:
			cut = 0
		case 1:
			cut = r.Intn(cut + 1)
		}
	}
	for cut > 0 && cut < len(fs.journal) && fs.journal[cut].grp == fs.journal[cut-1].grp {
		cut--
	}
	for i := len(fs.journal) - 1; i >= cut; i-- {
		j := fs.journal[i]
		if j.old == nil {
			j.dir.kids.del(j.name)
		} else {
			j.dir.kids.put(j.name, j.old)
		}
	}
	fs.journal = nil
	fs.tear(w, fs.root)
}

func (fs *FS) tear(w *World, n *Inode) {
	if n.dir {
		for _, k := range sortedKeys(n) {
			c, _ := n.kids.get(k)
			fs.tear(w, c)
		}
		return
	}
	if !n.dirty {
		return
	}
	r := w.env
	cur, dur := n.data, n.dur
	var res []byte
	switch r.Intn(5) {
	case 0: // everything unsynced is lost
		res = cloneBytes(dur)
	case 1: // everything made it
		res = cloneBytes(cur)
	case 2: // a prefix made it
		k := r.Intn(len(cur) + 1)
		res = cloneBytes(cur[:k])
	case 3: // the new size, but blocks of zeros
		res = make([]byte, len(cur))
		for b := 0; b < len(cur); b += tearBlock {
			if r.Chance(0.5) {
				e := min(b+tearBlock, len(cur))
				copy(res[b:e], cur[b:e])
			}
		}
	case 4: // a mixture of old and new blocks
		k := len(cur)
		if r.Chance(0.5) {
			k = len(dur)
		}
		res = make([]byte, k)
		for b := 0; b < k; b += tearBlock {
			e := min(b+tearBlock, k)
			src := cur
			if r.Chance(0.5) {
				src = dur
			}
			if b < len(src) {
				copy(res[b:e], src[b:min(e, len(src))])
			}
		}
	}
	if len(res) != len(cur) {
		w.stat("torn-files", 1)
	}
	n.data = res
	n.dur = cloneBytes(res)
	n.dirty = false
}

func sortedKeys(n *Inode) []string {
	ks := make([]string, len(n.kids.keys))
	for i := range n.kids.keys {
		ks[i] = n.kids.keys[i]
	}
	sort.Strings(ks)
	return ks
}

func (fs *FS) commit() { fs.journal = nil }

// --- pipes ---

type pipe struct {
	buf     []byte
	wclosed bool
	rclosed bool
	waiting []*Task
}

func (p *pipe) wake() {
	for i, t := range p.waiting {
		W.ready(t)
		p.waiting[i] = nil
	}
	p.waiting = p.waiting[:0]
}

// --- open files ---

// OpenFile is an open file description.
type OpenFile struct {
	fs     *FS
	n      *Inode
	path   string
	pos    int64
	rd, wr bool
	app    bool
	closed bool
	proc   *Proc
	std    int // 1 stdin, 2 stdout, 3 stderr
	pr, pw *pipe
	dirPos int
	dirLst []string
}

func (f *OpenFile) release() {
	if f.pr != nil {
		f.pr.rclosed = true
		f.pr.wake()
	}
	if f.pw != nil {
		f.pw.wclosed = true
		f.pw.wake()
	}
}

// Open flags (as syscall).
const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oCREAT  = syscall.O_CREAT
	oEXCL   = syscall.O_EXCL
	oTRUNC  = syscall.O_TRUNC
	oAPPEND = syscall.O_APPEND
	oSYNC   = syscall.O_SYNC
)

var ioSync [2]uint64

func errnoOf(f *Fault, def syscall.Errno) syscall.Errno {
	switch f.Action {
	case "eio":
		return syscall.EIO
	case "enospc":
		return syscall.ENOSPC
	case "eacces":
		return syscall.EACCES
	case "emfile":
		return syscall.EMFILE
	case "enoent":
		return syscall.ENOENT
	}
	return def
}

// fsHook counts a file operation and injects its faults.
func (w *World) fsHook(class string, p *Proc) *Fault {
	w.yield("fs")
	f := w.hook(class, nil)
	if f == nil {
		return nil
	}
	if f.Action == "diskfull" {
		fs := p.host.fs
		fs.cap = fs.used
		return nil
	}
	return f
}

func (w *World) openProc() *Proc { return w.cur.proc }

// MaxFDs is the number of files a process may have open.
const MaxFDs = 1000

// FSOpen opens a file of the current process's host.
func FSOpen(path string, flag int, mode uint32) (*OpenFile, syscall.Errno) {
	w := W
	p := w.cur.proc
	class := "fs.open"
	if flag&(oWRONLY|oRDWR|oCREAT) != 0 {
		class = "fs.create"
	}
	if ft := w.fsHook(class, p); ft != nil {
		return nil, errnoOf(ft, syscall.EIO)
	}
	if path == "" {
		return nil, syscall.ENOENT
	}
	fs := p.host.fs
	parts := splitPath(p.cwd, path)
	wr := flag&(oWRONLY|oRDWR) != 0
	rd := flag&oWRONLY == 0
	if len(parts) == 2 && parts[0] == "dev" {
		switch parts[1] {
		case "stdout":
			return &OpenFile{proc: p, std: 2, wr: true, path: path}, 0
		case "stderr":
			return &OpenFile{proc: p, std: 3, wr: true, path: path}, 0
		case "stdin":
			return &OpenFile{proc: p, std: 1, rd: true, path: path}, 0
		case "null":
			return &OpenFile{proc: p, std: 4, rd: true, wr: true, path: path}, 0
		}
	}
	n, e := fs.walk(parts)
	if e == syscall.ENOENT && flag&oCREAT != 0 {
		d, name, e2 := fs.parent(parts)
		if e2 != 0 {
			return nil, e2
		}
		if strings.HasSuffix(path, "/") {
			return nil, syscall.EISDIR
		}
		if fs.cap >= 0 && fs.used >= fs.cap+4096 {
			return nil, syscall.ENOSPC
		}
		n = fs.newInode(false)
		n.mode = mode & 0777
		n.nlink = 1
		fs.set(d, name, n, fs.newGrp())
	} else if e != 0 {
		return nil, e
	} else if flag&oCREAT != 0 && flag&oEXCL != 0 {
		return nil, syscall.EEXIST
	}
	if n.dir && wr {
		return nil, syscall.EISDIR
	}
	if strings.HasSuffix(path, "/") && !n.dir {
		return nil, syscall.ENOTDIR
	}
	if n.mode&0200 == 0 && wr && e == 0 {
		return nil, syscall.EACCES
	}
	if len(p.files) >= MaxFDs {
		return nil, syscall.EMFILE
	}
	if flag&oTRUNC != 0 && wr && len(n.data) > 0 && !n.fifo {
		fs.used -= int64(len(n.data))
		n.data = nil
		n.dirty = true
		n.mtime = w.now
	}
	f := &OpenFile{fs: fs, n: n, path: path, rd: rd, wr: wr, app: flag&oAPPEND != 0, proc: p}
	p.files = append(p.files, f)
	if len(p.files) > p.maxFiles {
		p.maxFiles = len(p.files)
	}
	w.tracef("open %s flag=%#x", path, flag)
	return f, 0
}

// StdFile is one of the standard streams of the current process.
func StdFile(i int) *OpenFile {
	return &OpenFile{proc: W.cur.proc, std: i + 1, rd: i == 0, wr: i > 0, path: []string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}[i]}
}

// Pipe returns a connected pair.
func Pipe() (*OpenFile, *OpenFile) {
	p := &pipe{}
	return &OpenFile{proc: W.cur.proc, rd: true, pr: p, path: "|0"}, &OpenFile{proc: W.cur.proc, wr: true, pw: p, path: "|1"}
}

func (f *OpenFile) slice(p []byte, write bool) {
	if !RaceEnabled || len(p) == 0 {
		return
	}
	t := W.cur
	t.enter()
	if write {
		rawWriteRange(unsafe.Pointer(&p[0]), len(p))
	} else {
		rawReadRange(unsafe.Pointer(&p[0]), len(p))
	}
	t.leave()
}

// Read reads; at the end of the file it returns 0 and no error.
func (f *OpenFile) Read(b []byte, at int64) (int, syscall.Errno) {
	w := W
	if f.closed {
		return 0, syscall.EBADF
	}
	if f.pr != nil {
		w.yield("pipe")
		for len(f.pr.buf) == 0 && !f.pr.wclosed {
			f.pr.waiting = append(f.pr.waiting, w.cur)
			w.block("pipe read")
		}
		n := copy(b, f.pr.buf)
		f.pr.buf = f.pr.buf[n:]
		f.slice(b[:n], true)
		w.cur.acquire(unsafe.Pointer(&ioSync))
		return n, 0
	}
	if ft := w.fsHook("fs.read", f.proc); ft != nil {
		if ft.Action == "eof" { // never used on files: a fault kind of streams
			return 0, 0
		}
		return 0, errnoOf(ft, syscall.EIO)
	}
	if f.closed {
		return 0, syscall.EBADF
	}
	if !f.rd {
		return 0, syscall.EBADF
	}
	var src []byte
	switch f.std {
	case 1:
		src = f.proc.stdin
	case 2, 3:
		return 0, syscall.EBADF
	case 4:
		return 0, 0
	default:
		if f.n.dir {
			return 0, syscall.EISDIR
		}
		src = f.n.data
	}
	pos := f.pos
	if at >= 0 {
		pos = at
	}
	if pos >= int64(len(src)) {
		return 0, 0
	}
	k := len(src) - int(pos)
	if k > len(b) {
		k = len(b)
	}
	if c := w.cfg.ReadChunk; c > 0 && k > 1 {
		m := 1 + w.env.Intn(c)
		if m < k {
			k = m
			w.stat("short-reads", 1)
		}
	}
	copy(b[:k], src[pos:])
	f.slice(b[:k], true)
	w.cur.acquire(unsafe.Pointer(&ioSync))
	if at < 0 {
		f.pos += int64(k)
	}
	return k, 0
}

// Write writes.
func (f *OpenFile) Write(b []byte, at int64) (int, syscall.Errno) {
	w := W
	if f.closed {
		return 0, syscall.EBADF
	}
	if !f.wr {
		return 0, syscall.EBADF
	}
	f.slice(b, false)
	w.cur.releaseMerge(unsafe.Pointer(&ioSync))
	if f.pw != nil {
		w.yield("pipe")
		if f.pw.rclosed {
			return 0, syscall.EPIPE
		}
		f.pw.buf = append(f.pw.buf, b...)
		f.pw.wake()
		return len(b), 0
	}
	if f.std != 0 {
		class := "std.write"
		if f.std == 2 {
			class = "stdout.write"
		}
		w.yield("std")
		if f.std != 4 {
			if ft := w.hook(class, nil); ft != nil {
				return 0, errnoOf(ft, syscall.EIO)
			}
		}
		c := cloneBytes(b)
		switch f.std {
		case 2:
			f.proc.outWrite(c)
		case 3:
			f.proc.errWrite(c)
		}
		return len(b), 0
	}
	if f.n.fifo && at >= 0 {
		return 0, syscall.ESPIPE
	}
	k := len(b)
	var en syscall.Errno
	if ft := w.fsHook("fs.write", f.proc); ft != nil {
		if ft.Action == "short" {
			k = 0
			if len(b) > 0 {
				k = int(ft.Arg) % len(b)
				if k < 0 {
					k = 0
				}
			}
			en = syscall.ENOSPC
		} else {
			return 0, errnoOf(ft, syscall.EIO)
		}
	}
	if f.closed {
		return 0, syscall.EBADF
	}
	n := f.n
	pos := f.pos
	if at >= 0 {
		pos = at
	} else if f.app || n.fifo {
		pos = int64(len(n.data))
	}
	end := pos + int64(k)
	grow := end - int64(len(n.data))
	if grow > 0 && f.fs.cap >= 0 && f.fs.used+grow > f.fs.cap {
		room := f.fs.cap - f.fs.used
		if room < 0 {
			room = 0
		}
		k -= int(grow - room)
		if k < 0 {
			k = 0
		}
		end = pos + int64(k)
		grow = end - int64(len(n.data))
		en = syscall.ENOSPC
	}
	if k > 0 {
		if grow > 0 {
			old := len(n.data)
			if int(end) > cap(n.data) {
				nd := make([]byte, old, max(int(end), 2*cap(n.data)))
				copy(nd, n.data)
				n.data = nd
			}
			n.data = n.data[:end]
			for i := old; i < int(pos); i++ {
				n.data[i] = 0
			}
			f.fs.used += grow
		}
		copy(n.data[pos:end], b[:k])
		n.dirty = !n.fifo
		n.mtime = w.now
		if at < 0 {
			f.pos = end
		}
	}
	if en != 0 {
		return k, en
	}
	return k, 0
}

// Seek sets the position.
func (f *OpenFile) Seek(off int64, whence int) (int64, syscall.Errno) {
	W.yield("fs")
	if f.closed {
		return 0, syscall.EBADF
	}
	if f.n == nil || f.n.fifo {
		return 0, syscall.ESPIPE
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	f.pos = off
	f.dirLst = nil
	return off, 0
}

// Truncate changes the size.
func (f *OpenFile) Truncate(sz int64) syscall.Errno {
	w := W
	if f.closed || f.n == nil {
		return syscall.EBADF
	}
	if !f.wr || f.n.fifo {
		return syscall.EINVAL
	}
	if ft := w.fsHook("fs.write", f.proc); ft != nil {
		return errnoOf(ft, syscall.EIO)
	}
	return f.fs.truncate(f.n, sz)
}

func (fs *FS) truncate(n *Inode, sz int64) syscall.Errno {
	if sz < 0 {
		return syscall.EINVAL
	}
	d := sz - int64(len(n.data))
	if d > 0 {
		if fs.cap >= 0 && fs.used+d > fs.cap {
			return syscall.ENOSPC
		}
		nd := make([]byte, sz)
		copy(nd, n.data)
		n.data = nd
	} else {
		n.data = n.data[:sz]
	}
	fs.used += d
	n.dirty = true
	return 0
}

// Sync makes the file's content and all earlier directory changes durable.
func (f *OpenFile) Sync() syscall.Errno {
	w := W
	if f.closed {
		return syscall.EBADF
	}
	if f.n == nil {
		return syscall.EINVAL
	}
	if f.n.fifo {
		return syscall.EINVAL
	}
	if ft := w.fsHook("fs.sync", f.proc); ft != nil {
		return errnoOf(ft, syscall.EIO)
	}
	if f.closed {
		return syscall.EBADF
	}
	if !f.n.dir {
		f.n.dur = cloneBytes(f.n.data)
		f.n.dirty = false
	}
	f.fs.commit()
	return 0
}

// Close closes the file.
func (f *OpenFile) Close() syscall.Errno {
	w := W
	if f.closed {
		return syscall.EBADF
	}
	class := "fs.rclose"
	if f.wr && f.n != nil {
		class = "fs.close"
	}
	w.yield("fs")
	if f.closed {
		return syscall.EBADF
	}
	f.closed = true
	f.release()
	for i, x := range f.proc.files {
		if x == f {
			n := len(f.proc.files)
			f.proc.files[i] = f.proc.files[n-1]
			f.proc.files[n-1] = nil
			f.proc.files = f.proc.files[:n-1]
			break
		}
	}
	if class == "fs.rclose" {
		return 0
	}
	if ft := w.hook(class, nil); ft != nil && ft.Action != "diskfull" {
		// a failed write-back is reported by close: what was not yet durable is gone
		if f.n.dirty {
			cur := f.n.data
			k := 0
			if len(cur) > 0 && w.env.Chance(0.5) {
				k = w.env.Intn(len(cur))
			}
			f.fs.used -= int64(len(cur) - k)
			f.n.data = cloneBytes(cur[:k])
			f.n.dur = cloneBytes(cur[:k])
			f.n.dirty = false
		}
		return errnoOf(ft, syscall.EIO)
	}
	return 0
}

// Closed tells whether the file is closed.
func (f *OpenFile) Closed() bool { return f.closed }

// Path is the name the file was opened with.
func (f *OpenFile) Path() string { return f.path }

// Std tells which standard stream the file is (1, 2, 3), if any.
func (f *OpenFile) Std() int { return f.std }

// FileStat is file information.
type FileStat struct {
	Name  string
	Size  int64
	Dir   bool
	Fifo  bool
	Dev   bool
	Mode  uint32
	MTime int64
	ID    int
}

func statOf(name string, n *Inode) *FileStat {
	return &FileStat{Name: name, Size: int64(len(n.data)), Dir: n.dir, Fifo: n.fifo, Mode: n.mode, MTime: n.mtime, ID: n.id}
}

// Stat returns information on the open file.
func (f *OpenFile) Stat() (*FileStat, syscall.Errno) {
	w := W
	if f.closed {
		return nil, syscall.EBADF
	}
	if f.n == nil {
		return &FileStat{Name: f.path, Mode: 0666, Fifo: f.std != 4, Dev: f.std == 4}, 0
	}
	if ft := w.fsHook("fs.stat", f.proc); ft != nil {
		return nil, errnoOf(ft, syscall.EIO)
	}
	parts := splitPath("/", f.path)
	nm := "/"
	if len(parts) > 0 {
		nm = parts[len(parts)-1]
	}
	return statOf(nm, f.n), 0
}

// FSStat returns information on a file.
func FSStat(path string) (*FileStat, syscall.Errno) {
	w := W
	p := w.cur.proc
	if ft := w.fsHook("fs.stat", p); ft != nil {
		return nil, errnoOf(ft, syscall.EIO)
	}
	if path == "" {
		return nil, syscall.ENOENT
	}
	parts := splitPath(p.cwd, path)
	if len(parts) == 2 && parts[0] == "dev" {
		switch parts[1] {
		case "stdout", "stderr", "stdin":
			return &FileStat{Name: parts[1], Mode: 0666, Fifo: true}, 0
		case "null":
			return &FileStat{Name: parts[1], Mode: 0666, Dev: true}, 0
		}
	}
	n, e := p.host.fs.walk(parts)
	if e != 0 {
		return nil, e
	}
	nm := "/"
	if len(parts) > 0 {
		nm = parts[len(parts)-1]
	}
	return statOf(nm, n), 0
}

// ReadDir returns up to k directory entries (k<=0: all), in directory order.
func (f *OpenFile) ReadDir(k int) ([]*FileStat, syscall.Errno) {
	w := W
	if f.closed || f.n == nil {
		return nil, syscall.EBADF
	}
	if !f.n.dir {
		return nil, syscall.ENOTDIR
	}
	var fail syscall.Errno
	if ft := w.fsHook("fs.readdir", f.proc); ft != nil {
		if ft.Action != "short" {
			return nil, errnoOf(ft, syscall.EIO)
		}
		// only the first Arg entries can be read
		if fail = syscall.EIO; ft.Arg < 1 {
			return nil, fail
		}
		if k <= 0 || int64(k) > ft.Arg {
			k = int(ft.Arg)
		}
	}
	if f.dirLst == nil {
		f.dirLst = sortedKeys(f.n)
		// directory order is arbitrary
		for i := len(f.dirLst) - 1; i > 0; i-- {
			j := w.env.Intn(i + 1)
			f.dirLst[i], f.dirLst[j] = f.dirLst[j], f.dirLst[i]
		}
		f.dirPos = 0
	}
	var out []*FileStat
	for f.dirPos < len(f.dirLst) && (k <= 0 || len(out) < k) {
		nm := f.dirLst[f.dirPos]
		f.dirPos++
		if c, ok := f.n.kids.get(nm); ok {
			out = append(out, statOf(nm, c))
		}
	}
	return out, fail
}

// FSRename renames a file.
func FSRename(from, to string) syscall.Errno {
	w := W
	p := w.cur.proc
	if ft := w.fsHook("fs.rename", p); ft != nil {
		return errnoOf(ft, syscall.EIO)
	}
	fs := p.host.fs
	fp, tp := splitPath(p.cwd, from), splitPath(p.cwd, to)
	fd, fn, e := fs.parent(fp)
	if e != 0 {
		return e
	}
	n, ok := fd.kids.get(fn)
	if !ok {
		return syscall.ENOENT
	}
	td, tn, e := fs.parent(tp)
	if e != 0 {
		return e
	}
	if old, ok := td.kids.get(tn); ok {
		if old == n {
			return 0
		}
		if old.dir != n.dir {
			if old.dir {
				return syscall.EISDIR
			}
			return syscall.ENOTDIR
		}
		if old.dir && len(old.kids.keys) > 0 {
			return syscall.ENOTEMPTY
		}
		fs.unref(old)
	}
	g := fs.newGrp()
	fs.set(td, tn, n, g)
	fs.set(fd, fn, nil, g)
	w.tracef("rename %s %s", from, to)
	return 0
}

func (fs *FS) unref(n *Inode) {
	if n.dir {
		return
	}
	n.nlink--
	if n.nlink <= 0 {
		fs.used -= int64(len(n.data))
	}
}

// FSLink makes a hard link.
func FSLink(from, to string) syscall.Errno {
	w := W
	p := w.cur.proc
	if ft := w.fsHook("fs.rename", p); ft != nil {
		return errnoOf(ft, syscall.EIO)
	}
	fs := p.host.fs
	n, e := fs.walk(splitPath(p.cwd, from))
	if e != 0 {
		return e
	}
	td, tn, e := fs.parent(splitPath(p.cwd, to))
	if e != 0 {
		return e
	}
	if _, ok := td.kids.get(tn); ok {
		return syscall.EEXIST
	}
	if n.dir {
		return syscall.EPERM
	}
	n.nlink++
	fs.set(td, tn, n, fs.newGrp())
	return 0
}

// FSRemove removes a file or an empty directory.
func FSRemove(path string) syscall.Errno {
	w := W
	p := w.cur.proc
	if ft := w.fsHook("fs.remove", p); ft != nil {
		return errnoOf(ft, syscall.EIO)
	}
	fs := p.host.fs
	d, name, e := fs.parent(splitPath(p.cwd, path))
	if e != 0 {
		return e
	}
	n, ok := d.kids.get(name)
	if !ok {
		return syscall.ENOENT
	}
	if n.dir && len(n.kids.keys) > 0 {
		return syscall.ENOTEMPTY
	}
	fs.unref(n)
	fs.set(d, name, nil, fs.newGrp())
	w.tracef("remove %s", path)
	return 0
}

// FSMkdir makes a directory.
func FSMkdir(path string, mode uint32) syscall.Errno {
	w := W
	p := w.cur.proc
	if ft := w.fsHook("fs.mkdir", p); ft != nil {
		return errnoOf(ft, syscall.EIO)
	}
	fs := p.host.fs
	d, name, e := fs.parent(splitPath(p.cwd, path))
	if e != 0 {
		if e == syscall.EISDIR {
			return syscall.EEXIST
		}
		return e
	}
	if _, ok := d.kids.get(name); ok {
		return syscall.EEXIST
	}
	fs.set(d, name, fs.newInode(true), fs.newGrp())
	return 0
}

// FSChmod changes a file's mode.
func FSChmod(path string, mode uint32) syscall.Errno {
	W.yield("fs")
	p := W.cur.proc
	n, e := p.host.fs.walk(splitPath(p.cwd, path))
	if e != 0 {
		return e
	}
	n.mode = mode & 0777
	return 0
}

// Chmod changes the open file's mode.
func (f *OpenFile) Chmod(mode uint32) {
	if f.n != nil {
		f.n.mode = mode & 0777
	}
}

// FSTruncate changes a file's size.
func FSTruncate(path string, sz int64) syscall.Errno {
	W.yield("fs")
	p := W.cur.proc
	n, e := p.host.fs.walk(splitPath(p.cwd, path))
	if e != 0 {
		return e
	}
	return p.host.fs.truncate(n, sz)
}

// Getwd returns the working directory.
func Getwd() string { return W.cur.proc.cwd }

// Chdir changes the working directory.
func Chdir(d string) syscall.Errno {
	p := W.cur.proc
	parts := splitPath(p.cwd, d)
	n, e := p.host.fs.walk(parts)
	if e != 0 {
		return e
	}
	if !n.dir {
		return syscall.ENOTDIR
	}
	p.cwd = "/" + strings.Join(parts, "/")
	return 0
}

// --- harness access: durable, fault-free, outside any process ---

// PutFile stores a durable file.
func (h *Host) PutFile(path string, data []byte) {
	fs := h.fs
	parts := splitPath("/", path)
	d := fs.root
	for _, e := range parts[:len(parts)-1] {
		k, ok := d.kids.get(e)
		if !ok {
			k = fs.newInode(true)
			d.kids.put(e, k)
		}
		d = k
	}
	n := fs.newInode(false)
	n.nlink = 1
	n.data = cloneBytes(data)
	n.dur = cloneBytes(data)
	nm := parts[len(parts)-1]
	if old, ok := d.kids.get(nm); ok {
		fs.unref(old)
	}
	fs.used += int64(len(data))
	d.kids.put(nm, n)
}

// PutPipe makes a named pipe; GetFile gives what was written into it.
func (h *Host) PutPipe(path string) {
	h.PutFile(path, nil)
	n, _ := h.fs.walk(splitPath("/", path))
	n.fifo = true
}

// IsPipe tells whether there is a named pipe.
func (h *Host) IsPipe(path string) bool {
	n, e := h.fs.walk(splitPath("/", path))
	return e == 0 && n.fifo
}

// GetFile returns a file's content.
func (h *Host) GetFile(path string) ([]byte, bool) {
	n, e := h.fs.walk(splitPath("/", path))
	if e != 0 || n.dir {
		return nil, false
	}
	c := cloneBytes(n.data)
	if c == nil {
		c = []byte{}
	}
	return c, true
}

// RemoveFile removes a file.
func (h *Host) RemoveFile(path string) {
	d, name, e := h.fs.parent(splitPath("/", path))
	if e == 0 {
		if n, ok := d.kids.get(name); ok {
			h.fs.unref(n)
		}
		d.kids.del(name)
	}
}

// Mkdir makes a durable directory.
func (h *Host) Mkdir(path string) {
	d := h.fs.root
	for _, e := range splitPath("/", path) {
		k, ok := d.kids.get(e)
		if !ok {
			k = h.fs.newInode(true)
			d.kids.put(e, k)
		}
		d = k
	}
}

// List returns the paths of all files under a directory, sorted.
func (h *Host) List(dir string) []string {
	n, e := h.fs.walk(splitPath("/", dir))
	if e != 0 {
		return nil
	}
	var out []string
	var rec func(pre string, n *Inode)
	rec = func(pre string, n *Inode) {
		for _, k := range sortedKeys(n) {
			c, _ := n.kids.get(k)
			if c.dir {
				rec(pre+k+"/", c)
			} else {
				out = append(out, pre+k)
			}
		}
	}
	rec("", n)
	return out
}

// SyncAll makes everything on the host durable (an orderly shutdown).
func (h *Host) SyncAll() {
	var rec func(n *Inode)
	rec = func(n *Inode) {
		if n.dir {
			for _, k := range sortedKeys(n) {
				c, _ := n.kids.get(k)
				rec(c)
			}
			return
		}
		n.dur = cloneBytes(n.data)
		n.dirty = false
	}
	rec(h.fs.root)
	h.fs.commit()
}

// SetCapacity limits the growth of the host's disk to extra more bytes (<0: unlimited).
func (h *Host) SetCapacity(extra int64) {
	if extra < 0 {
		h.fs.cap = -1
	} else {
		h.fs.cap = h.fs.used + extra
	}
}
