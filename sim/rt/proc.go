package rt

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
)

// Host is a simulated machine.
type Host struct {
	Name  string
	IPs   []string // first is loopback
	fs    *FS
	procs []*Proc
	ports int
	down  bool
	lost  int
}

// PowerLosses counts the machine's power losses.
func (h *Host) PowerLosses() int { return h.lost }

// Proc is a simulated process.
type Proc struct {
	id         int
	name       string
	host       *Host
	bin        *Binary
	args       []string
	env        []string
	cwd        string
	globals    []any
	ginit      []bool
	dead       bool
	code       int
	killed     string // reason, if killed
	crash      string // panic or runtime failure
	stack      string
	out, errb  []byte
	stdin      []byte
	ntasks     int
	nsched     int64
	waiters    []*Task
	files      []*OpenFile
	stallUntil int64
	locals     smap
	onexit     []func()
	heldOut    *[]byte
	logs       []string
	nfiles     int
	maxFiles   int
	heldErr    *[]byte
	nchild     int
	outPipe    *pipe
	errPipe    *pipe
	waitSync   *syncAddr
}

// Binary is a program that can be run as a process.
type Binary struct {
	Name string
	Main func()
	Pkgs []string
}

var binaries []*Binary

// RegisterBinary registers a program.
func RegisterBinary(name string, main func(), pkgs ...string) {
	binaries = append(binaries, &Binary{Name: name, Main: main, Pkgs: pkgs})
}

func findBinary(name string) *Binary {
	for _, b := range binaries {
		if b.Name == name {
			return b
		}
	}
	return nil
}

// --- package-level variables ---

type globalDef struct {
	pkg  string
	name string
	init func() any
}

type initDef struct {
	pkg string
	fn  func()
}

var globalDefs []*globalDef
var initDefs []*initDef
var libPkgs []string

// RegisterLibPkgs names the packages of harness processes, in dependency order.
func RegisterLibPkgs(p ...string) { libPkgs = p }

// RegisterInit registers a package's init function.
func RegisterInit(pkg string, fn func()) int {
	initDefs = append(initDefs, &initDef{pkg, fn})
	return 0
}

// RegGlobal registers a package-level variable.
func RegGlobal(pkg, name string, init func() any) int {
	globalDefs = append(globalDefs, &globalDef{pkg, name, init})
	return len(globalDefs) - 1
}

// GlobalSlot returns the current process's instance of a variable (a pointer).
func GlobalSlot(id int) any {
	if W == nil || W.cur == nil {
		panic("package variable used outside a simulated process: " + globalDefs[id].pkg + "." + globalDefs[id].name)
	}
	p := W.cur.proc
	for len(p.globals) <= id {
		p.globals = append(p.globals, nil)
		p.ginit = append(p.ginit, false)
	}
	if !p.ginit[id] {
		p.ginit[id] = true
		p.globals[id] = globalDefs[id].init()
	}
	return p.globals[id]
}

// Global is a per-process package-level variable.
type Global[T any] struct{ id int }

// NewGlobal defines a per-process variable.
func NewGlobal[T any](pkg, name string, init func() T) Global[T] {
	return Global[T]{RegGlobal(pkg, name, func() any {
		p := new(T)
		if init != nil {
			*p = init()
		}
		return p
	})}
}

// P returns the address of the current process's instance.
func (g Global[T]) P() *T { return GlobalSlot(g.id).(*T) }

func (p *Proc) initGlobals(pkgs []string) {
	for _, pk := range pkgs {
		for id, d := range globalDefs {
			if d.pkg == pk {
				GlobalSlot(id)
			}
		}
		for _, d := range initDefs {
			if d.pkg == pk {
				d.fn()
			}
		}
	}
}

// initGlobalsBy makes t initialise the library packages' variables before its body runs.
func (p *Proc) initGlobalsBy(t *Task) {}

// InitLib initialises the library packages' variables of the current process.
func InitLib() { W.cur.proc.initGlobals(libPkgs) }

// Local returns (creating it) a named per-process value.
func Local(key string, mk func() any) any {
	p := W.cur.proc
	if v, ok := p.locals.get(key); ok {
		return v
	}
	v := mk() // packages using this are built without race hooks
	p.locals.put(key, v)
	return v
}

// --- hosts and processes ---

// NewHost adds a machine.
func NewHost(name string, ips ...string) *Host {
	h := &Host{Name: name, IPs: ips, fs: newFS(), ports: 40000}
	W.hosts = append(W.hosts, h)
	return h
}

// HostOf returns the current process's host.
func HostOf() *Host { return W.cur.proc.host }

func (w *World) newProc(h *Host, name string) *Proc {
	if h == nil {
		h = &Host{Name: "harness", IPs: []string{"127.0.0.1", "10.9.9.9"}, fs: newFS(), ports: 50000}
		w.hosts = append(w.hosts, h)
	}
	p := &Proc{id: len(w.procs), name: name, host: h, cwd: "/", waitSync: newSync()}
	w.procs = append(w.procs, p)
	h.procs = append(h.procs, p)
	return p
}

// Cur returns the current process.
func Cur() *Proc { return W.cur.proc }

// Name returns the process name.
func (p *Proc) Name() string { return p.name }

// Host returns the process's machine.
func (p *Proc) Host() *Host { return p.host }

// Args returns the command line.
func (p *Proc) Args() []string { return p.args }

// Dead tells whether the process has ended.
func (p *Proc) Dead() bool { return p.dead }

// ExitCode is the exit code of an ended process (-1 if killed).
func (p *Proc) ExitCode() int { return p.code }

// CrashInfo describes a panic or runtime failure that ended the process.
func (p *Proc) CrashInfo() (string, string) { return p.crash, p.stack }

// Killed tells why the process was killed, if it was.
func (p *Proc) Killed() string { return p.killed }

// Stdout returns what the process wrote to standard output.
func (p *Proc) Stdout() string { return string(cloneBytes(p.out)) }

// Stderr returns what the process wrote to standard error (including its log).
func (p *Proc) Stderr() string { return string(cloneBytes(p.errb)) }

// MaxOpenFiles is the largest number of files the process had open at once.
func (p *Proc) MaxOpenFiles() int { return p.maxFiles }

// StartOpts are options of Start.
type StartOpts struct {
	Cwd      string
	Env      []string
	Combined *[]byte
	Stdout   *[]byte
	Stderr   *[]byte
	OutPipe  *OpenFile // write ends of pipes
	ErrPipe  *OpenFile
	Stdin    []byte
	Fn       func() // run this instead of a registered binary
}

// Start starts a program as a new process on host h.
func Start(h *Host, name, bin string, args []string, o StartOpts) (*Proc, error) {
	w := W
	var b *Binary
	if o.Fn == nil {
		b = findBinary(bin)
		if b == nil {
			return nil, syscall.ENOENT
		}
	}
	p := w.newProc(h, name)
	p.bin = b
	p.args = make([]string, 1+len(args)) // not append or copy, which the runtime announces to the race detector
	p.args[0] = bin
	for i := range args {
		p.args[i+1] = args[i]
	}
	p.cwd = o.Cwd
	if p.cwd == "" {
		p.cwd = "/"
	}
	p.env = o.Env
	p.heldOut, p.heldErr = o.Stdout, o.Stderr
	if o.Combined != nil {
		p.heldOut, p.heldErr = o.Combined, o.Combined
	}
	if o.OutPipe != nil {
		p.outPipe = o.OutPipe.pw
	}
	if o.ErrPipe != nil {
		p.errPipe = o.ErrPipe.pw
	}
	p.stdin = o.Stdin
	w.tracef("start process %s: %s", name, strings.Join(p.args, " "))
	w.event('p', hashStr(name))
	t := w.newTask(p, func() {
		if o.Fn != nil {
			p.initGlobals(libPkgs)
			o.Fn()
		} else {
			p.initGlobals(b.Pkgs)
			b.Main()
		}
		w.exitProc(p, 0, "", "")
		w.abandon()
	})
	w.enqueue(t)
	w.yield("start")
	return p, nil
}

// Exit ends the current process.
func Exit(code int) {
	w := W
	if w.tearing {
		runtime.Goexit()
	}
	w.exitProc(w.cur.proc, code, "", "")
	w.abandon()
}

// abandon leaves the current task of a dead process for good.
func (w *World) abandon() {
	if w.tearing {
		runtime.Goexit()
	}
	t := w.cur
	t.state = tsBlocked
	t.why = "dead"
	w.step()
	next := w.pick(nil)
	if next == nil {
		w.finish("deadlock", w.describeBlocked())
	}
	w.resume(next)
	w.parkForeverAs(t)
}

func (w *World) parkForeverAs(t *Task) {
	raceDisable()
	for {
		<-t.wake
		if t.dying {
			raceEnable()
			runtime.Goexit()
		}
	}
}

func (w *World) crashCurrent(msg, stack string) {
	if w.tearing {
		runtime.Goexit()
	}
	p := w.cur.proc
	if p.name == "harness" {
		w.finish("harness-panic", msg+"\n"+stack)
		return
	}
	p.crash, p.stack = msg, stack
	p.errWrite([]byte(msg + "\n"))
	w.exitProc(p, 2, "", msg)
	w.abandon()
}

// fatal ends the current process like a fatal runtime error.
func (w *World) fatal(msg string) {
	w.crashCurrent("fatal error: "+msg, "")
}

// Fatal ends the current process like a fatal runtime error.
func Fatal(msg string) { W.fatal(msg) }

func (p *Proc) errWrite(b []byte) {
	if len(p.errb) < 1<<16 {
		p.errb = append(p.errb, b...)
	}
	if p.errPipe != nil {
		p.errPipe.buf = append(p.errPipe.buf, b...)
		p.errPipe.wake()
	}
	if p.heldErr != nil {
		*p.heldErr = append(*p.heldErr, b...)
	}
}

func (p *Proc) outWrite(b []byte) {
	if len(p.out) < 1<<22 {
		p.out = append(p.out, b...)
	}
	if p.outPipe != nil {
		p.outPipe.buf = append(p.outPipe.buf, b...)
		p.outPipe.wake()
	}
	if p.heldOut != nil {
		*p.heldOut = append(*p.heldOut, b...)
	}
}

// exitProc marks a process dead; its tasks never run again.
func (w *World) exitProc(p *Proc, code int, killed, crash string) {
	if p.dead || w.tearing {
		return
	}
	p.dead = true
	p.code = code
	p.killed = killed
	w.event('x', uint64(p.id)<<8|uint64(uint8(code)))
	if killed != "" {
		w.tracef("process %s killed: %s", p.name, killed)
	} else if crash != "" {
		w.tracef("process %s crashed: %s", p.name, crash)
	} else {
		w.tracef("process %s exits with code %d", p.name, code)
	}
	k := w.run[:0]
	for _, t := range w.run {
		if t.proc != p {
			k = append(k, t)
		}
	}
	for i := len(k); i < len(w.run); i++ {
		w.run[i] = nil
	}
	w.run = k
	for _, f := range p.files {
		f.closed = true
		f.release()
	}
	p.files = nil
	for _, pp := range []*pipe{p.outPipe, p.errPipe} {
		if pp != nil {
			pp.wclosed = true
			pp.wake()
		}
	}
	w.net.procDied(w, p)
	if w.cur != nil && w.cur.proc == p && p.waitSync != nil {
		w.cur.releaseMerge(up(p.waitSync))
	}
	for _, t := range p.waiters {
		w.ready(t)
	}
	p.waiters = nil
}

// Kill kills a process (as by SIGKILL).
func Kill(p *Proc, why string) {
	w := W
	if p.dead {
		return
	}
	w.exitProc(p, -1, why, "")
	if w.cur.proc == p && w.inTimer == 0 {
		w.abandon()
	}
}

// PowerLoss takes a machine down: every process dies and what was not durable
// is torn or lost.
func PowerLoss(h *Host) {
	w := W
	w.tracef("power loss on %s", h.Name)
	h.lost++
	self := false
	for _, p := range h.procs {
		if !p.dead {
			if w.cur.proc == p && w.inTimer == 0 {
				self = true
			}
			w.exitProc(p, -1, "power loss", "")
		}
	}
	h.fs.powerLoss(w)
	if self {
		w.abandon()
	}
}

// WaitProc waits for a process to end.
func WaitProc(p *Proc) {
	w := W
	w.yield("wait")
	for !p.dead {
		p.waiters = append(p.waiters, w.cur)
		w.block("wait for process " + p.name)
	}
	if p.waitSync != nil {
		w.cur.acquire(up(p.waitSync))
	}
}

// WaitProcFor waits for a process to end, for at most ns nanoseconds.
func WaitProcFor(p *Proc, ns int64) bool {
	w := W
	w.yield("wait")
	end := w.now + ns
	var tm *timer
	t := w.cur
	if !p.dead {
		tm = w.at(end, t.proc, func() { w.ready(t) })
	}
	for !p.dead && w.now < end {
		p.waiters = append(p.waiters, t)
		w.block("wait for process " + p.name)
	}
	w.cancelTimer(tm)
	if p.dead && p.waitSync != nil {
		t.acquire(up(p.waitSync))
	}
	return p.dead
}

// LogLine is called by the simulated log package.
func LogLine(s string) {
	w := W
	p := w.cur.proc
	p.errWrite([]byte(s))
	w.tracef("log: %s", strings.TrimSpace(s))
	w.yield("log")
}

// --- faults ---

// count counts an event of a class in the current process and returns the
// fault to inject, if any.
func (w *World) hook(class string, p *Proc) *Fault {
	if p == nil {
		p = w.cur.proc
	}
	if class != "sched" {
		key := class + "@" + p.name
		*w.counters.counter(key)++
	}
	for _, f := range w.faults {
		if f.fired || f.Class == "time" {
			continue
		}
		if f.Class != class && !(strings.HasSuffix(f.Class, ".*") && strings.HasPrefix(class, f.Class[:len(f.Class)-1])) {
			continue
		}
		if f.Proc != "" && !procMatch(p.name, f.Proc) {
			continue
		}
		f.count++
		if f.count >= f.N {
			if w.fire(f, p) {
				return f
			}
		}
	}
	return nil
}

func procMatch(name, pat string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(name, pat[:len(pat)-1])
	}
	return name == pat
}

// fire executes a fault; it reports whether the caller must act on it.
func (w *World) fire(f *Fault, p *Proc) bool {
	if f.fired {
		return false
	}
	f.fired = true
	w.stat("fault:"+f.Action, 1)
	w.tracef("fault %s", f.String())
	w.event('f', hashStr(f.Action))
	target := p
	if f.Target != "" {
		target = nil
		for i := len(w.procs) - 1; i >= 0; i-- {
			if procMatch(w.procs[i].name, f.Target) && !w.procs[i].dead {
				target = w.procs[i]
				break
			}
		}
	}
	switch f.Action {
	case "crash":
		if target != nil {
			Kill(target, "injected crash")
		}
		return false
	case "powerloss":
		if target != nil {
			PowerLoss(target.host)
		}
		return false
	case "stall":
		if target != nil {
			target.stallUntil = w.now + f.Arg
		}
		return false
	case "partition":
		if target != nil {
			w.net.partition(w, target.host, f.Arg)
		}
		return false
	case "resetconns":
		if target != nil {
			w.net.resetConns(w, target)
		}
		return false
	case "call":
		for _, c := range callbacks {
			if c.name == f.Target {
				c.fn(f)
			}
		}
		return false
	}
	return true
}

type callback struct {
	name string
	fn   func(*Fault)
}

var callbacks []callback

// SetStall stalls a process for ns.
func SetStall(p *Proc, ns int64) { p.stallUntil = W.now + ns }

// FindProc returns the latest process with a name.
func FindProc(name string) *Proc {
	for i := len(W.procs) - 1; i >= 0; i-- {
		if W.procs[i].name == name {
			return W.procs[i]
		}
	}
	return nil
}

// AllProcs returns every process started in the run, the harness first.
func AllProcs() []*Proc { return W.procs }

// PrintStack is a debugging aid.
func PrintStack() string {
	b := make([]byte, 1<<16)
	return fmt.Sprintf("%s", b[:runtime.Stack(b, false)])
}

// FaultFired tells whether any fault of the plan with this action has fired.
func FaultFired(action string) bool {
	for _, f := range W.faults {
		if f.fired && (action == "" || f.Action == action) {
			return true
		}
	}
	return false
}

// FaultsPending tells whether some fault has not fired yet.
func FaultsPending() bool {
	for _, f := range W.faults {
		if !f.fired && f.Class != "disarmed" {
			return true
		}
	}
	return false
}

// DisarmFaults stops all faults that have not fired.
func DisarmFaults() {
	for _, f := range W.faults {
		if !f.fired {
			f.Class = "disarmed"
		}
	}
	W.haveSched = false
}

// ID is the process number.
func (p *Proc) ID() int { return p.id }

// HasBinary tells whether a program exists.
func HasBinary(name string) bool { return findBinary(name) != nil }

// NextChild numbers the children of the current process.
func NextChild() int {
	p := W.cur.proc
	p.nchild++
	return p.nchild
}
