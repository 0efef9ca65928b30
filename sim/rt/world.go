// Package rt is the deterministic simulator: a seeded scheduler for the tasks
// (goroutines) of simulated processes, a simulated clock, file systems, network
// and processes.  It is compiled without race instrumentation; the
// happens-before edges of the simulated primitives are annotated by hand, so a
// race-detector build reports exactly the races of the simulated program.
package rt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Fault is one injected fault of a plan: at the N-th event (1-based) of class
// Class in process Proc (a prefix; empty matches any) do Action.
type Fault struct {
	Class  string `json:"class"`
	Proc   string `json:"proc,omitempty"`
	N      int    `json:"n,omitempty"`
	AtNS   int64  `json:"at_ns,omitempty"` // class "time": simulated time
	Action string `json:"action"`
	Target string `json:"target,omitempty"`
	Arg    int64  `json:"arg,omitempty"`
	fired  bool
	count  int
}

func (f *Fault) String() string {
	return fmt.Sprintf("%s#%d@%s->%s(%s,%d)", f.Class, f.N, f.Proc, f.Action, f.Target, f.Arg)
}

// Config configures one run.
type Config struct {
	Seed       uint64
	Policy     string
	SwitchP    float64
	SchedLimit int // random scheduling decisions before the default order takes over; <0: no limit
	MaxSteps   int64
	MaxTicks   int64
	MaxTime    time.Duration
	StepNS     int64
	Faults     []*Fault
	Trace      bool
	NumCPU     int
	ReadChunk  int // >0: file reads return at most 1..ReadChunk bytes
	SizeScale  int64
	LatencyNS  [2]int64 // network latency range
	TearMode   int
}

type taskState uint8

const (
	tsRunnable taskState = iota
	tsRunning
	tsBlocked
	tsDone
)

// Task is a simulated goroutine.
type Task struct {
	id      int
	proc    *Proc
	wake    chan struct{}
	state   taskState
	why     string
	prio    int64
	dying   bool
	stalled bool // a timer makes it runnable again
	queued  bool // is in World.run
	// raceIgnore counts nested IgnoreSync sections.
	raceIgnore int
	acq        [2]unsafe.Pointer // addresses to acquire when resumed
	w          *waiter           // result of a blocking operation
	condArmed  bool
	consec     int
}

type timer struct {
	at   int64
	seq  int64
	fn   func()
	idx  int
	proc *Proc
}

// World is the state of one run.
type World struct {
	cfg       Config
	epoch     uint32
	now       int64
	seq       int64
	cur       *Task
	run       []*Task
	timers    []*timer
	steps     int64
	ticks     int64
	decis     int
	rng       *Rand // scheduling
	env       *Rand // environment choices (latency, chunk sizes, map orders)
	nextTask  int
	live      []*Task
	over      bool
	tearing   bool
	doneCh    chan struct{}
	hash      uint64
	shash     uint64
	trace     []string
	procs     []*Proc
	hosts     []*Host
	chans     pmap
	counters  smap
	Stats     smap
	faults    []*Fault
	haveSched bool
	net       netState
	verdict   string
	detail    string
	pctNext   int64
	pctLow    int64
	mapSeq    uint64
	raceBase  int
	starved   *Proc
	starvedT  int
	probeFns  []func()
	inTimer   int
	log       []string
}

// W is the current world.
var W *World

var epochCounter uint32

// Result summarises a finished run.
type Result struct {
	Verdict   string // "", "deadlock", "livelock", "timeout", "panic"
	Detail    string
	Hash      uint64
	SchedHash uint64
	Steps     int64
	Decisions int
	SimNS     int64
	Counters  map[string]int
	Stats     map[string]int
	Trace     []string
	Races     int
	Leaked    int
	Tasks     int
	FiredAll  []string
}

// Run executes main as the root task of a fresh world until it returns.
func Run(cfg Config, main func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	if cfg.MaxTicks == 0 {
		cfg.MaxTicks = 400_000_000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 24 * time.Hour
	}
	if cfg.StepNS == 0 {
		cfg.StepNS = 1000
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 4
	}
	if cfg.SizeScale == 0 {
		cfg.SizeScale = 1
	}
	if cfg.LatencyNS[1] == 0 {
		cfg.LatencyNS = [2]int64{100_000, 2_000_000}
	}
	epochCounter++
	w := &World{cfg: cfg, epoch: epochCounter, rng: NewRand(cfg.Seed), env: NewRand(cfg.Seed ^ 0xabcdef12345), doneCh: make(chan struct{}, 1), hash: 14695981039346656037, shash: 14695981039346656037}
	for _, f := range cfg.Faults {
		g := *f
		g.fired, g.count = false, 0
		w.faults = append(w.faults, &g)
		if g.Class == "sched" {
			w.haveSched = true
		}
	}
	w.raceBase = raceErrors()
	W = w
	hp := w.newProc(nil, "harness")
	for _, f := range w.faults {
		if f.Class == "time" {
			ff := f
			w.at(f.AtNS, nil, func() {
				if ff.Class == "time" { // not disarmed
					w.fire(ff, nil)
				}
			})
		}
	}
	t := w.newTask(hp, func() {
		main()
		w.cur.releaseMerge(up(hp.waitSync))
		w.finish("", "")
	})
	hp.initGlobalsBy(t)
	w.cur = t
	t.state = tsRunning
	raceDisable()
	t.wake <- struct{}{}
	watchdog := time.Duration(60) * time.Second
	tm := time.NewTimer(watchdog)
	last := w.steps
	lastTicks := w.ticks
	idle := 0
loop:
	for {
		select {
		case <-w.doneCh:
			break loop
		case <-tm.C:
			if w.steps == last && w.ticks == lastTicks {
				idle++
				if idle >= 2 {
					fmt.Fprintf(os.Stderr, "simulator watchdog: task blocked outside the simulator\n")
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					os.Stderr.Write(buf[:n])
					os.Exit(3)
				}
			} else {
				idle = 0
			}
			last, lastTicks = w.steps, w.ticks
			tm.Reset(watchdog)
		}
	}
	tm.Stop()
	raceEnable()
	races := raceErrors() - w.raceBase
	for _, p := range w.procs {
		if p.waitSync != nil {
			rawAcquire(up(p.waitSync))
		}
	}
	res := &Result{Verdict: w.verdict, Detail: w.detail, Hash: w.hash, SchedHash: w.shash, Steps: w.steps, Decisions: w.decis, SimNS: w.now, Trace: w.trace, Races: races, Tasks: w.nextTask}
	res.Counters = map[string]int{}
	for i, k := range w.counters.keys {
		res.Counters[k] = *w.counters.vals[i].(*int)
	}
	for _, p := range w.procs {
		if p.nsched > 0 {
			res.Counters["sched@"+p.name] += int(p.nsched)
		}
	}
	res.Stats = map[string]int{}
	for i, k := range w.Stats.keys {
		res.Stats[k] = *w.Stats.vals[i].(*int)
	}
	for _, f := range w.faults {
		if f.fired {
			res.FiredAll = append(res.FiredAll, f.Class+"/"+f.Action)
		}
	}
	// Tear down: unwind the remaining tasks one at a time.  In race builds they
	// stay parked (their deferred calls would run unsynchronised).
	left := 0
	for _, t := range w.live {
		if t.state != tsDone {
			left++
		}
	}
	res.Leaked = left
	if !RaceEnabled {
		w.tearing = true
		for _, t := range w.live {
			if t.state == tsDone {
				continue
			}
			t.dying = true
			w.cur = t
			t.wake <- struct{}{}
			<-w.doneCh
		}
		res.Leaked = 0
	}
	return res
}

func (w *World) finish(verdict, detail string) {
	if w.over {
		return
	}
	w.over = true
	w.verdict, w.detail = verdict, detail
	w.doneCh <- struct{}{}
	w.parkForever()
}

// parkForever never returns (the goroutine exits by Goexit at tear-down).
func (w *World) parkForever() {
	t := w.cur
	raceDisable()
	for {
		<-t.wake
		if t.dying {
			raceEnable()
			runtime.Goexit()
		}
	}
}

func (w *World) newTask(p *Proc, fn func()) *Task {
	t := &Task{id: w.nextTask, proc: p, wake: make(chan struct{}, 1), state: tsRunnable}
	w.nextTask++
	t.prio = int64(w.rng.Uint64() >> 1)
	w.live = append(w.live, t)
	if len(w.live) > 256 && len(w.live)&255 == 0 {
		k := w.live[:0]
		for _, x := range w.live {
			if x.state != tsDone {
				k = append(k, x)
			}
		}
		for i := len(k); i < len(w.live); i++ {
			w.live[i] = nil
		}
		w.live = k
	}
	p.ntasks++
	go w.taskMain(t, fn)
	return t
}

func (w *World) taskMain(t *Task, fn func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	normal, ended := false, false
	defer func() { // also runs when the deferred call below is unwound
		if ended {
			return
		}
		t.state = tsDone
		t.acq[0] = nil
		recover()
		raceDisable()
		w.doneCh <- struct{}{}
	}()
	defer func() {
		if t.dying || w.tearing {
			return
		}
		if !normal {
			if r := recover(); r != nil {
				if _, ok := r.(goexit); !ok {
					w.crashCurrent(fmt.Sprintf("panic: %v", r), string(debug.Stack()))
				}
			}
			// runtime.Goexit: an ordinary end of the task
		}
		ended = true
		w.taskEnd(t)
	}()
	if !t.dying {
		fn()
	}
	normal = true
}

type goexit struct{}

func (w *World) taskEnd(t *Task) {
	t.state = tsDone
	t.proc.ntasks--
	w.event('e', uint64(t.id))
	w.step()
	next := w.pick(nil)
	if next == nil {
		w.cur = t
		w.finishFrom(t)
		return
	}
	w.resume(next)
}

// finishFrom reports a deadlock from a task that has ended.
func (w *World) finishFrom(t *Task) {
	if w.over {
		return
	}
	w.over = true
	w.verdict, w.detail = "deadlock", w.describeBlocked()
	raceDisable()
	w.doneCh <- struct{}{}
}

func (w *World) describeBlocked() string {
	var b strings.Builder
	n := 0
	for _, t := range w.live {
		if t.state == tsBlocked && !t.proc.dead {
			n++
			if n <= 12 {
				fmt.Fprintf(&b, "[%s task %d: %s] ", t.proc.name, t.id, t.why)
			}
		}
	}
	return fmt.Sprintf("%d tasks blocked: %s", n, b.String())
}

func (w *World) resume(t *Task) {
	w.cur = t
	t.state = tsRunning
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

func (w *World) park(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	if t.dying {
		runtime.Goexit()
	}
	for i := range t.acq {
		if t.acq[i] != nil {
			t.acquire(t.acq[i])
			t.acq[i] = nil
		}
	}
}

// block suspends the current task until another makes it ready.
func (w *World) block(why string) {
	t := w.cur
	if w.tearing {
		runtime.Goexit()
	}
	t.state = tsBlocked
	t.why = why
	w.step()
	next := w.pick(nil)
	if next == nil {
		w.finish("deadlock", w.describeBlocked())
	}
	if next == t {
		t.state = tsRunning
		w.cur = t
		for i := range t.acq {
			if t.acq[i] != nil {
				t.acquire(t.acq[i])
				t.acq[i] = nil
			}
		}
		return
	}
	w.resume(next)
	w.park(t)
}

func (w *World) enqueue(t *Task) {
	if t.queued {
		panic("rt: task queued twice")
	}
	t.queued = true
	w.run = append(w.run, t)
}

func (w *World) ready(t *Task) {
	if t.state != tsBlocked || t.proc.dead {
		return
	}
	t.state = tsRunnable
	w.enqueue(t)
}

// Yield is a scheduling point.
func Yield() { W.yield("sched") }

func (w *World) yield(class string) {
	t := w.cur
	if w.tearing {
		runtime.Goexit()
	}
	w.step()
	if w.haveSched {
		w.hook("sched", nil)
	}
	t.proc.nsched++
	if len(w.run) == 0 && (len(w.timers) == 0 || w.timers[0].at > w.now) {
		return
	}
	next := w.pick(t)
	if next == t {
		t.state = tsRunning
		return
	}
	t.state = tsRunnable
	if !t.stalled && !t.queued { // a stalled task returns by a timer, which may have fired in pick
		w.enqueue(t)
	}
	w.resume(next)
	w.park(t)
}

func (w *World) step() {
	w.steps++
	w.now += w.cfg.StepNS
	if w.over {
		return
	}
	if w.steps > w.cfg.MaxSteps {
		w.finish("livelock", "step limit reached; "+w.describeRunnable())
	}
	if w.now > int64(w.cfg.MaxTime) {
		w.finish("timeout", fmt.Sprintf("simulated time limit reached; %s", w.describeRunnable()))
	}
}

func (w *World) describeRunnable() string {
	var b strings.Builder
	n := 0
	for _, t := range w.live {
		if t.state != tsDone && !t.proc.dead {
			n++
			if n <= 12 {
				fmt.Fprintf(&b, "[%s task %d: %s] ", t.proc.name, t.id, t.why)
			}
		}
	}
	return fmt.Sprintf("%d tasks alive: %s", n, b.String())
}

// Tick is called at every loop iteration of the simulated code.
func Tick() {
	w := W
	if w == nil {
		return
	}
	w.ticks++
	if w.ticks&0xffff == 0 {
		if w.tearing {
			runtime.Goexit()
		}
		if w.ticks > w.cfg.MaxTicks && !w.over {
			w.finish("livelock", fmt.Sprintf("loop iteration limit reached in process %s", w.cur.proc.name))
		}
		w.yield("tick")
	}
}

func (w *World) fireTimers() {
	for len(w.timers) > 0 && w.timers[0].at <= w.now {
		tm := w.timers[0]
		w.heapRemove(0)
		if tm.proc != nil && tm.proc.dead {
			continue
		}
		w.inTimer++
		tm.fn()
		w.inTimer--
	}
}

// pick chooses the next task to run; self is the current task if it may continue.
func (w *World) pick(self *Task) *Task {
	for {
		if w.over {
			return self
		}
		w.fireTimers()
		if self != nil && self.proc.dead {
			self = nil
		}
		n := len(w.run)
		if n == 0 {
			if self != nil && !w.isStalled(self) {
				return self
			}
			if self != nil {
				w.stall(self)
				self = nil
				continue
			}
			if len(w.timers) == 0 {
				return nil
			}
			if w.timers[0].at > w.now {
				w.now = w.timers[0].at
			}
			if w.now > int64(w.cfg.MaxTime) {
				w.finish("timeout", "simulated time limit reached; "+w.describeRunnable())
			}
			continue
		}
		i := w.choose(self, n)
		var t *Task
		if i == n {
			t = self
		} else {
			t = w.run[i]
			w.run[i] = w.run[n-1]
			w.run[n-1] = nil
			w.run = w.run[:n-1]
			t.queued = false
		}
		if t.proc.dead || t.state == tsDone {
			if t == self {
				self = nil
			}
			continue
		}
		if w.isStalled(t) {
			if t == self {
				self = nil
			}
			w.stall(t)
			continue
		}
		w.sevent(uint64(t.id))
		return t
	}
}

func (w *World) isStalled(t *Task) bool { return t.proc.stallUntil > w.now }

func (w *World) stall(t *Task) {
	if t.state == tsRunning {
		t.state = tsRunnable
	}
	tt := t
	t.stalled = true
	w.at(t.proc.stallUntil, t.proc, func() {
		tt.stalled = false
		w.enqueue(tt)
	})
}

// choose returns an index into w.run, or n for the current task.
func (w *World) choose(self *Task, n int) int {
	c := n
	if self != nil {
		c = n + 1
	}
	if c == 1 {
		return 0
	}
	w.decis++
	if w.cfg.SchedLimit >= 0 && w.decis > w.cfg.SchedLimit {
		// default order: keep running, else the oldest task, but stay fair
		if self != nil && self.consec < 5000 {
			self.consec++
			return n
		}
		if self != nil {
			self.consec = 0
		}
		b := 0
		for i := 1; i < n; i++ {
			if w.run[i].id < w.run[b].id {
				b = i
			}
		}
		if self == nil && n > 1 && w.decis&1023 == 0 {
			b = (w.decis >> 10) % n
		}
		return b
	}
	switch w.cfg.Policy {
	case "sticky":
		if self != nil && w.rng.Float() >= w.cfg.SwitchP {
			return n
		}
		return w.rng.Intn(n)
	case "pct":
		if self != nil {
			self.consec++
			if self.consec > 3000 {
				self.consec = 0
				return w.rng.Intn(n)
			}
			if w.rng.Float() < w.cfg.SwitchP {
				w.pctLow--
				self.prio = w.pctLow
			}
		}
		b := 0
		for i := 1; i < n; i++ {
			if w.run[i].prio > w.run[b].prio {
				b = i
			}
		}
		if self != nil && self.prio > w.run[b].prio {
			return n
		}
		return b
	case "fifo":
		if self != nil && w.rng.Float() >= w.cfg.SwitchP {
			return n
		}
		return w.minmax(n, false)
	case "lifo":
		if self != nil && w.rng.Float() >= w.cfg.SwitchP {
			return n
		}
		if w.decis&255 == 0 {
			return w.minmax(n, false)
		}
		return w.minmax(n, true)
	case "starve":
		// prefer every other task to one victim
		i := w.rng.Intn(c)
		for k := 0; k < 8; k++ {
			t := self
			if i < n {
				t = w.run[i]
			}
			if (t.id*2654435761>>4)%5 != w.starvedT%5 || w.decis&511 == 0 {
				return i
			}
			i = w.rng.Intn(c)
		}
		return i
	}
	return w.rng.Intn(c)
}

func (w *World) minmax(n int, max bool) int {
	b := 0
	for i := 1; i < n; i++ {
		if (w.run[i].id > w.run[b].id) == max {
			b = i
		}
	}
	return b
}

func (w *World) event(kind byte, v uint64) {
	h := w.hash
	h ^= uint64(kind)
	h *= 1099511628211
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	w.hash = h
}

func (w *World) sevent(v uint64) {
	h := w.shash
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	w.shash = h
	w.hash = w.hash*31 + h
}

func (w *World) tracef(f string, a ...any) {
	if w.cfg.Trace {
		pn := "-"
		if w.cur != nil {
			pn = w.cur.proc.name
		}
		w.trace = append(w.trace, fmt.Sprintf("%12.6fms %6d %-10s ", float64(w.now)/1e6, w.steps, pn)+fmt.Sprintf(f, a...))
	}
	s := f
	w.event('t', hashStr(s))
}

// Tracef adds a line to the trace.
func Tracef(f string, a ...any) { W.tracef(f, a...) }

func (w *World) stat(k string, n int) {
	*w.Stats.counter(k) += n
}

// Stat adds n to a named statistic of the run.
func Stat(k string, n int) { W.stat(k, n) }

// --- timers ---

func (w *World) at(at int64, p *Proc, fn func()) *timer {
	if at < w.now {
		at = w.now
	}
	w.seq++
	tm := &timer{at: at, seq: w.seq, fn: fn, proc: p}
	tm.idx = len(w.timers)
	w.timers = append(w.timers, tm)
	w.up(tm.idx)
	return tm
}

func (w *World) less(i, j int) bool {
	a, b := w.timers[i], w.timers[j]
	return a.at < b.at || a.at == b.at && a.seq < b.seq
}

func (w *World) swap(i, j int) {
	w.timers[i], w.timers[j] = w.timers[j], w.timers[i]
	w.timers[i].idx, w.timers[j].idx = i, j
}

func (w *World) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !w.less(i, p) {
			break
		}
		w.swap(i, p)
		i = p
	}
}

func (w *World) down(i int) {
	n := len(w.timers)
	for {
		l := 2*i + 1
		if l >= n {
			return
		}
		if r := l + 1; r < n && w.less(r, l) {
			l = r
		}
		if !w.less(l, i) {
			return
		}
		w.swap(i, l)
		i = l
	}
}

func (w *World) heapRemove(i int) {
	n := len(w.timers) - 1
	tm := w.timers[i]
	if i != n {
		w.swap(i, n)
	}
	w.timers[n] = nil
	w.timers = w.timers[:n]
	if i != n {
		w.down(i)
		w.up(i)
	}
	tm.idx = -1
}

func (w *World) cancelTimer(tm *timer) bool {
	if tm == nil || tm.idx < 0 {
		return false
	}
	w.heapRemove(tm.idx)
	return true
}

// --- happens-before annotations ---

func (t *Task) enter() {
	for i := 0; i < t.raceIgnore; i++ {
		raceEnable()
	}
}
func (t *Task) leave() {
	for i := 0; i < t.raceIgnore; i++ {
		raceDisable()
	}
}
func (t *Task) acquire(p unsafe.Pointer)      { t.enter(); rawAcquire(p); t.leave() }
func (t *Task) release(p unsafe.Pointer)      { t.enter(); rawRelease(p); t.leave() }
func (t *Task) releaseMerge(p unsafe.Pointer) { t.enter(); rawReleaseMerge(p); t.leave() }

// IgnoreSync and UnignoreSync bracket library code whose internal
// synchronisation must not order simulated tasks (fmt's buffer pool).
func IgnoreSync() {
	if W != nil && W.cur != nil {
		W.cur.raceIgnore++
		raceDisable()
	}
}

// UnignoreSync ends an IgnoreSync section.
func UnignoreSync() {
	if W != nil && W.cur != nil {
		W.cur.raceIgnore--
		raceEnable()
	}
}

// --- tasks ---

// Go starts a task in the current process.
func Go(fn func()) {
	w := W
	if w.tearing {
		runtime.Goexit()
	}
	t := w.newTask(w.cur.proc, fn)
	w.event('g', uint64(t.id))
	w.enqueue(t)
	w.yield("go")
}

// BlockForever blocks the current task for good.
func BlockForever() {
	W.block("select {}")
}

// Now returns simulated nanoseconds since the start of the run.
func Now() int64 { return W.now }

// Steps returns the number of scheduling steps so far.
func Steps() int64 { return W.steps }

// Sleep suspends the current task.
func Sleep(d time.Duration) {
	w := W
	if w.tearing {
		runtime.Goexit()
	}
	if d <= 0 {
		w.yield("sleep")
		return
	}
	t := w.cur
	w.at(w.now+int64(d), t.proc, func() { w.ready(t) })
	w.block("sleep")
}

// Gosched yields.
func Gosched() { W.yield("gosched") }

// NumCPU is the simulated number of processors.
func NumCPU() int { return W.cfg.NumCPU }

// NumGoroutine is the number of tasks of the current process.
func NumGoroutine() int { return W.cur.proc.ntasks }

// Env returns the environment's random generator.
func Env() *Rand { return W.env }

// Quiesce lets every other task run until none can for d of simulated time.
func Quiesce(d time.Duration) { Sleep(d) }

// TasksOf returns the number of live tasks of process p other than the current one.
func TasksOf(p *Proc) int {
	n := 0
	for _, t := range W.live {
		if t.proc == p && t.state != tsDone && t != W.cur {
			n++
		}
	}
	return n
}

// Fail ends the run with a verdict.
func Fail(verdict, detail string) { W.finish(verdict, detail) }

// Races returns the number of race reports so far in this run.
func Races() int { return raceErrors() - W.raceBase }

// Publish and Observe order what the harness does in different tasks for the
// race detector: what came before a Publish of x happens before what follows
// an Observe of it. They do nothing else, so they are not for the code under
// test.
func Publish(x *byte) {
	if RaceEnabled && W.cur != nil {
		W.cur.releaseMerge(unsafe.Pointer(x))
	}
}

// Observe is the other half of Publish.
func Observe(x *byte) {
	if RaceEnabled && W.cur != nil {
		W.cur.acquire(unsafe.Pointer(x))
	}
}
