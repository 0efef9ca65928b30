package rt

import (
	"time"
	"unsafe"
)

// Epoch is the simulated wall-clock time at the start of a run.
var Epoch = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

// NowTime is the simulated wall clock.
func NowTime() time.Time { return Epoch.Add(time.Duration(W.now)) }

// Timer replaces time.Timer.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	tm   *timer
	f    func()
	task *Task
	per  int64
}

func chanPtr(c chan time.Time) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func (t *Timer) arm(d time.Duration) {
	w := W
	t.tm = w.at(w.now+int64(d), w.cur.proc, t.fire)
}

func (t *Timer) fire() {
	w := W
	if t.f != nil {
		x := t.task
		t.task = nil
		if x != nil && x.state == tsBlocked {
			w.ready(x)
		}
		return
	}
	st := w.chanOf(chanPtr(t.c), 1)
	if len(st.buf) < 1 {
		w.trySend(st, NowTime(), false)
	}
	if t.per > 0 {
		t.tm = w.at(w.now+t.per, t.tm.proc, t.fire)
	}
}

// NewTimer replaces time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	W.yield("timer")
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.arm(d)
	return t
}

func (t *Timer) prepare() {
	w := W
	f := t.f
	// The task exists from now on, so that only the creator happens before it.
	x := w.newTask(w.cur.proc, f)
	x.state = tsBlocked
	x.why = "timer func"
	t.task = x
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	W.yield("timer")
	t := &Timer{f: f}
	t.prepare()
	t.arm(d)
	return t
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	w := W
	w.yield("timer")
	ok := w.cancelTimer(t.tm)
	if t.f == nil {
		w.chanOf(chanPtr(t.c), 1).drain()
	}
	return ok
}

func (st *chanState) drain() {
	for i := range st.buf {
		st.buf[i] = message{}
	}
	st.ri += len(st.buf)
	st.buf = st.buf[:0]
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	w := W
	w.yield("timer")
	ok := w.cancelTimer(t.tm)
	if t.f != nil {
		if t.task == nil {
			t.prepare()
		}
	} else {
		w.chanOf(chanPtr(t.c), 1).drain()
	}
	t.arm(d)
	return ok
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	t *Timer
}

// NewTicker replaces time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := NewTimer(d)
	t.per = int64(d)
	return &Ticker{C: t.C, t: t}
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.t.per = 0; t.t.Stop() }

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) { t.t.per = int64(d); t.t.Reset(d) }

// After replaces time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
