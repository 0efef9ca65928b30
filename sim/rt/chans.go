package rt

import (
	"runtime"
	"unsafe"
)

// Channels: the real channel value is only an identity and a capacity; its
// simulated state lives in a side table.

type syncAddr struct{ x [2]uint64 }

type message struct {
	v  any
	s  *syncAddr // released by the sender, acquired by the receiver
	rs *syncAddr // released by the receiver, acquired by a waiting sender
}

type waiter struct {
	t    *Task
	m    message
	rel  *syncAddr // released by a waiting receiver before blocking
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	fired bool
	idx   int
	w     *waiter
}

type chanState struct {
	cap    int
	closed bool
	cs     *syncAddr
	buf    []message
	slots  []*syncAddr
	si, ri int
	recvq  []*waiter
	sendq  []*waiter
}

func newSync() *syncAddr {
	if RaceEnabled {
		return &syncAddr{}
	}
	return nil
}

func up(s *syncAddr) unsafe.Pointer { return unsafe.Pointer(s) }

func (w *World) chanOf(p unsafe.Pointer, c int) *chanState {
	st, ok := w.chans.get(p)
	if !ok {
		st = &chanState{cap: c}
		if RaceEnabled {
			for i := 0; i < c; i++ {
				st.slots = append(st.slots, newSync())
			}
		}
		w.chans.put(p, st)
	}
	return st
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if x.done || x.t.proc.dead || x.sel != nil && x.sel.fired {
			continue
		}
		return x
	}
	return nil
}

func (w *World) fireWaiter(x *waiter, ok bool) {
	x.done = true
	x.ok = ok
	if x.sel != nil {
		x.sel.fired = true
		x.sel.idx = x.idx
		x.sel.w = x
	}
	w.ready(x.t)
}

// trySend attempts a send; it reports whether it completed.
func (w *World) trySend(st *chanState, v any, annotate bool) bool {
	t := w.cur
	if st.closed {
		panic(plainError("send on closed channel"))
	}
	if r := popWaiter(&st.recvq); r != nil {
		m := message{v: v}
		if RaceEnabled && annotate {
			m.s = newSync()
			t.release(up(m.s))
			if st.cap == 0 && r.rel != nil {
				t.acquire(up(r.rel))
			}
			r.t.acq[0] = up(m.s)
		}
		r.m = m
		w.fireWaiter(r, true)
		return true
	}
	if len(st.buf) < st.cap {
		m := message{v: v}
		if RaceEnabled && annotate {
			m.s = newSync()
			sl := st.slots[st.si%st.cap]
			t.acquire(up(sl))
			t.release(up(m.s))
		}
		st.si++
		st.buf = append(st.buf, m)
		return true
	}
	return false
}

func (w *World) tryRecv(st *chanState) (v any, ok, done bool) {
	t := w.cur
	if len(st.buf) > 0 {
		m := st.buf[0]
		st.buf[0] = message{}
		st.buf = st.buf[1:]
		if RaceEnabled {
			if m.s != nil {
				t.acquire(up(m.s))
			}
			sl := st.slots[st.ri%st.cap]
			t.releaseMerge(up(sl))
			st.ri++
			if s := popWaiter(&st.sendq); s != nil {
				st.buf = append(st.buf, s.m)
				st.si++
				s.t.acq[0] = up(sl)
				w.fireWaiter(s, true)
			}
		} else if s := popWaiter(&st.sendq); s != nil {
			st.buf = append(st.buf, s.m)
			w.fireWaiter(s, true)
		}
		return m.v, true, true
	}
	if s := popWaiter(&st.sendq); s != nil {
		if RaceEnabled {
			if s.m.s != nil {
				t.acquire(up(s.m.s))
			}
			rs := newSync()
			t.release(up(rs))
			s.t.acq[0] = up(rs)
		}
		w.fireWaiter(s, true)
		return s.m.v, true, true
	}
	if st.closed {
		if st.cs != nil {
			t.acquire(up(st.cs))
		}
		return nil, false, true
	}
	return nil, false, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// ChanSend sends on a channel.
func ChanSend(p unsafe.Pointer, c int, v any) {
	w := W
	w.yield("chan")
	if p == nil {
		w.block("send on nil channel")
	}
	st := w.chanOf(p, c)
	if w.trySend(st, v, true) {
		return
	}
	t := w.cur
	x := &waiter{t: t, m: message{v: v}}
	if RaceEnabled {
		x.m.s = newSync()
		t.release(up(x.m.s))
	}
	st.sendq = append(st.sendq, x)
	w.block("chan send")
	if !x.ok {
		panic(plainError("send on closed channel"))
	}
}

// ChanRecv receives from a channel.
func ChanRecv(p unsafe.Pointer, c int) (any, bool) {
	w := W
	w.yield("chan")
	if p == nil {
		w.block("receive from nil channel")
	}
	st := w.chanOf(p, c)
	if v, ok, done := w.tryRecv(st); done {
		return v, ok
	}
	t := w.cur
	x := &waiter{t: t}
	if RaceEnabled {
		x.rel = newSync()
		t.release(up(x.rel))
	}
	st.recvq = append(st.recvq, x)
	w.block("chan receive")
	return x.m.v, x.ok
}

// ChanClose closes a channel.
func ChanClose(p unsafe.Pointer, c int) {
	w := W
	w.yield("chan")
	if p == nil {
		panic(plainError("close of nil channel"))
	}
	w.closeState(w.chanOf(p, c), true)
}

func (w *World) closeState(st *chanState, annotate bool) {
	if st.closed {
		panic(plainError("close of closed channel"))
	}
	st.closed = true
	if RaceEnabled && annotate {
		st.cs = newSync()
		w.cur.release(up(st.cs))
	}
	for r := popWaiter(&st.recvq); r != nil; r = popWaiter(&st.recvq) {
		if st.cs != nil {
			r.t.acq[0] = up(st.cs)
		}
		r.m = message{}
		w.fireWaiter(r, false)
	}
	for s := popWaiter(&st.sendq); s != nil; s = popWaiter(&st.sendq) {
		w.fireWaiter(s, false)
	}
}

// closeRaw closes a channel from the simulator (no task, no ordering).
func (w *World) closeRaw(p unsafe.Pointer, c int) {
	st := w.chanOf(p, c)
	if !st.closed {
		w.closeState(st, false)
	}
}

// ChanLenOf returns the number of buffered messages.
func ChanLenOf(p unsafe.Pointer, c int) int {
	w := W
	w.yield("chan")
	if p == nil {
		return 0
	}
	return len(w.chanOf(p, c).buf)
}

// SelCase is one case of a select statement.
type SelCase struct {
	send bool
	p    unsafe.Pointer
	c    int
	v    any
	ok   bool
}

// Sel is a select statement in execution.
type Sel struct {
	cases []*SelCase
	deflt bool
}

// NewSel starts a select statement.
func NewSel(hasDefault bool) *Sel { return &Sel{deflt: hasDefault} }

// AddRecv adds a receive case.
func (s *Sel) AddRecv(p unsafe.Pointer, c int) *SelCase {
	k := &SelCase{p: p, c: c}
	s.cases = append(s.cases, k)
	return k
}

// AddSend adds a send case.
func (s *Sel) AddSend(p unsafe.Pointer, c int, v any) {
	s.cases = append(s.cases, &SelCase{send: true, p: p, c: c, v: v})
}

// Result returns the received value.
func (k *SelCase) Result() (any, bool) { return k.v, k.ok }

// Do executes the select statement and returns the index of the chosen case,
// or -1 for default.
func (s *Sel) Do() int {
	w := W
	w.yield("select")
	n := len(s.cases)
	if n > 0 {
		start := w.env.Intn(n)
		for j := 0; j < n; j++ {
			i := (start + j) % n
			k := s.cases[i]
			if k.p == nil {
				continue
			}
			st := w.chanOf(k.p, k.c)
			if k.send {
				if w.trySend(st, k.v, true) {
					w.event('s', uint64(i))
					return i
				}
			} else if v, ok, done := w.tryRecv(st); done {
				k.v, k.ok = v, ok
				w.event('s', uint64(i))
				return i
			}
		}
	}
	if s.deflt {
		return -1
	}
	t := w.cur
	ss := &selState{}
	for i, k := range s.cases {
		if k.p == nil {
			continue
		}
		st := w.chanOf(k.p, k.c)
		x := &waiter{t: t, sel: ss, idx: i}
		if RaceEnabled {
			x.rel = newSync()
			t.release(up(x.rel))
		}
		if k.send {
			x.m = message{v: k.v}
			if RaceEnabled {
				x.m.s = x.rel
			}
			st.sendq = append(st.sendq, x)
		} else {
			st.recvq = append(st.recvq, x)
		}
	}
	w.block("select")
	if !ss.fired {
		runtime.Goexit()
	}
	k := s.cases[ss.idx]
	if k.send {
		if !ss.w.ok {
			panic(plainError("send on closed channel"))
		}
	} else {
		k.v, k.ok = ss.w.m.v, ss.w.ok
	}
	return ss.idx
}
