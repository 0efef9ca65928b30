package rt

import (
	"unsafe"
)

// Synchronisation primitives; package zzsim/std/sync re-exports them.

type waitq struct{ q []*Task }

func (q *waitq) pop() *Task {
	for len(q.q) > 0 {
		t := q.q[0]
		q.q[0] = nil
		q.q = q.q[1:]
		if t.proc.dead || t.state != tsBlocked {
			continue
		}
		return t
	}
	return nil
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	ep     uint32
	locked bool
	q      *waitq
	s      [2]uint64
}

func (m *Mutex) st() {
	if m.ep != W.epoch {
		m.ep = W.epoch
		m.locked = false
		m.q = &waitq{}
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	w := W
	w.yield("lock")
	m.st()
	for m.locked {
		m.q.q = append(m.q.q, w.cur)
		w.block("mutex lock")
	}
	m.locked = true
	w.cur.acquire(unsafe.Pointer(&m.s))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	w := W
	w.yield("lock")
	m.st()
	if m.locked {
		return false
	}
	m.locked = true
	w.cur.acquire(unsafe.Pointer(&m.s))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	w := W
	m.st()
	if !m.locked {
		w.fatal("sync: unlock of unlocked mutex")
	}
	w.cur.release(unsafe.Pointer(&m.s))
	m.locked = false
	if t := m.q.pop(); t != nil {
		w.ready(t)
	}
	w.yield("unlock")
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	ep      uint32
	writer  bool
	readers int
	wwait   int
	q       *waitq
	rs, ws  [2]uint64
}

func (m *RWMutex) st() {
	if m.ep != W.epoch {
		m.ep = W.epoch
		m.writer, m.readers, m.wwait = false, 0, 0
		m.q = &waitq{}
	}
}

func (m *RWMutex) wakeAll() {
	for t := m.q.pop(); t != nil; t = m.q.pop() {
		W.ready(t)
	}
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	w := W
	w.yield("lock")
	m.st()
	m.wwait++
	for m.writer || m.readers > 0 {
		m.q.q = append(m.q.q, w.cur)
		w.block("rwmutex lock")
	}
	m.wwait--
	m.writer = true
	w.cur.acquire(unsafe.Pointer(&m.rs))
	w.cur.acquire(unsafe.Pointer(&m.ws))
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	w := W
	w.yield("lock")
	m.st()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	w.cur.acquire(unsafe.Pointer(&m.rs))
	w.cur.acquire(unsafe.Pointer(&m.ws))
	return true
}

// Unlock unlocks for writing.
func (m *RWMutex) Unlock() {
	w := W
	m.st()
	if !m.writer {
		w.fatal("sync: Unlock of unlocked RWMutex")
	}
	w.cur.release(unsafe.Pointer(&m.rs))
	w.cur.release(unsafe.Pointer(&m.ws))
	m.writer = false
	m.wakeAll()
	w.yield("unlock")
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	w := W
	w.yield("lock")
	m.st()
	for m.writer || m.wwait > 0 {
		m.q.q = append(m.q.q, w.cur)
		w.block("rwmutex rlock")
	}
	m.readers++
	w.cur.acquire(unsafe.Pointer(&m.rs))
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	w := W
	w.yield("lock")
	m.st()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	w.cur.acquire(unsafe.Pointer(&m.rs))
	return true
}

// RUnlock unlocks for reading.
func (m *RWMutex) RUnlock() {
	w := W
	m.st()
	if m.readers <= 0 {
		w.fatal("sync: RUnlock of unlocked RWMutex")
	}
	w.cur.releaseMerge(unsafe.Pointer(&m.ws))
	m.readers--
	m.wakeAll()
	w.yield("unlock")
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	ep uint32
	n  int
	q  *waitq
	s  [2]uint64
}

func (g *WaitGroup) st() {
	if g.ep != W.epoch {
		g.ep = W.epoch
		g.n = 0
		g.q = &waitq{}
	}
}

// Add adds delta.
func (g *WaitGroup) Add(delta int) {
	w := W
	w.yield("wg")
	g.st()
	if delta < 0 {
		w.cur.releaseMerge(unsafe.Pointer(&g.s))
	}
	g.n += delta
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		for t := g.q.pop(); t != nil; t = g.q.pop() {
			w.ready(t)
		}
	}
}

// Done subtracts one.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits for zero.
func (g *WaitGroup) Wait() {
	w := W
	w.yield("wg")
	g.st()
	if g.n > 0 {
		g.q.q = append(g.q.q, w.cur)
		w.block("waitgroup wait")
	}
	w.cur.acquire(unsafe.Pointer(&g.s))
}

// Go runs f in a task counted by the group.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	ep   uint32
	done bool
	m    Mutex
	s    [2]uint64
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	w := W
	w.yield("once")
	if o.ep != w.epoch {
		o.ep = w.epoch
		o.done = false
	}
	if o.done {
		w.cur.acquire(unsafe.Pointer(&o.s))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			w.cur.releaseMerge(unsafe.Pointer(&o.s))
			o.done = true
		}()
		f()
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L  Locker
	ep uint32
	q  *waitq
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) st() {
	if c.ep != W.epoch {
		c.ep = W.epoch
		c.q = &waitq{}
	}
}

// Wait waits for a signal.
func (c *Cond) Wait() {
	w := W
	c.st()
	c.q.q = append(c.q.q, w.cur)
	t := w.cur
	t.condArmed = true
	c.L.Unlock()
	if t.condArmed {
		w.block("cond wait")
	}
	t.condArmed = false
	c.L.Lock()
}

func (c *Cond) wake() bool {
	for len(c.q.q) > 0 {
		t := c.q.q[0]
		c.q.q = c.q.q[1:]
		if t.proc.dead || !t.condArmed {
			continue
		}
		t.condArmed = false
		if t.state == tsBlocked && t.why == "cond wait" {
			W.ready(t)
		}
		return true
	}
	return false
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	W.yield("cond")
	c.st()
	c.wake()
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	W.yield("cond")
	c.st()
	for c.wake() {
	}
}

// Map replaces sync.Map (insertion-ordered).
type Map struct {
	mu Mutex
	k  []any
	v  []any
}

func (m *Map) find(k any) int {
	for i := range m.k {
		if m.k[i] == k {
			return i
		}
	}
	return -1
}

// Load returns the value for a key.
func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	return nil, false
}

// Store sets the value for a key.
func (m *Map) Store(k, v any) { m.Swap(k, v) }

// Swap sets the value for a key and returns the previous one.
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if i := m.find(k); i >= 0 {
		p := m.v[i]
		m.v[i] = v
		return p, true
	}
	m.k = append(m.k, k)
	m.v = append(m.v, v)
	return nil, false
}

// LoadOrStore returns the existing value or stores v.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	m.k = append(m.k, k)
	m.v = append(m.v, v)
	return v, false
}

// LoadAndDelete deletes a key and returns its value.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	i := m.find(k)
	if i < 0 {
		return nil, false
	}
	v := m.v[i]
	for j := i; j+1 < len(m.k); j++ {
		m.k[j], m.v[j] = m.k[j+1], m.v[j+1]
	}
	n := len(m.k) - 1
	m.k[n], m.v[n] = nil, nil
	m.k, m.v = m.k[:n], m.v[:n]
	return v, true
}

// Delete deletes a key.
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

// Clear deletes everything.
func (m *Map) Clear() {
	m.mu.Lock()
	m.k, m.v = nil, nil
	m.mu.Unlock()
}

// CompareAndSwap swaps if equal.
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if i := m.find(k); i >= 0 && m.v[i] == old {
		m.v[i] = new
		return true
	}
	return false
}

// CompareAndDelete deletes if equal.
func (m *Map) CompareAndDelete(k, old any) bool {
	m.mu.Lock()
	i := m.find(k)
	eq := i >= 0 && m.v[i] == old
	m.mu.Unlock()
	if eq {
		m.LoadAndDelete(k)
	}
	return eq
}

// Range calls f for each entry in a seeded order.
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	n := len(m.k)
	ks := make([]any, n)
	vs := make([]any, n)
	for i := range m.k {
		ks[i], vs[i] = m.k[i], m.v[i]
	}
	m.mu.Unlock()
	r := W.mapRand()
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
		vs[i], vs[j] = vs[j], vs[i]
	}
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}

// Pool replaces sync.Pool.
type Pool struct {
	New func() any
	ep  uint32
	x   []poolItem
}

type poolItem struct {
	v any
	s *syncAddr
}

func (p *Pool) st() {
	if p.ep != W.epoch {
		p.ep = W.epoch
		p.x = nil
	}
}

// Get takes an item.
func (p *Pool) Get() any {
	W.yield("pool")
	p.st()
	if n := len(p.x); n > 0 && !W.env.Chance(0.25) {
		it := p.x[n-1]
		p.x[n-1] = poolItem{}
		p.x = p.x[:n-1]
		if it.s != nil {
			W.cur.acquire(up(it.s))
		}
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v any) {
	W.yield("pool")
	p.st()
	if v == nil {
		return
	}
	it := poolItem{v: v, s: newSync()}
	if it.s != nil {
		W.cur.release(up(it.s))
	}
	p.x = append(p.x, it)
}
