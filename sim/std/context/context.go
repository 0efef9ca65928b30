// Package context replaces package context's cancellation machinery.
package context

import (
	real "context"
	"fmt"
	"time"

	rt "ZZSIM/rt"
)

type (
	// Context is the real interface.
	Context         = real.Context
	CancelFunc      = real.CancelFunc
	CancelCauseFunc = real.CancelCauseFunc
)

type keyT int

var cancelKey keyT

// cancelCtx is a context that can be cancelled.
type cancelCtx struct {
	parent   Context
	mu       rt.Mutex
	done     chan struct{}
	err      error
	cause    error
	kids     []*cancelCtx
	afters   []*afterFn
	deadline time.Time
	hasDL    bool
	timer    *rt.Timer
	up       *cancelCtx
	stopUp   chan struct{}
}

type afterFn struct{ f func() }

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *cancelCtx) Done() <-chan struct{} { return c.done }

func (c *cancelCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func (c *cancelCtx) Value(k any) any {
	if k == any(&cancelKey) {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) String() string { return fmt.Sprintf("context %p", c) }

func (c *cancelCtx) cancel(detach bool, err, cause error) {
	if cause == nil {
		cause = err
	}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return
	}
	c.err, c.cause = err, cause
	rt.CS(c.done).Close()
	kids, afters := c.kids, c.afters
	c.kids, c.afters = nil, nil
	for _, k := range kids {
		k.cancel(false, err, cause)
	}
	for _, a := range afters {
		rt.Go(a.f)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
	if c.stopUp != nil {
		close := rt.CS(c.stopUp)
		close.Close()
	}
	c.mu.Unlock()
	if detach && c.up != nil {
		u := c.up
		u.mu.Lock()
		for i, k := range u.kids {
			if k == c {
				u.kids = append(u.kids[:i:i], u.kids[i+1:]...)
				break
			}
		}
		u.mu.Unlock()
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if parent.Done() == nil {
		return c
	}
	if u, ok := parent.Value(&cancelKey).(*cancelCtx); ok && u.Done() == parent.Done() {
		u.mu.Lock()
		if u.err != nil {
			err, cause := u.err, u.cause
			u.mu.Unlock()
			c.cancel(false, err, cause)
			return c
		}
		u.kids = append(u.kids, c)
		c.up = u
		u.mu.Unlock()
		return c
	}
	// a foreign context: watch it
	c.stopUp = make(chan struct{})
	stop, pd := c.stopUp, parent.Done()
	rt.Go(func() {
		s := rt.NewSel(false)
		rt.SelRecv(s, pd)
		rt.SelRecv(s, stop)
		if s.Do() == 0 {
			c.stopUp = nil
			c.cancel(false, parent.Err(), Cause(parent))
		}
	})
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(true, real.Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.cancel(true, real.Canceled, cause) }
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCancel(parent)
	c.deadline, c.hasDL = d, true
	dur := d.Sub(rt.NowTime())
	if dur <= 0 {
		c.cancel(true, real.DeadlineExceeded, cause)
		return c, func() { c.cancel(false, real.Canceled, nil) }
	}
	c.mu.Lock()
	if c.err == nil {
		c.timer = rt.AfterFunc(dur, func() { c.cancel(true, real.DeadlineExceeded, cause) })
	}
	c.mu.Unlock()
	return c, func() { c.cancel(true, real.Canceled, nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, rt.NowTime().Add(d))
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, rt.NowTime().Add(d), cause)
}

// Cause is context.Cause.
func Cause(c Context) error {
	if u, ok := c.Value(&cancelKey).(*cancelCtx); ok {
		u.mu.Lock()
		cause := u.cause
		u.mu.Unlock()
		if cause != nil {
			return cause
		}
	}
	return c.Err()
}

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c := newCancel(ctx)
	a := &afterFn{f: f}
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		rt.Go(f)
		return func() bool { return false }
	}
	c.afters = append(c.afters, a)
	c.mu.Unlock()
	return func() bool {
		c.mu.Lock()
		had := len(c.afters) > 0
		c.afters = nil
		c.mu.Unlock()
		if had {
			c.cancel(true, real.Canceled, nil)
		}
		return had
	}
}

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k any) any {
	if k == any(&cancelKey) {
		return nil
	}
	return w.c.Value(k)
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent Context) Context { return withoutCancel{parent} }
