// Package sync replaces package sync in the simulation.
package sync

import rt "ZZSIM/rt"

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Map       = rt.Map
	Pool      = rt.Pool
	Locker    = rt.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return rt.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var r T
	o := OnceFunc(func() { r = f() })
	return func() T { o(); return r }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	o := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { o(); return a, b }
}
