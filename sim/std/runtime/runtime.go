// Package runtime replaces the scheduling part of package runtime.
package runtime

import rt "ZZSIM/rt"

func NumCPU() int       { return rt.NumCPU() }
func NumGoroutine() int { return rt.NumGoroutine() }
func Gosched()          { rt.Gosched() }
func GC()               {}

// GOMAXPROCS reports the simulated number of processors.
func GOMAXPROCS(n int) int {
	p := rt.Local("GOMAXPROCS", func() any { v := rt.NumCPU(); return &v }).(*int)
	old := *p
	if n > 0 {
		*p = n
	}
	return old
}

func LockOSThread()   {}
func UnlockOSThread() {}

// SetFinalizer does nothing: finalizers are not simulated.
func SetFinalizer(obj, finalizer any) {}
