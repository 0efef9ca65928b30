//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether this is a race-detector build.
const RaceEnabled = true

func raceDisable()                     { runtime.RaceDisable() }
func raceEnable()                      { runtime.RaceEnable() }
func raceErrors() int                  { return runtime.RaceErrors() }
func rawAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func rawRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func rawReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func rawWriteRange(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceWriteRange(p, n)
	}
}
func rawReadRange(p unsafe.Pointer, n int) {
	if n > 0 {
		runtime.RaceReadRange(p, n)
	}
}
