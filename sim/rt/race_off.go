//go:build !race

package rt

import "unsafe"

// RaceEnabled tells whether this is a race-detector build.
const RaceEnabled = false

func raceDisable()                          {}
func raceEnable()                           {}
func raceErrors() int                       { return 0 }
func rawAcquire(p unsafe.Pointer)           {}
func rawRelease(p unsafe.Pointer)           {}
func rawReleaseMerge(p unsafe.Pointer)      {}
func rawWriteRange(p unsafe.Pointer, n int) {}
func rawReadRange(p unsafe.Pointer, n int)  {}
