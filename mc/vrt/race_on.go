//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

// Race tells whether the race detector watches.
const Race = true

func raceOff()                      { runtime.RaceDisable() }
func raceOn()                       { runtime.RaceEnable() }
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceReleaseMerge(p) }
func wrote(p unsafe.Pointer, n int) { runtime.RaceWriteRange(p, n) }
func read(p unsafe.Pointer, n int)  { runtime.RaceReadRange(p, n) }
