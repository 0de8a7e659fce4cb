//go:build !race

package vrt

import "unsafe"

// Race tells whether the race detector watches.
const Race = false

func raceOff()                      {}
func raceOn()                       {}
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func wrote(p unsafe.Pointer, n int) {}
func read(p unsafe.Pointer, n int)  {}
