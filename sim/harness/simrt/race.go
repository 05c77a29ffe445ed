//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const Race = true

// Hand-overs between simulated tasks are hidden from the race detector: to it
// the tasks stay concurrent, ordered only by the synchronisation the library
// itself performs.
func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int                   { return runtime.RaceErrors() }
