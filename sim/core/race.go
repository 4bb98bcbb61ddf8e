//go:build race

package core

import (
	"runtime"
	"unsafe"
)

// Race says that the code under test was built with the race detector. The
// simulator hides its own synchronisation from it, so that two accesses count
// as ordered only if the code under test ordered them.
const Race = true

func hide()   { runtime.RaceDisable() }
func unhide() { runtime.RaceEnable() }

// Acquire orders what follows after what was released at p.
func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

// Release orders what came before, before later acquires of p.
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Wrote tells of a write to memory of the code under test.
func Wrote(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}

// Looked tells of a read of memory of the code under test.
func Looked(p []byte) {
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}

// RaceErrors counts the reports so far.
func RaceErrors() int { return runtime.RaceErrors() }
