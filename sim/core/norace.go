//go:build !race

package core

import "unsafe"

// Race says that the code under test was built with the race detector.
const Race = false

func hide()   {}
func unhide() {}

// Acquire orders what follows after what was released at p.
func Acquire(unsafe.Pointer) {}

// Release orders what came before, before later acquires of p.
func Release(unsafe.Pointer) {}

// Wrote tells of a write to memory of the code under test.
func Wrote([]byte) {}

// Looked tells of a read of memory of the code under test.
func Looked([]byte) {}

// RaceErrors counts the reports so far.
func RaceErrors() int { return 0 }
