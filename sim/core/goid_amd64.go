package core

// goid identifies the current goroutine among those that have not ended: it is
// the address of what the runtime keeps about it. Asking runtime.Stack for the
// number took nine tenths of the time of a run.
func goid() uint64
