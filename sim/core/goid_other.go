//go:build !amd64

package core

import "runtime"

// goid is the number of the current goroutine. It makes no string, as the race
// detector would see that.
func goid() (id uint64) {
	var buf [64]byte

	n := runtime.Stack(buf[:], false)

	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}

		id = id*10 + uint64(c-'0')
	}

	return id
}
