package core

import "time"

// The simulated clock: a statement takes a microsecond.
var epoch = time.Unix(1600000000, 0).UTC()

// Now stands for time.Now in the code under test.
func Now() time.Time {
	if cur == nil {
		return epoch
	}

	return epoch.Add(time.Duration(cur.Ticks+cur.slept) * time.Microsecond)
}

// Since stands for time.Since in the code under test.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Sleep stands for time.Sleep in the code under test: others may run.
func Sleep(d time.Duration) {
	if cur == nil {
		return
	}

	if d > 0 {
		cur.slept += int64(d / time.Microsecond)
	}

	cur.Point("sleep")
	cur.Ticks++
}
