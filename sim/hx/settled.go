//go:build go1.25

package hx

import "vimagination.zapto.org/limage/zzverif/core"

// Settled compares a picture with what it was when the operation that made it
// returned while threads it had started were still running.
func Settled(r *core.Run, early string, now func() string) {
	late := ""

	r.Call("pixels", func() { late = now() })

	if !r.Done() && late != early {
		r.Violate("changes-after-return", "a picture is not what it was when it was returned: %s, not %s", late, early)
	}
}
