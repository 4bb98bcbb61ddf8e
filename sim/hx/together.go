//go:build go1.25

package hx

import (
	"fmt"

	"vimagination.zapto.org/limage/zzverif/core"
)

// Op is an operation with a result that can be compared.
type Op struct {
	Name string
	Do   func() string
}

// Together runs operations alone and in several threads at once, and compares.
// snapshot renders what all of them only read. In some runs the threads are
// the first to use any of it.
func Together(r *core.Run, ops []Op, snapshot func() string) {
	cold := r.N(3) == 2
	alone := make([]string, len(ops))

	var before string

	if !cold {
		before = snapshot()

		if !byThemselves(r, ops, alone) {
			return
		}

		if s := snapshot(); s != before {
			r.Violate("input-modified", "running the operations one by one changed what they read: %s", firstDiff(before, s))

			return
		}
	}

	threads := 2 + r.N(3)
	fns := make([]func(), threads)
	among := make([]int, len(ops))

	for i := range among {
		among[i] = i
	}

	if r.N(2) == 1 { // the same one or two in every thread
		among = []int{r.N(len(ops)), r.N(len(ops))}
	}

	type result struct {
		op  int
		got string
	}

	results := make([][]result, threads)

	for t := range fns {
		n := 1 + r.N(2)
		picks := make([]int, n)

		for i := range picks {
			picks[i] = among[r.N(len(among))]
		}

		fns[t] = func() {
			for _, k := range picks {
				var got string

				res := r.Call(ops[k].Name, func() { got = ops[k].Do() })
				if r.Done() || res.Aborted {
					return
				}

				results[t] = append(results[t], result{k, got})

				if !cold && !agrees(r, ops[k], alone[k], got) {
					return
				}
			}
		}

		r.Event("thread %d: %v", t, names4(ops, picks))
	}

	r.Concurrent(fns...)

	if r.Done() {
		return
	}

	if cold {
		r.Probe("threads-first")

		before = snapshot()

		if !byThemselves(r, ops, alone) {
			return
		}

		for _, l := range results {
			for _, x := range l {
				if !agrees(r, ops[x.op], alone[x.op], x.got) {
					return
				}
			}
		}
	}

	if s := snapshot(); s != before {
		r.Violate("input-modified", "operations running at the same time changed what they read: %s", firstDiff(before, s))
	}
}

func byThemselves(r *core.Run, ops []Op, results []string) bool {
	for i, op := range ops {
		r.Call(op.Name, func() { results[i] = op.Do() })

		if r.Done() {
			return false
		}
	}

	return true
}

func agrees(r *core.Run, op Op, alone, got string) bool {
	if got == alone {
		return true
	}

	r.Violate("differs-together", "%s gives another result when other operations run at the same time: %s", op.Name, firstDiff(alone, got))

	return false
}

func names4(ops []Op, picks []int) []string {
	s := make([]string, len(picks))
	for i, k := range picks {
		s[i] = ops[k].Name
	}

	return s
}

func firstDiff(a, b string) string {
	n := min(len(a), len(b))
	i := 0

	for i < n && a[i] == b[i] {
		i++
	}

	cut := func(s string) string {
		lo, hi := max(i-30, 0), min(i+50, len(s))
		if lo > len(s) {
			lo = len(s)
		}

		return s[lo:hi]
	}

	return fmt.Sprintf("at %d of %d/%d: %q, not %q", i, len(a), len(b), cut(b), cut(a))
}

// Again runs an operation, then others that may fail or be stopped part-way,
// then the first again, and compares. It does so a few times.
func Again(r *core.Run, targets []Op, disturb []Op) {
	first := make([]string, len(targets))

	for i, op := range targets {
		r.Call(op.Name, func() { first[i] = op.Do() })

		if r.Done() {
			return
		}
	}

	for round, n := 0, 1+r.N(3); round < n; round++ {
		for k, m := 0, 1+r.F(4); k < m; k++ {
			d := disturb[r.F(len(disturb))]

			var how string

			res := r.Try(func() { how = d.Do() })

			switch {
			case r.Done():
				return
			case res.Panic != nil:
				if _, ok := res.Panic.(*Stopped); !ok {
					r.PanicSeen(d.Name, res.Panic, res.Stack)

					return
				}

				how = "stopped by a panic"

				r.Probe("operation-stopped-by-panic")
			case res.Crashed:
				how = "stopped"

				r.Probe("operation-stopped-by-panic")
			}

			r.Event("before: %s: %s", d.Name, how)
		}

		for i, op := range targets {
			var got string

			r.Call(op.Name, func() { got = op.Do() })

			if r.Done() {
				return
			}

			if got != first[i] {
				r.Violate("differs-afterwards", "%s gives another result after other operations: %s", op.Name, firstDiff(first[i], got))

				return
			}
		}
	}
}

// Stopped is what a caller's reader, writer or image panics with.
type Stopped struct{ Where string }

// ByCaller marks panics of the code that uses the library.
func (s *Stopped) ByCaller() {}

func (s *Stopped) Error() string { return "stopped by the caller: " + s.Where }

// Stopping is an image that panics at the given access.
func Stopping(p *Pixels, at int) Custom {
	n := 0

	return Custom{P: p, OnAt: func(int, int) {
		n++

		if n == at {
			panic(&Stopped{fmt.Sprintf("access %d", at)})
		}
	}}
}
