//go:build go1.25

package hx

import (
	"bufio"
	"bytes"
	"errors"
	"io"

	"vimagination.zapto.org/limage/internal"
	"vimagination.zapto.org/limage/zzverif/core"
)

// onlyReader hides everything but Read.
type onlyReader struct{ io.Reader }

// same says whether bytes are those of a stream at an offset.
func same(st *Stream, b []byte, off int64) bool {
	for i, c := range b {
		if c != st.At(off+int64(i)) {
			return false
		}
	}

	return true
}

// Adapter exercises the adapter from seekable streams to positioned reads.
func Adapter(r *core.Run) {
	size := []int{0, 1, 7, 64, 500, 3000, 9000}[r.N(7)]
	if size > 1 {
		size += r.N(size)
	}

	data := make([]byte, size)
	rng := PRNG(r.Tape.Draw(core.Gen, 1<<32))

	for i := range data {
		data[i] = byte(rng.Next(256))
	}

	base := int64(0) // the data may be far into a large file
	if r.N(5) == 4 {
		base = []int64{200, 1<<31 - 30, 1<<32 - 30, 3 << 32, 1 << 45}[r.N(5)]
	}

	at := int64(0)
	if r.N(3) > 0 {
		at = base + int64(r.N(size+3))
	}

	threads := 1 + r.N(4)
	perThread := 1 + r.N(8)
	st := NewStream(r, data, at, DrawStreamPlan(r, threads*perThread, threads*perThread, r.F(3) > 0))
	st.Base = base

	var (
		src io.Reader = st
		how           = "stream"
		ra  io.ReaderAt
	)

	switch r.N(6) {
	case 1, 2:
		how = "buffered stream"

		b := bufio.NewReaderSize(st, []int{16, 64, 4096}[r.N(3)])
		src = b

		switch r.N(3) {
		case 1:
			b.Peek(1 + r.N(16))
		case 2:
			io.CopyN(io.Discard, b, int64(r.N(size+1)))
		}
	case 3:
		st.Base = 0
		how = "positioned reader"
		src = bytes.NewReader(data)
	case 4:
		st.Base = 0
		how = "buffered positioned reader"
		b := bufio.NewReader(bytes.NewReader(data))
		b.Peek(r.N(16))
		src = b
	case 5:
		how = "neither"
		src = onlyReader{st}

		if r.N(2) == 0 {
			src = bufio.NewReader(src)
		}
	}

	r.Event("%s of %d+%d bytes standing at %d, %d threads of %d reads, plan %+v", how, st.Base, size, at, threads, perThread, st.Plan)

	// What happened before is the caller's business.
	st.Fired = nil

	r.Call("GetReaderAt", func() { ra = internal.GetReaderAt(src) })

	if r.Done() {
		return
	}

	if how == "neither" {
		if ra != nil {
			r.Violate("impossible-adapter", "a stream that cannot seek was accepted")
		}

		return
	}

	if ra == nil {
		r.Violate("no-adapter", "a %s was not accepted", how)

		return
	}

	st.Fired = nil // a failed seek while adapting has to show, or not matter

	type req struct {
		off int64
		n   int
	}

	fns := make([]func(), threads)

	for t := range fns {
		reqs := make([]req, perThread)
		last := int64(0)

		for i := range reqs {
			q := req{n: r.N(40)}

			switch r.N(6) {
			case 0:
				q.n = 1 + r.N(size+8)
			case 1:
				q.n = 4
			}

			switch r.N(5) {
			case 0:
				q.off = last // where the last one ended
			case 1:
				q.off = 0
			case 2:
				q.off = max(st.Size()-int64(q.n+2-r.N(5)), 0) // about the end
			default:
				q.off = st.Base + int64(r.N(size+4))

				if st.Base > 0 && r.N(4) == 3 {
					q.off = max(st.Base-int64(r.N(40)), 0)
				}
			}

			last = q.off + int64(q.n)
			reqs[i] = q
		}

		fns[t] = func() {
			for _, q := range reqs {
				buf := bytes.Repeat([]byte{0xA5}, q.n)
				fired := st.Fired.Get(r.Thread())

				var (
					n   int
					err error
				)

				res := r.Call("ReadAt", func() { n, err = ra.ReadAt(buf, q.off) })
				if r.Done() || res.Aborted {
					return
				}

				faulty := st.Fired.Get(r.Thread()) > fired
				avail := int(max(min(st.Size()-q.off, int64(q.n)), 0))

				r.Event("%s ReadAt(%d bytes, %d) = %d, %v", r.Thread(), q.n, q.off, n, err)

				var inj *InjectedError

				switch {
				case n < 0 || n > q.n:
					r.Violate("count", "ReadAt of %d bytes at %d returned %d", q.n, q.off, n)
				case n > avail || !same(st, buf[:n], q.off):
					r.Violate("wrong-bytes", "ReadAt of %d bytes at %d returned bytes that are not there", q.n, q.off)
				case n < q.n && err == nil:
					r.Violate("short-without-error", "ReadAt of %d bytes at %d returned %d bytes and no error", q.n, q.off, n)
				case faulty && n < q.n && !errors.As(err, &inj):
					r.Violate("fault-hidden", "a fault of the stream was reported as %v", err)
				case !faulty && n < avail:
					r.Violate("short-read", "ReadAt of %d bytes at %d returned %d, %v though the stream did not fail", q.n, q.off, n, err)
				case !faulty && avail == q.n && err != nil && !(errors.Is(err, io.EOF) && q.off+int64(q.n) >= st.Size()):
					r.Violate("spurious-error", "ReadAt of %d bytes at %d of %d failed though the stream did not: %v", q.n, q.off, st.Size(), err)
				case !faulty && avail < q.n && !errors.Is(err, io.EOF):
					r.Violate("no-eof", "ReadAt of %d bytes at %d of %d reported %v", q.n, q.off, st.Size(), err)
				}

				if r.Done() {
					return
				}
			}
		}
	}

	r.Concurrent(fns...)
}
