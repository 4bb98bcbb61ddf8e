//go:build go1.25

package hx

import (
	"errors"
	"fmt"
	"io"

	"vimagination.zapto.org/limage/zzverif/core"
)

// Stream is a simulated file that can only be read and sought: no positioned
// reads. Every call is a scheduling point.
type Stream struct {
	R    *core.Run
	Data []byte
	Plan StreamPlan
	Base int64 // this much of the file is in front of the data

	Reads, Seeks int
	Fired        core.Counts // faults by thread
	pos          int64
	down         error
	inside       int // calls in progress
}

// StreamPlan says how a stream misbehaves.
type StreamPlan struct {
	Chunk   int  // deliver at most this many bytes at once (legal)
	Ragged  bool // the size of each piece is drawn (legal)
	EOF     bool // the last bytes come together with io.EOF (legal)
	ReadErr int  // 1 + the read that fails
	SeekErr int  // 1 + the seek that fails
	Moved   bool // a failed seek leaves the stream somewhere else
	Partial bool // a failed read delivers something first
	Forever bool // and so do all later ones
}

// DrawStreamPlan draws one for a file known to take the given calls.
func DrawStreamPlan(r *core.Run, reads, seeks int, faults bool) StreamPlan {
	var p StreamPlan

	switch r.F(4) {
	case 1:
		p.Chunk = 1 + r.F(8)
	case 2:
		p.Chunk = 1 + r.F(200)
	case 3:
		p.Ragged = true
	}

	p.EOF = r.FBool(3)

	if faults {
		switch r.F(4) {
		case 1:
			p.ReadErr = 1 + r.F(max(reads, 1))
		case 2:
			p.SeekErr = 1 + r.F(max(seeks, 1))
		case 3:
			p.ReadErr = 1 + r.F(max(reads, 1))
			p.SeekErr = 1 + r.F(max(seeks, 1))
		}

		p.Partial = r.FBool(2)
		p.Moved = r.FBool(2)
		p.Forever = r.FBool(4)
	}

	return p
}

// NewStream makes one, standing at the given position.
func NewStream(r *core.Run, data []byte, at int64, p StreamPlan) *Stream {
	return &Stream{R: r, Data: data, Plan: p, pos: at}
}

func (s *Stream) enter(what string) func() {
	s.inside++

	if s.inside > 1 {
		s.R.Violate("overlapping-calls", "%s of the stream was called while another call was in progress", what)
	}

	s.R.Point(what)

	return func() { s.inside-- }
}

func (s *Stream) fail(what string, n int) error {
	err := &InjectedError{fmt.Sprintf("%s %d failed", what, n)}
	if s.Plan.Forever {
		s.down = err
	}

	s.Fired.Inc(s.R.Thread())

	s.R.FaultFired("stream-"+what+"-error", "%s %d at %d", what, n, s.pos)

	return err
}

// Size is that of the whole file.
func (s *Stream) Size() int64 { return s.Base + int64(len(s.Data)) }

// At is the byte at an offset.
func (s *Stream) At(off int64) byte {
	if off >= s.Base {
		return s.Data[off-s.Base]
	}

	return byte(off ^ off>>7 ^ off>>29 ^ 0x5a)
}

func (s *Stream) Read(p []byte) (int, error) {
	defer s.enter("stream read")()

	op := s.Reads
	s.Reads++

	if s.down != nil {
		s.Fired.Inc(s.R.Thread())

		return 0, s.down
	}

	n := len(p)

	if s.Plan.Chunk > 0 {
		n = min(n, s.Plan.Chunk)
	}

	if s.Plan.Ragged && n > 1 {
		n = 1 + s.R.F(n)
	}

	avail := max(0, int(min(int64(n), s.Size()-s.pos)))

	for i := range p[:avail] {
		p[i] = s.At(s.pos + int64(i))
	}

	core.Wrote(p[:avail])

	if op+1 == s.Plan.ReadErr {
		if !s.Plan.Partial {
			avail = 0
		} else {
			avail = s.R.F(avail + 1)
		}

		s.pos += int64(avail)

		return avail, s.fail("read", op)
	}

	if len(p) == 0 {
		return 0, nil
	}

	if avail == 0 {
		return 0, io.EOF
	}

	if avail < len(p) {
		s.R.Probe("stream-short-read")
	}

	s.pos += int64(avail)

	if s.Plan.EOF && s.pos == s.Size() {
		return avail, io.EOF
	}

	return avail, nil
}

// Seek implements io.Seeker.
func (s *Stream) Seek(off int64, whence int) (int64, error) {
	defer s.enter("stream seek")()

	op := s.Seeks
	s.Seeks++

	if s.down != nil {
		s.Fired.Inc(s.R.Thread())

		return 0, s.down
	}

	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.Size()
	}

	if op+1 == s.Plan.SeekErr {
		if s.Plan.Moved {
			s.pos = s.Base + int64(s.R.F(len(s.Data)+1))
		}

		return 0, s.fail("seek", op)
	}

	if off < 0 {
		return 0, errors.New("simulated stream: negative position")
	}

	s.pos = off

	return off, nil
}
