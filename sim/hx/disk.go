//go:build go1.25

package hx

import (
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"vimagination.zapto.org/limage/zzverif/core"
)

// The simulated disk. What it does wrong, and when, is decided by a plan that
// is drawn from the fault stream before the operation starts.

// InjectedError is an error of the simulated disk.
type InjectedError struct{ What string }

func (e *InjectedError) Error() string { return "simulated disk: " + e.What }

// WriteFault is a kind of write fault.
type WriteFault int

// Kinds of write faults.
const (
	WriteOK       WriteFault = iota
	WriteErr                 // fails, and every later write too
	WriteErrOnce             // fails, later writes succeed
	WriteShort               // accepts a part, fails, and every later write too
	WriteShortOne            // accepts a part, fails, later writes succeed
	WriteFull                // the disk is full from a byte on
	WriteCrash               // the process dies in the middle of the write
	nWriteFaults
)

var writeFaultNames = [...]string{"none", "write-error", "write-error-once", "short-write", "short-write-once", "disk-full", "crash"}

func (k WriteFault) String() string { return writeFaultNames[k] }

// WritePlan says which write misbehaves.
type WritePlan struct {
	Kind WriteFault
	Op   int   // the write that fails
	Part int64 // per mille of the write that is accepted by a short write or before a crash
	Room int64 // bytes until the disk is full
}

// DrawWritePlan places a fault inside an operation that is known to issue ops
// writes of total bytes. One in three lands on the last few writes.
func DrawWritePlan(r *core.Run, ops int, total int64, crash bool) WritePlan {
	n := int(nWriteFaults)
	if !crash {
		n--
	}

	p := WritePlan{Kind: WriteFault(r.F(n))}
	if ops == 0 {
		p.Kind = WriteOK
	}

	if p.Kind == WriteOK {
		return p
	}

	if r.FBool(3) {
		p.Op = ops - 1 - r.F(min(ops, 4))
	} else {
		p.Op = r.F(ops)
	}

	p.Part = int64(r.F(1000))

	if p.Kind == WriteFull {
		p.Room = r.F64(total)
	}

	return p
}

type writeCore struct {
	R     *core.Run
	Plan  WritePlan
	Ops   int
	Bytes int64
	Err   error // the first error that was returned
	Late  int   // writes for operations that have returned
	down  error
	ended bool
}

// accept decides how much of a write of n bytes is accepted.
func (w *writeCore) accept(n int) (int, error) {
	if w.ended { // the process is dead: deferred calls do not reach the disk
		panic(core.Crash{})
	}

	op := w.Ops
	w.Ops++

	w.R.Point("write")

	if w.R.Late() {
		w.Late++
	}

	if w.down != nil {
		return 0, w.down
	}

	fail := func(part int, err error, what string) (int, error) {
		if w.Err == nil {
			w.Err = err
		}

		w.R.FaultFired(what, "write op %d of %d bytes, %d accepted", op, n, part)

		return part, err
	}

	part := int(int64(n) * w.Plan.Part / 1000)
	if part >= n {
		part = n - 1
	}

	if part < 0 {
		part = 0
	}

	switch w.Plan.Kind {
	case WriteErr, WriteErrOnce, WriteShort, WriteShortOne:
		if op != w.Plan.Op {
			break
		}

		err := error(&InjectedError{fmt.Sprintf("%s at write %d", w.Plan.Kind, op)})

		if w.Plan.Kind == WriteErr || w.Plan.Kind == WriteErrOnce {
			part = 0
		}

		if w.Plan.Kind == WriteErr || w.Plan.Kind == WriteShort {
			w.down = err
		}

		w.Bytes += int64(part)

		return fail(part, err, w.Plan.Kind.String())
	case WriteFull:
		if w.Bytes+int64(n) > w.Plan.Room {
			part := int(w.Plan.Room - w.Bytes)
			w.Bytes += int64(part)
			w.down = &os.PathError{Op: "write", Path: "simulated", Err: syscall.ENOSPC}

			return fail(part, w.down, "disk-full")
		}
	case WriteCrash:
		if op == w.Plan.Op {
			w.ended = true
			w.Bytes += int64(part)
			fail(part, errors.New("crash"), "crash")
			w.Err = nil

			return part, nil
		}
	}

	w.Bytes += int64(n)

	return n, nil
}

// Writer is an append-only simulated file.
type Writer struct {
	writeCore
	Data []byte
}

// NewWriter makes one.
func NewWriter(r *core.Run, p WritePlan) *Writer {
	return &Writer{writeCore: writeCore{R: r, Plan: p}}
}

func (w *Writer) Write(p []byte) (int, error) {
	n, err := w.accept(len(p))
	core.Looked(p[:n])

	w.Data = append(w.Data, p[:n]...)

	if w.ended {
		panic(core.Crash{})
	}

	return n, err
}

// WriterAt is a simulated file with positioned writes.
type WriterAt struct {
	writeCore
	Data []byte
	Have []bool // bytes that were written
}

// NewWriterAt makes one.
func NewWriterAt(r *core.Run, p WritePlan) *WriterAt {
	return &WriterAt{writeCore: writeCore{R: r, Plan: p}}
}

// WriteAt implements io.WriterAt.
func (w *WriterAt) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 || off > 1<<28 {
		w.Ops++

		return 0, &InjectedError{fmt.Sprintf("write at offset %d", off)}
	}

	n, err := w.accept(len(p))
	core.Looked(p[:n])

	if need := int(off) + n; need > len(w.Data) {
		w.Data = append(w.Data, make([]byte, need-len(w.Data))...)
		w.Have = append(w.Have, make([]bool, need-len(w.Have))...)
	}

	copy(w.Data[off:], p[:n])

	for i := int(off); i < int(off)+n; i++ {
		w.Have[i] = true
	}

	if w.ended {
		panic(core.Crash{})
	}

	return n, err
}

// ReadFault is a kind of read fault.
type ReadFault int

// Kinds of read faults.
const (
	ReadOK       ReadFault = iota
	ReadErr                // fails, and every later read too
	ReadErrOnce            // fails, later reads succeed
	ReadPart               // delivers a part and fails, and every later read too
	ReadPartOnce           // delivers a part and fails, later reads succeed
	ReadCut                // the file ends early
	ReadSector             // reads that touch a bad sector fail
	nReadFaults
)

var readFaultNames = [...]string{"none", "read-error", "read-error-once", "short-read", "short-read-once", "file-cut", "bad-sector"}

func (k ReadFault) String() string { return readFaultNames[k] }

// ReadPlan says which read misbehaves.
type ReadPlan struct {
	Kind   ReadFault
	Op     int
	Part   int64
	Size   int64 // where the file ends early
	Sector int64 // the bad sector
	EOF    bool  // a read that ends at the end of the file reports io.EOF with the data
}

// SectorSize of the simulated disk.
const SectorSize = 64

// DrawReadPlan places a fault in an operation known to issue ops reads.
func DrawReadPlan(r *core.Run, ops int, size int64) ReadPlan {
	return DrawReadPlanFrom(r, 0, ops, size)
}

// DrawReadPlanFrom favours the reads from the given one on.
func DrawReadPlanFrom(r *core.Run, from, ops int, size int64) ReadPlan {
	p := ReadPlan{Kind: ReadFault(r.F(int(nReadFaults)))}
	p.EOF = r.FBool(4)

	if ops == 0 || size == 0 {
		p.Kind = ReadOK
	}

	switch p.Kind {
	case ReadErr, ReadErrOnce, ReadPart, ReadPartOnce:
		p.Op = r.F(ops)
		p.Part = int64(r.F(1000))

		if p.Op < from && from < ops && !r.FBool(4) {
			p.Op = from + p.Op%(ops-from)
		}
	case ReadCut:
		p.Size = r.F64(size)
	case ReadSector:
		p.Sector = r.F64((size + SectorSize - 1) / SectorSize)
	}

	return p
}

// ReaderAt is a simulated file with positioned reads.
type ReaderAt struct {
	R      *core.Run
	Data   []byte
	Plan   ReadPlan
	Ops    int
	Bytes  int64
	Fired  bool
	Late   int   // reads for operations that have returned
	HoleAt int64 // where Hole zero bytes are that are not kept in Data
	Hole   int64
	down   error
}

// Size of the file.
func (d *ReaderAt) Size() int64 { return int64(len(d.Data)) + d.Hole }

// fill copies the bytes of the file, cut at end, that are at the offset.
func (d *ReaderAt) fill(p []byte, off, end int64) int {
	if off >= end {
		return 0
	}

	if int64(len(p)) > end-off {
		p = p[:end-off]
	}

	if d.Hole == 0 || off+int64(len(p)) <= d.HoleAt {
		return copy(p, d.Data[off:])
	}

	for i := range p {
		switch o := off + int64(i); {
		case o < d.HoleAt:
			p[i] = d.Data[o]
		case o < d.HoleAt+d.Hole:
			p[i] = 0
		default:
			p[i] = d.Data[o-d.Hole]
		}
	}

	return len(p)
}

// NewReaderAt makes one.
func NewReaderAt(r *core.Run, data []byte, p ReadPlan) *ReaderAt {
	return &ReaderAt{R: r, Data: data, Plan: p}
}

func (d *ReaderAt) fail(op, part int, off int64, n int) (int, error) {
	err := &InjectedError{fmt.Sprintf("%s at read %d", d.Plan.Kind, op)}
	d.Fired = true

	d.R.FaultFired(d.Plan.Kind.String(), "read op %d of %d bytes at %d, %d delivered", op, n, off, part)

	if d.Plan.Kind == ReadErr || d.Plan.Kind == ReadPart {
		d.down = err
	}

	return part, err
}

// ReadAt implements io.ReaderAt.
func (d *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	d.R.Point("read")

	op := d.Ops
	d.Ops++

	if d.R.Late() {
		d.Late++
	}

	if off < 0 {
		return 0, errors.New("simulated disk: negative offset")
	}

	if d.down != nil {
		return 0, d.down
	}

	end := d.Size()

	if d.Plan.Kind == ReadCut && d.Plan.Size < end {
		if off+int64(len(p)) > d.Plan.Size && !d.Fired {
			d.Fired = true

			d.R.FaultFired("file-cut", "file ends at %d of %d", d.Plan.Size, end)
		}

		end = d.Plan.Size
	}

	avail := d.fill(p, off, end)
	core.Wrote(p[:avail])

	switch d.Plan.Kind {
	case ReadErr, ReadErrOnce:
		if op == d.Plan.Op {
			return d.fail(op, 0, off, len(p))
		}
	case ReadPart, ReadPartOnce:
		if op == d.Plan.Op {
			part := int(int64(avail) * d.Plan.Part / 1000)
			if part >= len(p) && part > 0 {
				part = len(p) - 1
			}

			return d.fail(op, part, off, len(p))
		}
	case ReadSector:
		lo, hi := d.Plan.Sector*SectorSize, (d.Plan.Sector+1)*SectorSize
		if len(p) > 0 && off < hi && off+int64(avail) > lo {
			part := 0
			if off < lo {
				part = int(lo - off)
			}

			return d.fail(op, part, off, len(p))
		}
	}

	d.Bytes += int64(avail)

	if avail < len(p) {
		return avail, io.EOF
	}

	if d.Plan.EOF && len(p) > 0 && off+int64(avail) == end {
		d.R.Probe("eof-with-data")

		return avail, io.EOF
	}

	return avail, nil
}
