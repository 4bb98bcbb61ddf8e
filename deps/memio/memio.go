// Package memio is an offline stand-in for vimagination.zapto.org/memio v1.0.0,
// written from the way limage uses that module (the module itself cannot be
// fetched here).
package memio

import (
	"errors"
	"io"
)

// ErrClosed and ErrInvalidWhence are returned by the in-memory files.
var (
	ErrClosed        = errors.New("operation not permitted when closed")
	ErrInvalidWhence = errors.New("invalid seek whence value")
)

// Buffer is a byte slice with reading and writing methods.
type Buffer []byte

// Read implements io.Reader.
func (b *Buffer) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}

	if len(*b) == 0 {
		return 0, io.EOF
	}

	n := copy(p, *b)
	*b = (*b)[n:]

	return n, nil
}

// ReadByte implements io.ByteReader.
func (b *Buffer) ReadByte() (byte, error) {
	if len(*b) == 0 {
		return 0, io.EOF
	}

	c := (*b)[0]
	*b = (*b)[1:]

	return c, nil
}

// Write implements io.Writer.
func (b *Buffer) Write(p []byte) (int, error) {
	*b = append(*b, p...)

	return len(p), nil
}

// WriteString implements io.StringWriter.
func (b *Buffer) WriteString(s string) (int, error) {
	*b = append(*b, s...)

	return len(s), nil
}

// WriteByte implements io.ByteWriter.
func (b *Buffer) WriteByte(c byte) error {
	*b = append(*b, c)

	return nil
}

// WriteTo implements io.WriterTo.
func (b *Buffer) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(*b)
	*b = (*b)[n:]

	return int64(n), err
}

// ReadFrom implements io.ReaderFrom.
func (b *Buffer) ReadFrom(r io.Reader) (int64, error) {
	var (
		c   int64
		buf [1024]byte
	)

	for {
		n, err := r.Read(buf[:])
		c += int64(n)
		*b = append(*b, buf[:n]...)

		if err == io.EOF {
			return c, nil
		} else if err != nil {
			return c, err
		}
	}
}

// Close clears the buffer.
func (b *Buffer) Close() error {
	*b = nil

	return nil
}

// ReadMem is a read only in-memory file.
type ReadMem struct {
	data []byte
	pos  int64
}

// Open returns a read only file over data.
func Open(data []byte) *ReadMem { return &ReadMem{data: data} }

// Read implements io.Reader.
func (r *ReadMem) Read(p []byte) (int, error) {
	n, err := r.ReadAt(p, r.pos)
	r.pos += int64(n)

	if n > 0 {
		err = nil
	}

	return n, err
}

// ReadAt implements io.ReaderAt.
func (r *ReadMem) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || off >= int64(len(r.data)) {
		return 0, io.EOF
	}

	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

// Seek implements io.Seeker.
func (r *ReadMem) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += int64(len(r.data))
	default:
		return r.pos, ErrInvalidWhence
	}

	r.pos = off

	return off, nil
}

// Close closes the file.
func (r *ReadMem) Close() error { return nil }

// ReadWriteMem is a writable in-memory file.
type ReadWriteMem struct {
	data *[]byte
	pos  int64
}

// Create returns a writable file over data, truncating it.
func Create(data *[]byte) *ReadWriteMem {
	*data = (*data)[:0]

	return &ReadWriteMem{data: data}
}

// Write implements io.Writer.
func (w *ReadWriteMem) Write(p []byte) (int, error) {
	n, err := w.WriteAt(p, w.pos)
	w.pos += int64(n)

	return n, err
}

// WriteAt implements io.WriterAt.
func (w *ReadWriteMem) WriteAt(p []byte, off int64) (int, error) {
	end := int(off) + len(p)
	if end > len(*w.data) {
		if end > cap(*w.data) {
			nd := make([]byte, end, end*2)

			copy(nd, *w.data)

			*w.data = nd
		} else {
			old := len(*w.data)
			*w.data = (*w.data)[:end]

			for i := old; i < end; i++ {
				(*w.data)[i] = 0
			}
		}
	}

	return copy((*w.data)[off:], p), nil
}

// Close closes the file.
func (w *ReadWriteMem) Close() error { return nil }
