// Package byteio is an offline stand-in for vimagination.zapto.org/byteio v1.0.0,
// written from the way limage uses that module (the module itself cannot be
// fetched here). Generated by ../gen_byteio.py.
package byteio

import (
	"io"
	"math"
)

// BigEndianReader reads big endian values.
type BigEndianReader struct {
	io.Reader
	buffer [9]byte
}

// BigEndianWriter writes big endian values.
type BigEndianWriter struct {
	io.Writer
	buffer [9]byte
}

func (e *BigEndianReader) fill(n int) ([]byte, int, error) {
	m, err := io.ReadFull(e.Reader, e.buffer[:n])

	return e.buffer[:n], m, err
}

// ReadUint8 reads a 8 bit value.
func (e *BigEndianReader) ReadUint8() (uint8, int, error) {
	b, n, err := e.fill(1)
	if err != nil {
		return 0, n, err
	}

	return uint8(b[0]), n, nil
}

// ReadInt8 reads a signed 8 bit value.
func (e *BigEndianReader) ReadInt8() (int8, int, error) {
	v, n, err := e.ReadUint8()

	return int8(v), n, err
}

// WriteUint8 writes a 8 bit value.
func (e *BigEndianWriter) WriteUint8(d uint8) (int, error) {
	b := e.buffer[:1]
	b[0] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt8 writes a signed 8 bit value.
func (e *BigEndianWriter) WriteInt8(d int8) (int, error) { return e.WriteUint8(uint8(d)) }

// ReadUint16 reads a 16 bit value.
func (e *BigEndianReader) ReadUint16() (uint16, int, error) {
	b, n, err := e.fill(2)
	if err != nil {
		return 0, n, err
	}

	return uint16(b[0])<<8 | uint16(b[1]), n, nil
}

// ReadInt16 reads a signed 16 bit value.
func (e *BigEndianReader) ReadInt16() (int16, int, error) {
	v, n, err := e.ReadUint16()

	return int16(v), n, err
}

// WriteUint16 writes a 16 bit value.
func (e *BigEndianWriter) WriteUint16(d uint16) (int, error) {
	b := e.buffer[:2]
	b[0] = byte(d >> 8)
	b[1] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt16 writes a signed 16 bit value.
func (e *BigEndianWriter) WriteInt16(d int16) (int, error) { return e.WriteUint16(uint16(d)) }

// ReadUint24 reads a 24 bit value.
func (e *BigEndianReader) ReadUint24() (uint32, int, error) {
	b, n, err := e.fill(3)
	if err != nil {
		return 0, n, err
	}

	return uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2]), n, nil
}

// ReadInt24 reads a signed 24 bit value.
func (e *BigEndianReader) ReadInt24() (int32, int, error) {
	v, n, err := e.ReadUint24()

	return int32(v<<8) >> 8, n, err
}

// WriteUint24 writes a 24 bit value.
func (e *BigEndianWriter) WriteUint24(d uint32) (int, error) {
	b := e.buffer[:3]
	b[0] = byte(d >> 16)
	b[1] = byte(d >> 8)
	b[2] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt24 writes a signed 24 bit value.
func (e *BigEndianWriter) WriteInt24(d int32) (int, error) { return e.WriteUint24(uint32(d)) }

// ReadUint32 reads a 32 bit value.
func (e *BigEndianReader) ReadUint32() (uint32, int, error) {
	b, n, err := e.fill(4)
	if err != nil {
		return 0, n, err
	}

	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]), n, nil
}

// ReadInt32 reads a signed 32 bit value.
func (e *BigEndianReader) ReadInt32() (int32, int, error) {
	v, n, err := e.ReadUint32()

	return int32(v), n, err
}

// WriteUint32 writes a 32 bit value.
func (e *BigEndianWriter) WriteUint32(d uint32) (int, error) {
	b := e.buffer[:4]
	b[0] = byte(d >> 24)
	b[1] = byte(d >> 16)
	b[2] = byte(d >> 8)
	b[3] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt32 writes a signed 32 bit value.
func (e *BigEndianWriter) WriteInt32(d int32) (int, error) { return e.WriteUint32(uint32(d)) }

// ReadUint40 reads a 40 bit value.
func (e *BigEndianReader) ReadUint40() (uint64, int, error) {
	b, n, err := e.fill(5)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<32 | uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4]), n, nil
}

// ReadInt40 reads a signed 40 bit value.
func (e *BigEndianReader) ReadInt40() (int64, int, error) {
	v, n, err := e.ReadUint40()

	return int64(v<<24) >> 24, n, err
}

// WriteUint40 writes a 40 bit value.
func (e *BigEndianWriter) WriteUint40(d uint64) (int, error) {
	b := e.buffer[:5]
	b[0] = byte(d >> 32)
	b[1] = byte(d >> 24)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 8)
	b[4] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt40 writes a signed 40 bit value.
func (e *BigEndianWriter) WriteInt40(d int64) (int, error) { return e.WriteUint40(uint64(d)) }

// ReadUint48 reads a 48 bit value.
func (e *BigEndianReader) ReadUint48() (uint64, int, error) {
	b, n, err := e.fill(6)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<40 | uint64(b[1])<<32 | uint64(b[2])<<24 | uint64(b[3])<<16 | uint64(b[4])<<8 | uint64(b[5]), n, nil
}

// ReadInt48 reads a signed 48 bit value.
func (e *BigEndianReader) ReadInt48() (int64, int, error) {
	v, n, err := e.ReadUint48()

	return int64(v<<16) >> 16, n, err
}

// WriteUint48 writes a 48 bit value.
func (e *BigEndianWriter) WriteUint48(d uint64) (int, error) {
	b := e.buffer[:6]
	b[0] = byte(d >> 40)
	b[1] = byte(d >> 32)
	b[2] = byte(d >> 24)
	b[3] = byte(d >> 16)
	b[4] = byte(d >> 8)
	b[5] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt48 writes a signed 48 bit value.
func (e *BigEndianWriter) WriteInt48(d int64) (int, error) { return e.WriteUint48(uint64(d)) }

// ReadUint56 reads a 56 bit value.
func (e *BigEndianReader) ReadUint56() (uint64, int, error) {
	b, n, err := e.fill(7)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<48 | uint64(b[1])<<40 | uint64(b[2])<<32 | uint64(b[3])<<24 | uint64(b[4])<<16 | uint64(b[5])<<8 | uint64(b[6]), n, nil
}

// ReadInt56 reads a signed 56 bit value.
func (e *BigEndianReader) ReadInt56() (int64, int, error) {
	v, n, err := e.ReadUint56()

	return int64(v<<8) >> 8, n, err
}

// WriteUint56 writes a 56 bit value.
func (e *BigEndianWriter) WriteUint56(d uint64) (int, error) {
	b := e.buffer[:7]
	b[0] = byte(d >> 48)
	b[1] = byte(d >> 40)
	b[2] = byte(d >> 32)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 16)
	b[5] = byte(d >> 8)
	b[6] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt56 writes a signed 56 bit value.
func (e *BigEndianWriter) WriteInt56(d int64) (int, error) { return e.WriteUint56(uint64(d)) }

// ReadUint64 reads a 64 bit value.
func (e *BigEndianReader) ReadUint64() (uint64, int, error) {
	b, n, err := e.fill(8)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 | uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7]), n, nil
}

// ReadInt64 reads a signed 64 bit value.
func (e *BigEndianReader) ReadInt64() (int64, int, error) {
	v, n, err := e.ReadUint64()

	return int64(v), n, err
}

// WriteUint64 writes a 64 bit value.
func (e *BigEndianWriter) WriteUint64(d uint64) (int, error) {
	b := e.buffer[:8]
	b[0] = byte(d >> 56)
	b[1] = byte(d >> 48)
	b[2] = byte(d >> 40)
	b[3] = byte(d >> 32)
	b[4] = byte(d >> 24)
	b[5] = byte(d >> 16)
	b[6] = byte(d >> 8)
	b[7] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt64 writes a signed 64 bit value.
func (e *BigEndianWriter) WriteInt64(d int64) (int, error) { return e.WriteUint64(uint64(d)) }

// ReadFloat32 reads a float.
func (e *BigEndianReader) ReadFloat32() (float32, int, error) {
	v, n, err := e.ReadUint32()

	return math.Float32frombits(v), n, err
}

// WriteFloat32 writes a float.
func (e *BigEndianWriter) WriteFloat32(d float32) (int, error) {
	return e.WriteUint32(math.Float32bits(d))
}

// ReadFloat64 reads a float.
func (e *BigEndianReader) ReadFloat64() (float64, int, error) {
	v, n, err := e.ReadUint64()

	return math.Float64frombits(v), n, err
}

// WriteFloat64 writes a float.
func (e *BigEndianWriter) WriteFloat64(d float64) (int, error) {
	return e.WriteUint64(math.Float64bits(d))
}

// StickyBigEndianReader reads big endian values.
type StickyBigEndianReader struct {
	io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}

// StickyBigEndianWriter writes big endian values.
type StickyBigEndianWriter struct {
	io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (e *StickyBigEndianReader) Read(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}

func (e *StickyBigEndianReader) fill(n int) []byte {
	if e.Err != nil {
		return nil
	}

	m, err := io.ReadFull(e.Reader, e.buffer[:n])
	e.Count += int64(m)
	e.Err = err

	if err != nil {
		return nil
	}

	return e.buffer[:n]
}

// Write implements io.Writer.
func (e *StickyBigEndianWriter) Write(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}

// GetError returns the sticky error.
func (e *StickyBigEndianReader) GetError() error { return e.Err }

// GetError returns the sticky error.
func (e *StickyBigEndianWriter) GetError() error { return e.Err }

// GetCount returns the number of bytes read.
func (e *StickyBigEndianReader) GetCount() int64 { return e.Count }

// GetCount returns the number of bytes written.
func (e *StickyBigEndianWriter) GetCount() int64 { return e.Count }

// ReadUint8 reads a 8 bit value.
func (e *StickyBigEndianReader) ReadUint8() uint8 {
	b := e.fill(1)
	if b == nil {
		return 0
	}

	return uint8(b[0])
}

// ReadInt8 reads a signed 8 bit value.
func (e *StickyBigEndianReader) ReadInt8() int8 { return int8(e.ReadUint8()) }

// WriteUint8 writes a 8 bit value.
func (e *StickyBigEndianWriter) WriteUint8(d uint8) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:1]
	b[0] = byte(d)
	e.Write(b)
}

// WriteInt8 writes a signed 8 bit value.
func (e *StickyBigEndianWriter) WriteInt8(d int8) { e.WriteUint8(uint8(d)) }

// ReadUint16 reads a 16 bit value.
func (e *StickyBigEndianReader) ReadUint16() uint16 {
	b := e.fill(2)
	if b == nil {
		return 0
	}

	return uint16(b[0])<<8 | uint16(b[1])
}

// ReadInt16 reads a signed 16 bit value.
func (e *StickyBigEndianReader) ReadInt16() int16 { return int16(e.ReadUint16()) }

// WriteUint16 writes a 16 bit value.
func (e *StickyBigEndianWriter) WriteUint16(d uint16) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:2]
	b[0] = byte(d >> 8)
	b[1] = byte(d)
	e.Write(b)
}

// WriteInt16 writes a signed 16 bit value.
func (e *StickyBigEndianWriter) WriteInt16(d int16) { e.WriteUint16(uint16(d)) }

// ReadUint24 reads a 24 bit value.
func (e *StickyBigEndianReader) ReadUint24() uint32 {
	b := e.fill(3)
	if b == nil {
		return 0
	}

	return uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
}

// ReadInt24 reads a signed 24 bit value.
func (e *StickyBigEndianReader) ReadInt24() int32 { return int32(e.ReadUint24()<<8) >> 8 }

// WriteUint24 writes a 24 bit value.
func (e *StickyBigEndianWriter) WriteUint24(d uint32) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:3]
	b[0] = byte(d >> 16)
	b[1] = byte(d >> 8)
	b[2] = byte(d)
	e.Write(b)
}

// WriteInt24 writes a signed 24 bit value.
func (e *StickyBigEndianWriter) WriteInt24(d int32) { e.WriteUint24(uint32(d)) }

// ReadUint32 reads a 32 bit value.
func (e *StickyBigEndianReader) ReadUint32() uint32 {
	b := e.fill(4)
	if b == nil {
		return 0
	}

	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// ReadInt32 reads a signed 32 bit value.
func (e *StickyBigEndianReader) ReadInt32() int32 { return int32(e.ReadUint32()) }

// WriteUint32 writes a 32 bit value.
func (e *StickyBigEndianWriter) WriteUint32(d uint32) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:4]
	b[0] = byte(d >> 24)
	b[1] = byte(d >> 16)
	b[2] = byte(d >> 8)
	b[3] = byte(d)
	e.Write(b)
}

// WriteInt32 writes a signed 32 bit value.
func (e *StickyBigEndianWriter) WriteInt32(d int32) { e.WriteUint32(uint32(d)) }

// ReadUint40 reads a 40 bit value.
func (e *StickyBigEndianReader) ReadUint40() uint64 {
	b := e.fill(5)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<32 | uint64(b[1])<<24 | uint64(b[2])<<16 | uint64(b[3])<<8 | uint64(b[4])
}

// ReadInt40 reads a signed 40 bit value.
func (e *StickyBigEndianReader) ReadInt40() int64 { return int64(e.ReadUint40()<<24) >> 24 }

// WriteUint40 writes a 40 bit value.
func (e *StickyBigEndianWriter) WriteUint40(d uint64) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:5]
	b[0] = byte(d >> 32)
	b[1] = byte(d >> 24)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 8)
	b[4] = byte(d)
	e.Write(b)
}

// WriteInt40 writes a signed 40 bit value.
func (e *StickyBigEndianWriter) WriteInt40(d int64) { e.WriteUint40(uint64(d)) }

// ReadUint48 reads a 48 bit value.
func (e *StickyBigEndianReader) ReadUint48() uint64 {
	b := e.fill(6)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<40 | uint64(b[1])<<32 | uint64(b[2])<<24 | uint64(b[3])<<16 | uint64(b[4])<<8 | uint64(b[5])
}

// ReadInt48 reads a signed 48 bit value.
func (e *StickyBigEndianReader) ReadInt48() int64 { return int64(e.ReadUint48()<<16) >> 16 }

// WriteUint48 writes a 48 bit value.
func (e *StickyBigEndianWriter) WriteUint48(d uint64) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:6]
	b[0] = byte(d >> 40)
	b[1] = byte(d >> 32)
	b[2] = byte(d >> 24)
	b[3] = byte(d >> 16)
	b[4] = byte(d >> 8)
	b[5] = byte(d)
	e.Write(b)
}

// WriteInt48 writes a signed 48 bit value.
func (e *StickyBigEndianWriter) WriteInt48(d int64) { e.WriteUint48(uint64(d)) }

// ReadUint56 reads a 56 bit value.
func (e *StickyBigEndianReader) ReadUint56() uint64 {
	b := e.fill(7)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<48 | uint64(b[1])<<40 | uint64(b[2])<<32 | uint64(b[3])<<24 | uint64(b[4])<<16 | uint64(b[5])<<8 | uint64(b[6])
}

// ReadInt56 reads a signed 56 bit value.
func (e *StickyBigEndianReader) ReadInt56() int64 { return int64(e.ReadUint56()<<8) >> 8 }

// WriteUint56 writes a 56 bit value.
func (e *StickyBigEndianWriter) WriteUint56(d uint64) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:7]
	b[0] = byte(d >> 48)
	b[1] = byte(d >> 40)
	b[2] = byte(d >> 32)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 16)
	b[5] = byte(d >> 8)
	b[6] = byte(d)
	e.Write(b)
}

// WriteInt56 writes a signed 56 bit value.
func (e *StickyBigEndianWriter) WriteInt56(d int64) { e.WriteUint56(uint64(d)) }

// ReadUint64 reads a 64 bit value.
func (e *StickyBigEndianReader) ReadUint64() uint64 {
	b := e.fill(8)
	if b == nil {
		return 0
	}

	return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 | uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7])
}

// ReadInt64 reads a signed 64 bit value.
func (e *StickyBigEndianReader) ReadInt64() int64 { return int64(e.ReadUint64()) }

// WriteUint64 writes a 64 bit value.
func (e *StickyBigEndianWriter) WriteUint64(d uint64) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:8]
	b[0] = byte(d >> 56)
	b[1] = byte(d >> 48)
	b[2] = byte(d >> 40)
	b[3] = byte(d >> 32)
	b[4] = byte(d >> 24)
	b[5] = byte(d >> 16)
	b[6] = byte(d >> 8)
	b[7] = byte(d)
	e.Write(b)
}

// WriteInt64 writes a signed 64 bit value.
func (e *StickyBigEndianWriter) WriteInt64(d int64) { e.WriteUint64(uint64(d)) }

// ReadFloat32 reads a float.
func (e *StickyBigEndianReader) ReadFloat32() float32 { return math.Float32frombits(e.ReadUint32()) }

// WriteFloat32 writes a float.
func (e *StickyBigEndianWriter) WriteFloat32(d float32) { e.WriteUint32(math.Float32bits(d)) }

// ReadFloat64 reads a float.
func (e *StickyBigEndianReader) ReadFloat64() float64 { return math.Float64frombits(e.ReadUint64()) }

// WriteFloat64 writes a float.
func (e *StickyBigEndianWriter) WriteFloat64(d float64) { e.WriteUint64(math.Float64bits(d)) }

// ReadBool reads a boolean.
func (e *StickyBigEndianReader) ReadBool() bool { return e.ReadUint8() != 0 }

// WriteBool writes a boolean.
func (e *StickyBigEndianWriter) WriteBool(d bool) {
	if d {
		e.WriteUint8(1)
	} else {
		e.WriteUint8(0)
	}
}

// ReadBytes reads n bytes.
func (e *StickyBigEndianReader) ReadBytes(n int) []byte {
	if e.Err != nil {
		return nil
	}

	b := make([]byte, n)
	m, err := io.ReadFull(e.Reader, b)
	e.Count += int64(m)
	e.Err = err

	return b[:m]
}

// ReadString reads a string of n bytes.
func (e *StickyBigEndianReader) ReadString(n int) string { return string(e.ReadBytes(n)) }

// WriteString writes a string.
func (e *StickyBigEndianWriter) WriteString(s string) (int, error) { return e.Write([]byte(s)) }

// LittleEndianReader reads little endian values.
type LittleEndianReader struct {
	io.Reader
	buffer [9]byte
}

// LittleEndianWriter writes little endian values.
type LittleEndianWriter struct {
	io.Writer
	buffer [9]byte
}

func (e *LittleEndianReader) fill(n int) ([]byte, int, error) {
	m, err := io.ReadFull(e.Reader, e.buffer[:n])

	return e.buffer[:n], m, err
}

// ReadUint8 reads a 8 bit value.
func (e *LittleEndianReader) ReadUint8() (uint8, int, error) {
	b, n, err := e.fill(1)
	if err != nil {
		return 0, n, err
	}

	return uint8(b[0]), n, nil
}

// ReadInt8 reads a signed 8 bit value.
func (e *LittleEndianReader) ReadInt8() (int8, int, error) {
	v, n, err := e.ReadUint8()

	return int8(v), n, err
}

// WriteUint8 writes a 8 bit value.
func (e *LittleEndianWriter) WriteUint8(d uint8) (int, error) {
	b := e.buffer[:1]
	b[0] = byte(d)

	return e.Writer.Write(b)
}

// WriteInt8 writes a signed 8 bit value.
func (e *LittleEndianWriter) WriteInt8(d int8) (int, error) { return e.WriteUint8(uint8(d)) }

// ReadUint16 reads a 16 bit value.
func (e *LittleEndianReader) ReadUint16() (uint16, int, error) {
	b, n, err := e.fill(2)
	if err != nil {
		return 0, n, err
	}

	return uint16(b[0]) | uint16(b[1])<<8, n, nil
}

// ReadInt16 reads a signed 16 bit value.
func (e *LittleEndianReader) ReadInt16() (int16, int, error) {
	v, n, err := e.ReadUint16()

	return int16(v), n, err
}

// WriteUint16 writes a 16 bit value.
func (e *LittleEndianWriter) WriteUint16(d uint16) (int, error) {
	b := e.buffer[:2]
	b[0] = byte(d)
	b[1] = byte(d >> 8)

	return e.Writer.Write(b)
}

// WriteInt16 writes a signed 16 bit value.
func (e *LittleEndianWriter) WriteInt16(d int16) (int, error) { return e.WriteUint16(uint16(d)) }

// ReadUint24 reads a 24 bit value.
func (e *LittleEndianReader) ReadUint24() (uint32, int, error) {
	b, n, err := e.fill(3)
	if err != nil {
		return 0, n, err
	}

	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16, n, nil
}

// ReadInt24 reads a signed 24 bit value.
func (e *LittleEndianReader) ReadInt24() (int32, int, error) {
	v, n, err := e.ReadUint24()

	return int32(v<<8) >> 8, n, err
}

// WriteUint24 writes a 24 bit value.
func (e *LittleEndianWriter) WriteUint24(d uint32) (int, error) {
	b := e.buffer[:3]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)

	return e.Writer.Write(b)
}

// WriteInt24 writes a signed 24 bit value.
func (e *LittleEndianWriter) WriteInt24(d int32) (int, error) { return e.WriteUint24(uint32(d)) }

// ReadUint32 reads a 32 bit value.
func (e *LittleEndianReader) ReadUint32() (uint32, int, error) {
	b, n, err := e.fill(4)
	if err != nil {
		return 0, n, err
	}

	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, n, nil
}

// ReadInt32 reads a signed 32 bit value.
func (e *LittleEndianReader) ReadInt32() (int32, int, error) {
	v, n, err := e.ReadUint32()

	return int32(v), n, err
}

// WriteUint32 writes a 32 bit value.
func (e *LittleEndianWriter) WriteUint32(d uint32) (int, error) {
	b := e.buffer[:4]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)

	return e.Writer.Write(b)
}

// WriteInt32 writes a signed 32 bit value.
func (e *LittleEndianWriter) WriteInt32(d int32) (int, error) { return e.WriteUint32(uint32(d)) }

// ReadUint40 reads a 40 bit value.
func (e *LittleEndianReader) ReadUint40() (uint64, int, error) {
	b, n, err := e.fill(5)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32, n, nil
}

// ReadInt40 reads a signed 40 bit value.
func (e *LittleEndianReader) ReadInt40() (int64, int, error) {
	v, n, err := e.ReadUint40()

	return int64(v<<24) >> 24, n, err
}

// WriteUint40 writes a 40 bit value.
func (e *LittleEndianWriter) WriteUint40(d uint64) (int, error) {
	b := e.buffer[:5]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 32)

	return e.Writer.Write(b)
}

// WriteInt40 writes a signed 40 bit value.
func (e *LittleEndianWriter) WriteInt40(d int64) (int, error) { return e.WriteUint40(uint64(d)) }

// ReadUint48 reads a 48 bit value.
func (e *LittleEndianReader) ReadUint48() (uint64, int, error) {
	b, n, err := e.fill(6)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40, n, nil
}

// ReadInt48 reads a signed 48 bit value.
func (e *LittleEndianReader) ReadInt48() (int64, int, error) {
	v, n, err := e.ReadUint48()

	return int64(v<<16) >> 16, n, err
}

// WriteUint48 writes a 48 bit value.
func (e *LittleEndianWriter) WriteUint48(d uint64) (int, error) {
	b := e.buffer[:6]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 32)
	b[5] = byte(d >> 40)

	return e.Writer.Write(b)
}

// WriteInt48 writes a signed 48 bit value.
func (e *LittleEndianWriter) WriteInt48(d int64) (int, error) { return e.WriteUint48(uint64(d)) }

// ReadUint56 reads a 56 bit value.
func (e *LittleEndianReader) ReadUint56() (uint64, int, error) {
	b, n, err := e.fill(7)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48, n, nil
}

// ReadInt56 reads a signed 56 bit value.
func (e *LittleEndianReader) ReadInt56() (int64, int, error) {
	v, n, err := e.ReadUint56()

	return int64(v<<8) >> 8, n, err
}

// WriteUint56 writes a 56 bit value.
func (e *LittleEndianWriter) WriteUint56(d uint64) (int, error) {
	b := e.buffer[:7]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 32)
	b[5] = byte(d >> 40)
	b[6] = byte(d >> 48)

	return e.Writer.Write(b)
}

// WriteInt56 writes a signed 56 bit value.
func (e *LittleEndianWriter) WriteInt56(d int64) (int, error) { return e.WriteUint56(uint64(d)) }

// ReadUint64 reads a 64 bit value.
func (e *LittleEndianReader) ReadUint64() (uint64, int, error) {
	b, n, err := e.fill(8)
	if err != nil {
		return 0, n, err
	}

	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56, n, nil
}

// ReadInt64 reads a signed 64 bit value.
func (e *LittleEndianReader) ReadInt64() (int64, int, error) {
	v, n, err := e.ReadUint64()

	return int64(v), n, err
}

// WriteUint64 writes a 64 bit value.
func (e *LittleEndianWriter) WriteUint64(d uint64) (int, error) {
	b := e.buffer[:8]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 32)
	b[5] = byte(d >> 40)
	b[6] = byte(d >> 48)
	b[7] = byte(d >> 56)

	return e.Writer.Write(b)
}

// WriteInt64 writes a signed 64 bit value.
func (e *LittleEndianWriter) WriteInt64(d int64) (int, error) { return e.WriteUint64(uint64(d)) }

// ReadFloat32 reads a float.
func (e *LittleEndianReader) ReadFloat32() (float32, int, error) {
	v, n, err := e.ReadUint32()

	return math.Float32frombits(v), n, err
}

// WriteFloat32 writes a float.
func (e *LittleEndianWriter) WriteFloat32(d float32) (int, error) {
	return e.WriteUint32(math.Float32bits(d))
}

// ReadFloat64 reads a float.
func (e *LittleEndianReader) ReadFloat64() (float64, int, error) {
	v, n, err := e.ReadUint64()

	return math.Float64frombits(v), n, err
}

// WriteFloat64 writes a float.
func (e *LittleEndianWriter) WriteFloat64(d float64) (int, error) {
	return e.WriteUint64(math.Float64bits(d))
}

// StickyLittleEndianReader reads little endian values.
type StickyLittleEndianReader struct {
	io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}

// StickyLittleEndianWriter writes little endian values.
type StickyLittleEndianWriter struct {
	io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (e *StickyLittleEndianReader) Read(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}

func (e *StickyLittleEndianReader) fill(n int) []byte {
	if e.Err != nil {
		return nil
	}

	m, err := io.ReadFull(e.Reader, e.buffer[:n])
	e.Count += int64(m)
	e.Err = err

	if err != nil {
		return nil
	}

	return e.buffer[:n]
}

// Write implements io.Writer.
func (e *StickyLittleEndianWriter) Write(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}

// GetError returns the sticky error.
func (e *StickyLittleEndianReader) GetError() error { return e.Err }

// GetError returns the sticky error.
func (e *StickyLittleEndianWriter) GetError() error { return e.Err }

// GetCount returns the number of bytes read.
func (e *StickyLittleEndianReader) GetCount() int64 { return e.Count }

// GetCount returns the number of bytes written.
func (e *StickyLittleEndianWriter) GetCount() int64 { return e.Count }

// ReadUint8 reads a 8 bit value.
func (e *StickyLittleEndianReader) ReadUint8() uint8 {
	b := e.fill(1)
	if b == nil {
		return 0
	}

	return uint8(b[0])
}

// ReadInt8 reads a signed 8 bit value.
func (e *StickyLittleEndianReader) ReadInt8() int8 { return int8(e.ReadUint8()) }

// WriteUint8 writes a 8 bit value.
func (e *StickyLittleEndianWriter) WriteUint8(d uint8) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:1]
	b[0] = byte(d)
	e.Write(b)
}

// WriteInt8 writes a signed 8 bit value.
func (e *StickyLittleEndianWriter) WriteInt8(d int8) { e.WriteUint8(uint8(d)) }

// ReadUint16 reads a 16 bit value.
func (e *StickyLittleEndianReader) ReadUint16() uint16 {
	b := e.fill(2)
	if b == nil {
		return 0
	}

	return uint16(b[0]) | uint16(b[1])<<8
}

// ReadInt16 reads a signed 16 bit value.
func (e *StickyLittleEndianReader) ReadInt16() int16 { return int16(e.ReadUint16()) }

// WriteUint16 writes a 16 bit value.
func (e *StickyLittleEndianWriter) WriteUint16(d uint16) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:2]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	e.Write(b)
}

// WriteInt16 writes a signed 16 bit value.
func (e *StickyLittleEndianWriter) WriteInt16(d int16) { e.WriteUint16(uint16(d)) }

// ReadUint24 reads a 24 bit value.
func (e *StickyLittleEndianReader) ReadUint24() uint32 {
	b := e.fill(3)
	if b == nil {
		return 0
	}

	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16
}

// ReadInt24 reads a signed 24 bit value.
func (e *StickyLittleEndianReader) ReadInt24() int32 { return int32(e.ReadUint24()<<8) >> 8 }

// WriteUint24 writes a 24 bit value.
func (e *StickyLittleEndianWriter) WriteUint24(d uint32) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:3]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	e.Write(b)
}

// WriteInt24 writes a signed 24 bit value.
func (e *StickyLittleEndianWriter) WriteInt24(d int32) { e.WriteUint24(uint32(d)) }

// ReadUint32 reads a 32 bit value.
func (e *StickyLittleEndianReader) ReadUint32() uint32 {
	b := e.fill(4)
	if b == nil {
		return 0
	}

	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// ReadInt32 reads a signed 32 bit value.
func (e *StickyLittleEndianReader) ReadInt32() int32 { return int32(e.ReadUint32()) }

// WriteUint32 writes a 32 bit value.
func (e *StickyLittleEndianWriter) WriteUint32(d uint32) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:4]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	e.Write(b)
}

// WriteInt32 writes a signed 32 bit value.
func (e *StickyLittleEndianWriter) WriteInt32(d int32) { e.WriteUint32(uint32(d)) }

// ReadUint40 reads a 40 bit value.
func (e *StickyLittleEndianReader) ReadUint40() uint64 {
	b := e.fill(5)
	if b == nil {
		return 0
	}

	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32
}

// ReadInt40 reads a signed 40 bit value.
func (e *StickyLittleEndianReader) ReadInt40() int64 { return int64(e.ReadUint40()<<24) >> 24 }

// WriteUint40 writes a 40 bit value.
func (e *StickyLittleEndianWriter) WriteUint40(d uint64) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:5]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 32)
	e.Write(b)
}

// WriteInt40 writes a signed 40 bit value.
func (e *StickyLittleEndianWriter) WriteInt40(d int64) { e.WriteUint40(uint64(d)) }

// ReadUint48 reads a 48 bit value.
func (e *StickyLittleEndianReader) ReadUint48() uint64 {
	b := e.fill(6)
	if b == nil {
		return 0
	}

	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40
}

// ReadInt48 reads a signed 48 bit value.
func (e *StickyLittleEndianReader) ReadInt48() int64 { return int64(e.ReadUint48()<<16) >> 16 }

// WriteUint48 writes a 48 bit value.
func (e *StickyLittleEndianWriter) WriteUint48(d uint64) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:6]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 32)
	b[5] = byte(d >> 40)
	e.Write(b)
}

// WriteInt48 writes a signed 48 bit value.
func (e *StickyLittleEndianWriter) WriteInt48(d int64) { e.WriteUint48(uint64(d)) }

// ReadUint56 reads a 56 bit value.
func (e *StickyLittleEndianReader) ReadUint56() uint64 {
	b := e.fill(7)
	if b == nil {
		return 0
	}

	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48
}

// ReadInt56 reads a signed 56 bit value.
func (e *StickyLittleEndianReader) ReadInt56() int64 { return int64(e.ReadUint56()<<8) >> 8 }

// WriteUint56 writes a 56 bit value.
func (e *StickyLittleEndianWriter) WriteUint56(d uint64) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:7]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 32)
	b[5] = byte(d >> 40)
	b[6] = byte(d >> 48)
	e.Write(b)
}

// WriteInt56 writes a signed 56 bit value.
func (e *StickyLittleEndianWriter) WriteInt56(d int64) { e.WriteUint56(uint64(d)) }

// ReadUint64 reads a 64 bit value.
func (e *StickyLittleEndianReader) ReadUint64() uint64 {
	b := e.fill(8)
	if b == nil {
		return 0
	}

	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}

// ReadInt64 reads a signed 64 bit value.
func (e *StickyLittleEndianReader) ReadInt64() int64 { return int64(e.ReadUint64()) }

// WriteUint64 writes a 64 bit value.
func (e *StickyLittleEndianWriter) WriteUint64(d uint64) {
	if e.Err != nil {
		return
	}

	b := e.buffer[:8]
	b[0] = byte(d)
	b[1] = byte(d >> 8)
	b[2] = byte(d >> 16)
	b[3] = byte(d >> 24)
	b[4] = byte(d >> 32)
	b[5] = byte(d >> 40)
	b[6] = byte(d >> 48)
	b[7] = byte(d >> 56)
	e.Write(b)
}

// WriteInt64 writes a signed 64 bit value.
func (e *StickyLittleEndianWriter) WriteInt64(d int64) { e.WriteUint64(uint64(d)) }

// ReadFloat32 reads a float.
func (e *StickyLittleEndianReader) ReadFloat32() float32 { return math.Float32frombits(e.ReadUint32()) }

// WriteFloat32 writes a float.
func (e *StickyLittleEndianWriter) WriteFloat32(d float32) { e.WriteUint32(math.Float32bits(d)) }

// ReadFloat64 reads a float.
func (e *StickyLittleEndianReader) ReadFloat64() float64 { return math.Float64frombits(e.ReadUint64()) }

// WriteFloat64 writes a float.
func (e *StickyLittleEndianWriter) WriteFloat64(d float64) { e.WriteUint64(math.Float64bits(d)) }

// ReadBool reads a boolean.
func (e *StickyLittleEndianReader) ReadBool() bool { return e.ReadUint8() != 0 }

// WriteBool writes a boolean.
func (e *StickyLittleEndianWriter) WriteBool(d bool) {
	if d {
		e.WriteUint8(1)
	} else {
		e.WriteUint8(0)
	}
}

// ReadBytes reads n bytes.
func (e *StickyLittleEndianReader) ReadBytes(n int) []byte {
	if e.Err != nil {
		return nil
	}

	b := make([]byte, n)
	m, err := io.ReadFull(e.Reader, b)
	e.Count += int64(m)
	e.Err = err

	return b[:m]
}

// ReadString reads a string of n bytes.
func (e *StickyLittleEndianReader) ReadString(n int) string { return string(e.ReadBytes(n)) }

// WriteString writes a string.
func (e *StickyLittleEndianWriter) WriteString(s string) (int, error) { return e.Write([]byte(s)) }
