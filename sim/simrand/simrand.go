// Package simrand replaces math/rand in the instrumented copy of the code
// under test: every draw is a choice of the tape.
package simrand

import (
	"math/rand"

	"vimagination.zapto.org/limage/zzverif/core"
)

// Types of math/rand.
type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

func draw(n uint64) uint64 {
	if r := core.Cur(); r != nil {
		return r.R(n)
	}

	return rand.Uint64() % n
}

type source struct{}

func (source) Int63() int64   { return int64(draw(1 << 63)) }
func (source) Uint64() uint64 { return draw(1<<63)<<1 | draw(2) }
func (source) Seed(int64)     {}

// own is a source of the code under test, which is not for use by several
// threads at once.
type own struct {
	rand.Source64
	state [1]byte
}

func (o *own) use() {
	core.Wrote(o.state[:])

	if r := core.Cur(); r != nil {
		r.Point("random number")
	}
}

func (o *own) Int63() int64 {
	o.use()

	return o.Source64.Int63()
}

func (o *own) Uint64() uint64 {
	o.use()

	return o.Source64.Uint64()
}

func (o *own) Seed(seed int64) {
	o.use()
	o.Source64.Seed(seed)
}

// NewSource is that of math/rand: the same seed gives the same numbers.
func NewSource(seed int64) Source { return &own{Source64: rand.NewSource(seed).(rand.Source64)} }

// New returns a Rand.
func New(s Source) *Rand { return rand.New(s) }

// NewZipf returns a Zipf.
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }

// Seed makes the draws that follow those of the seed.
func Seed(seed int64) {
	if r := core.Cur(); r != nil {
		r.Reseed(uint64(seed))
	}
}

func check[T int | int32 | int64](n T) uint64 {
	if n <= 0 {
		panic("invalid argument to Intn")
	}

	return uint64(n)
}

// Int63 and the others are those of math/rand.
func Int63() int64         { return int64(draw(1 << 63)) }
func Uint32() uint32       { return uint32(draw(1 << 32)) }
func Uint64() uint64       { return draw(1<<63)<<1 | draw(2) }
func Int31() int32         { return int32(draw(1 << 31)) }
func Int() int             { return int(draw(1 << 63)) }
func Int63n(n int64) int64 { return int64(draw(check(n))) }
func Int31n(n int32) int32 { return int32(draw(check(n))) }
func Intn(n int) int       { return int(draw(check(n))) }
func Float64() float64     { return float64(draw(1<<53)) / (1 << 53) }
func Float32() float32     { return float32(draw(1<<24)) / (1 << 24) }
func NormFloat64() float64 { return rand.New(source{}).NormFloat64() }
func ExpFloat64() float64  { return rand.New(source{}).ExpFloat64() }
func Perm(n int) []int     { return rand.New(source{}).Perm(n) }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(draw(256))
	}

	return len(p), nil
}

// Shuffle shuffles.
func Shuffle(n int, swap func(i, j int)) { rand.New(source{}).Shuffle(n, swap) }
