// Package simrandv2 replaces math/rand/v2 in the instrumented copy of the code
// under test: every draw is a choice of the tape.
package simrandv2

import (
	"math/rand/v2"

	"vimagination.zapto.org/limage/zzverif/core"
)

// Types of math/rand/v2.
type (
	Rand   = rand.Rand
	Source = rand.Source
	Zipf   = rand.Zipf
)

func draw(n uint64) uint64 {
	if r := core.Cur(); r != nil {
		return r.R(n)
	}

	return rand.Uint64() % n
}

type source struct{}

func (source) Uint64() uint64 { return draw(1<<63)<<1 | draw(2) }

// New returns a Rand.
func New(s Source) *Rand { return rand.New(s) }

// PCG and ChaCha8 are sources of the code under test, which are not for use by
// several threads at once.
type (
	PCG struct {
		rand.PCG
		state [1]byte
	}
	ChaCha8 struct {
		rand.ChaCha8
		state [1]byte
	}
)

func use(state []byte) {
	core.Wrote(state)

	if r := core.Cur(); r != nil {
		r.Point("random number")
	}
}

func (p *PCG) Uint64() uint64 {
	use(p.state[:])

	return p.PCG.Uint64()
}

func (c *ChaCha8) Uint64() uint64 {
	use(c.state[:])

	return c.ChaCha8.Uint64()
}

// NewPCG and NewChaCha8 are those of math/rand/v2.
func NewPCG(a, b uint64) *PCG           { return &PCG{PCG: *rand.NewPCG(a, b)} }
func NewChaCha8(seed [32]byte) *ChaCha8 { return &ChaCha8{ChaCha8: *rand.NewChaCha8(seed)} }

func check[T int | int32 | int64](n T) uint64 {
	if n <= 0 {
		panic("invalid argument to IntN")
	}

	return uint64(n)
}

// The functions are those of math/rand/v2.
func Int64() int64                       { return int64(draw(1 << 63)) }
func Uint32() uint32                     { return uint32(draw(1 << 32)) }
func Uint64() uint64                     { return draw(1<<63)<<1 | draw(2) }
func Int32() int32                       { return int32(draw(1 << 31)) }
func Int() int                           { return int(draw(1 << 63)) }
func Uint() uint                         { return uint(Uint64()) }
func Int64N(n int64) int64               { return int64(draw(check(n))) }
func Uint64N(n uint64) uint64            { return draw(n) }
func Int32N(n int32) int32               { return int32(draw(check(n))) }
func Uint32N(n uint32) uint32            { return uint32(draw(uint64(n))) }
func UintN(n uint) uint                  { return uint(draw(uint64(n))) }
func IntN(n int) int                     { return int(draw(check(n))) }
func Float64() float64                   { return float64(draw(1<<53)) / (1 << 53) }
func Float32() float32                   { return float32(draw(1<<24)) / (1 << 24) }
func NormFloat64() float64               { return rand.New(source{}).NormFloat64() }
func ExpFloat64() float64                { return rand.New(source{}).ExpFloat64() }
func Perm(n int) []int                   { return rand.New(source{}).Perm(n) }
func Shuffle(n int, swap func(i, j int)) { rand.New(source{}).Shuffle(n, swap) }

// N draws below n.
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}

	return T(draw(uint64(n)))
}
