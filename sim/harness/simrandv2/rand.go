// Package rand stands for math/rand/v2 in the library under test: what it draws is decided
// by the simulator.
package rand

import (
	"math/rand/v2"

	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

type (
	ChaCha8 = rand.ChaCha8
	PCG     = rand.PCG
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Random() }
func (src) Int63() int64   { return int64(simrt.Random() >> 1) }
func (src) Seed(int64)     {}

var global = rand.New(src{})

var (
	New        = rand.New
	NewChaCha8 = rand.NewChaCha8
	NewPCG     = rand.NewPCG
	NewZipf    = rand.NewZipf

	ExpFloat64  = global.ExpFloat64
	Float32     = global.Float32
	Float64     = global.Float64
	Int         = global.Int
	Int32       = global.Int32
	Int32N      = global.Int32N
	Int64       = global.Int64
	Int64N      = global.Int64N
	IntN        = global.IntN
	NormFloat64 = global.NormFloat64
	Perm        = global.Perm
	Shuffle     = global.Shuffle
	Uint        = global.Uint
	Uint32      = global.Uint32
	Uint32N     = global.Uint32N
	Uint64      = global.Uint64
	Uint64N     = global.Uint64N
	UintN       = global.UintN
)

func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(global.Uint64N(uint64(n)))
}
