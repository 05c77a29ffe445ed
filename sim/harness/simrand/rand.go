// Package rand stands for math/rand in the library under test: what it draws is decided
// by the simulator.
package rand

import (
	"math/rand"

	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Random() }
func (src) Int63() int64   { return int64(simrt.Random() >> 1) }
func (src) Seed(int64)     {}

var global = rand.New(src{})

var (
	New       = rand.New
	NewSource = rand.NewSource
	NewZipf   = rand.NewZipf

	ExpFloat64  = global.ExpFloat64
	Float32     = global.Float32
	Float64     = global.Float64
	Int         = global.Int
	Int31       = global.Int31
	Int31n      = global.Int31n
	Int63       = global.Int63
	Int63n      = global.Int63n
	Intn        = global.Intn
	NormFloat64 = global.NormFloat64
	Perm        = global.Perm
	Read        = global.Read
	Shuffle     = global.Shuffle
	Uint32      = global.Uint32
	Uint64      = global.Uint64
)

func Seed(int64) {}
