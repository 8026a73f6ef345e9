// Package simrand2 stands in for math/rand/v2: the global source is the run's
// seed.
package simrand2

import (
	"math/rand/v2"

	"verifsim/sim"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

type src struct{}

func (src) Uint64() uint64 { return sim.Rand() }

var global = rand.New(src{})

var (
	New        = rand.New
	NewPCG     = rand.NewPCG
	NewChaCha8 = rand.NewChaCha8
	NewZipf    = rand.NewZipf
)

func ExpFloat64() float64                { return global.ExpFloat64() }
func Float32() float32                   { return global.Float32() }
func Float64() float64                   { return global.Float64() }
func Int() int                           { return global.Int() }
func Int32() int32                       { return global.Int32() }
func Int32N(n int32) int32               { return global.Int32N(n) }
func Int64() int64                       { return global.Int64() }
func Int64N(n int64) int64               { return global.Int64N(n) }
func IntN(n int) int                     { return global.IntN(n) }
func NormFloat64() float64               { return global.NormFloat64() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func Uint() uint                         { return uint(global.Uint64()) }
func Uint32() uint32                     { return global.Uint32() }
func Uint32N(n uint32) uint32            { return global.Uint32N(n) }
func Uint64() uint64                     { return global.Uint64() }
func Uint64N(n uint64) uint64            { return global.Uint64N(n) }
func UintN(n uint) uint                  { return global.UintN(n) }

// N is a number in [0, n).
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(global.Uint64N(uint64(n)))
}
