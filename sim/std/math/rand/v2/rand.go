// Package rand replaces math/rand/v2: the default source is the simulator's.
package rand

import (
	real "math/rand/v2"

	rt "ZZSIM/rt"
)

type src struct{}

func (src) Uint64() uint64 { return rt.EnvUint64() }

var def = real.New(src{})

func Int64() int64                       { return def.Int64() }
func Uint32() uint32                     { return def.Uint32() }
func Uint64() uint64                     { return def.Uint64() }
func Int32() int32                       { return def.Int32() }
func Int() int                           { return def.Int() }
func Int64N(n int64) int64               { return def.Int64N(n) }
func Uint64N(n uint64) uint64            { return def.Uint64N(n) }
func Int32N(n int32) int32               { return def.Int32N(n) }
func Uint32N(n uint32) uint32            { return def.Uint32N(n) }
func IntN(n int) int                     { return def.IntN(n) }
func UintN(n uint) uint                  { return def.UintN(n) }
func Float64() float64                   { return def.Float64() }
func Float32() float32                   { return def.Float32() }
func Perm(n int) []int                   { return def.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { def.Shuffle(n, swap) }
func NormFloat64() float64               { return def.NormFloat64() }
func ExpFloat64() float64                { return def.ExpFloat64() }

// N is rand.N.
func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	return Int(def.Uint64N(uint64(n)))
}
