// Package rand replaces math/rand: the default source is the simulator's.
package rand

import (
	real "math/rand"

	rt "ZZSIM/rt"
)

type src struct{}

func (src) Int63() int64    { return int64(rt.EnvUint64() >> 1) }
func (src) Uint64() uint64  { return rt.EnvUint64() }
func (src) Seed(seed int64) {}

var def = real.New(src{})

func Seed(int64)                              {}
func Int63() int64                            { return def.Int63() }
func Uint32() uint32                          { return def.Uint32() }
func Uint64() uint64                          { return def.Uint64() }
func Int31() int32                            { return def.Int31() }
func Int() int                                { return def.Int() }
func Int63n(n int64) int64                    { return def.Int63n(n) }
func Int31n(n int32) int32                    { return def.Int31n(n) }
func Intn(n int) int                          { return def.Intn(n) }
func Float64() float64                        { return def.Float64() }
func Float32() float32                        { return def.Float32() }
func Perm(n int) []int                        { return def.Perm(n) }
func Shuffle(n int, swap func(i, j int))      { def.Shuffle(n, swap) }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(rt.EnvUint64())
	}
	return len(p), nil
}
func NormFloat64() float64 { return def.NormFloat64() }
func ExpFloat64() float64  { return def.ExpFloat64() }
