// Package rand replaces crypto/rand.
package rand

import (
	"io"
	"math/big"

	rt "ZZSIM/rt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(rt.EnvUint64())
	}
	return len(p), nil
}

// Reader is the simulator's source.
var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Mod(new(big.Int).SetUint64(rt.EnvUint64()), max), nil
}

func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[rt.EnvUint64()%32]
	}
	return string(b)
}
