// Package rand stands in for crypto/rand: randomness belongs to the simulator.
package rand

import (
	"io"
	"math/big"

	"verifsim/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rt.Rand().Uint64())
	}
	return len(b), nil
}

// Reader is the source.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }

// Int returns a value in [0,max).
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, (max.BitLen()+7)/8+8)
	io.ReadFull(r, b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}

// Text returns random text.
func Text() string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = a[rt.Rand().Intn(32)]
	}
	return string(b)
}
