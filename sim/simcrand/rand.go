// Package simcrand stands in for crypto/rand: the bytes come from the run's
// seed.
package simcrand

import (
	"io"
	"math/big"

	"verifsim/sim"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(sim.Rand() >> 11)
	}
	return len(p), nil
}

// Reader is the source of random bytes.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	b := make([]byte, max.BitLen()/8+9)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b)
	return n.Mod(n, max), nil
}

func Prime(r io.Reader, bits int) (*big.Int, error) {
	for {
		n, err := Int(r, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
		if err != nil {
			return nil, err
		}
		n.SetBit(n, bits-1, 1)
		n.SetBit(n, 0, 1)
		if n.ProbablyPrime(20) {
			return n, nil
		}
	}
}

func Text() string {
	const set = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	_, _ = Read(b)
	for i := range b {
		b[i] = set[b[i]%32]
	}
	return string(b)
}
