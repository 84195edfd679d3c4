//go:build go1.23

// Package crand replaces crypto/rand in the code under test.
package crand

import (
	"io"
	"math/big"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Rand64() >> 8)
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }
func Int(_ io.Reader, max *big.Int) (*big.Int, error) {
	v := new(big.Int).SetUint64(simrt.Rand64())
	return v.Mod(v, max), nil
}
