//go:build go1.23

// Package mrand2 replaces math/rand/v2 in the code under test.
package mrand2

import (
	"math/rand/v2"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

type Rand = rand.Rand
type Source = rand.Source

func New(s Source) *Rand           { return rand.New(s) }
func NewPCG(a, b uint64) *rand.PCG { return rand.NewPCG(simrt.Rand64(), simrt.Rand64()) }
func Uint32() uint32               { return simrt.Rand32() }
func Uint64() uint64               { return simrt.Rand64() }
func Int() int                     { return int(simrt.Rand64() >> 1) }
func Int32() int32                 { return int32(simrt.Rand32() >> 1) }
func Int64() int64                 { return int64(simrt.Rand64() >> 1) }
func IntN(n int) int               { return int(simrt.Rand64() >> 1 % uint64(n)) }
func Int32N(n int32) int32         { return int32(simrt.Rand64() >> 1 % uint64(n)) }
func Uint32N(n uint32) uint32      { return uint32(simrt.Rand64() >> 1 % uint64(n)) }
func Int64N(n int64) int64         { return int64(simrt.Rand64() >> 1 % uint64(n)) }
func Uint64N(n uint64) uint64      { return simrt.Rand64() >> 1 % n }
func Float64() float64             { return float64(simrt.Rand64()>>11) / (1 << 53) }
func Float32() float32             { return float32(simrt.Rand64()>>40) / (1 << 24) }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, IntN(i+1))
	}
}
