//go:build go1.23

// Package mrand replaces math/rand in the code under test.
package mrand

import (
	"math/rand"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

type Rand = rand.Rand
type Source = rand.Source
type Source64 = rand.Source64
type Zipf = rand.Zipf

func New(s Source) *Rand          { return rand.New(s) }
func NewSource(seed int64) Source { return rand.NewSource(int64(simrt.Rand64())) }
func Seed(int64)                  {}
func Uint32() uint32              { return simrt.Rand32() }
func Uint64() uint64              { return simrt.Rand64() }
func Int() int                    { return int(simrt.Rand64() >> 1) }
func Int31() int32                { return int32(simrt.Rand32() >> 1) }
func Int63() int64                { return int64(simrt.Rand64() >> 1) }
func Intn(n int) int              { return int(simrt.Rand64() >> 1 % uint64(n)) }
func Int31n(n int32) int32        { return int32(simrt.Rand64() >> 1 % uint64(n)) }
func Int63n(n int64) int64        { return int64(simrt.Rand64() >> 1 % uint64(n)) }
func Float64() float64            { return float64(simrt.Rand64()>>11) / (1 << 53) }
func Float32() float32            { return float32(simrt.Rand64()>>40) / (1 << 24) }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Rand64() >> 8)
	}
	return len(p), nil
}
func Perm(n int) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := Intn(i + 1)
		m[i] = m[j]
		m[j] = i
	}
	return m
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, Intn(i+1))
	}
}
