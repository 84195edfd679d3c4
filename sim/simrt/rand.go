//go:build go1.23

package simrt

import "time"

// Random numbers handed to the code under test. Any value is legal, so the
// simulator prefers the awkward ones: close to wrap-around of 16 and 32 bit
// counters, or close to the clock (the other counter seed the library uses).

var preRng = splitmix{12345}
var randN uint32

func Rand64() uint64 {
	s := S
	if s == nil {
		return preRng.next()
	}
	hi := uint64(Rand32())
	return hi<<32 | uint64(Rand32())
}

func Rand32() uint32 {
	s := S
	if s == nil {
		return uint32(preRng.next() >> 20)
	}
	st := "rand"
	randN++
	// distinct values in replay even when all draws are 0
	base := uint32(0x1000_0000) + randN*0x10001
	switch s.Pick(st, 6, 1, 1, 2) {
	case 1:
		return 0xFFFFFFFF - uint32(s.Draw(st, 40)) - randN*64
	case 2:
		return base&0xFFFF0000 | uint32(0xFFFF-s.Draw(st, 30))
	case 3:
		return base&0xFFFF0000 | uint32(uint16(uint32(time.Now().UnixMilli())+uint32(s.Draw(st, 32)-8)))
	}
	return base + uint32(s.Draw(st, 65536))<<16 + uint32(s.Draw(st, 65536))
}
