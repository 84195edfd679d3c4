//go:build go1.23

// Package harness holds the reference models, workloads and oracles that run
// inside the simulator.
package harness

import (
	"encoding/binary"
	"fmt"
	"math"
	"time"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// H is the context of one simulated run.
type H struct {
	S          *simrt.Sim
	Prop       string
	tick       uint64
	Faulty     bool
	keys       map[string]bool // violation keys this check reports; nil: all
	Nontrivial bool
	avoid      map[string]bool // triggers of recorded known findings, not generated
	only       string          // known finding scenario to run
	desc       []string
	exempt     map[*simrt.Task]exemption
	exemptLast exemption
}

// exemption is what is not judged about the last call of a task.
type exemption struct {
	vals bool // the values it returned
	keys map[string]bool
}

func (h *H) exemptNow(e exemption) {
	if h.exempt == nil {
		h.exempt = map[*simrt.Task]exemption{}
	}
	h.exemptLast = e
	if t := simrt.Cur(); t != nil {
		h.exempt[t] = e
	}
}

// Tick returns a fresh position in the global order of the run.
func (h *H) Tick() uint64 { h.tick++; return h.tick }

// Violate reports a violation of one of the oracles of this check.
func (h *H) Violate(key, f string, a ...any) {
	e := h.exemptLast
	if t := simrt.Cur(); t != nil {
		e = h.exempt[t]
	}
	if e.vals && valueKeys[key] || e.keys[key] {
		return
	}
	if h.keys != nil && !h.keys[key] {
		h.S.Stat("other." + key)
		return
	}
	h.S.Violate(key, f, a...)
}

func (h *H) Pick(st string, w ...int) int { return h.S.Pick(st, w...) }

// schedule shape of this run
func (h *H) schedConfig() {
	s := h.S
	s.Cfg.SyncProb = []int{0, 5, 20, 50}[s.Pick("cfg.sync", 1, 2, 3, 2)]
	s.Cfg.Quantum = []int{0, 400, 100, 30}[s.Pick("cfg.quantum", 3, 2, 3, 2)]
	if s.Pick("cfg.stall", 4, 1) == 1 {
		s.Cfg.StallProb = 20
		s.Cfg.StallMax = []time.Duration{50 * time.Millisecond, 2 * time.Second, 15 * time.Second}[s.Draw("cfg.stall", 3)]
	}
}

// noStalls disables task stalls (for oracles about wall-clock promptness).
func (h *H) noStalls() { h.S.Cfg.StallProb = 0 }

func le16(v uint16) []byte { return binary.LittleEndian.AppendUint16(nil, v) }
func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func le64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }
func g16(b []byte) uint16  { return binary.LittleEndian.Uint16(b) }
func g32(b []byte) uint32  { return binary.LittleEndian.Uint32(b) }
func g64(b []byte) uint64  { return binary.LittleEndian.Uint64(b) }
func cat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

// ---------------------------------------------------------------- CIP types

const (
	tBOOL   = 0xC1
	tSINT   = 0xC2
	tINT    = 0xC3
	tDINT   = 0xC4
	tLINT   = 0xC5
	tUSINT  = 0xC6
	tUINT   = 0xC7
	tUDINT  = 0xC8
	tREAL   = 0xCA
	tLREAL  = 0xCB
	tBYTE   = 0xD1
	tWORD   = 0xD2
	tDWORD  = 0xD3
	tLWORD  = 0xD4
	tSTRUCT = 0xA0
	tSTRING = 0xFF // harness code for the built-in STRING structure
)

func typeSize(t byte) int {
	switch t {
	case tBOOL, tSINT, tUSINT, tBYTE:
		return 1
	case tINT, tUINT, tWORD:
		return 2
	case tDINT, tUDINT, tREAL, tDWORD:
		return 4
	case tLINT, tLREAL, tLWORD:
		return 8
	case tSTRING:
		return 88
	}
	panic("typeSize")
}

// genElem makes the bytes of one element from a value that is unique in the run
// (as far as the type can hold it).
func genElem(t byte, u uint64) []byte {
	switch t {
	case tBOOL:
		if u&1 == 1 {
			return []byte{[]byte{1, 0xFF}[u>>1&1]}
		}
		return []byte{0}
	case tSINT, tUSINT, tBYTE:
		return []byte{byte(u)}
	case tINT, tUINT, tWORD:
		return le16(uint16(u))
	case tDINT, tUDINT, tDWORD:
		return le32(uint32(u) * 2654435761)
	case tLINT, tLWORD:
		return le64(u * 0x9E3779B97F4A7C15)
	case tREAL:
		return le32(math.Float32bits(float32(u&0xFFFFFF) / 4))
	case tLREAL:
		return le64(math.Float64bits(float64(u) / 4))
	case tSTRING:
		str := fmt.Sprintf("v%d", u)
		switch u % 5 {
		case 0:
			for len(str) < 82 {
				str += string(rune('a' + len(str)%26))
			}
		case 1:
			for len(str) < int(u%80) {
				str += "z"
			}
		case 2:
			str += []string{"\x00", " ", "\x00\x00\x00", "\n"}[u/5%4]
		case 3:
			str = []string{"\x00", " ", "\xff\xfe", "\u00e9"}[u/5%4] + str
		}
		b := make([]byte, 88)
		binary.LittleEndian.PutUint32(b, uint32(len(str)))
		copy(b[4:86], str)
		return b
	}
	panic("genElem")
}

// decodeElem is the Go value of an element.
func decodeElem(t byte, b []byte) any {
	switch t {
	case tBOOL:
		return b[0] != 0
	case tSINT:
		return int8(b[0])
	case tUSINT, tBYTE:
		return b[0]
	case tINT:
		return int16(g16(b))
	case tUINT, tWORD:
		return g16(b)
	case tDINT:
		return int32(g32(b))
	case tUDINT, tDWORD:
		return g32(b)
	case tLINT:
		return int64(g64(b))
	case tLWORD:
		return g64(b)
	case tREAL:
		return math.Float32frombits(g32(b))
	case tLREAL:
		return math.Float64frombits(g64(b))
	case tSTRING:
		n := g32(b)
		if n > 82 {
			n = 82
		}
		return string(b[4 : 4+n])
	}
	panic("decodeElem")
}

// own CRC-16 (reflected 0x8005, initial value 0) of a structure definition
func crc16(s string) uint16 {
	var c uint16
	for i := 0; i < len(s); i++ {
		c ^= uint16(s[i])
		for k := 0; k < 8; k++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

// opID makes stream names for operations.
func opStream(task string, i int) string { return fmt.Sprintf("op/%s/%d", task, i) }
