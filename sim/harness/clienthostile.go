//go:build go1.23

package harness

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// Hostile controllers (C07): responses are replaced, damaged or rearranged.
//
// Two kinds are told apart. A "lie" says something untrue, so what a call that
// received one returns is not judged, only that it returns, in time and
// without taking the process or its memory along. A response that is merely
// odd (cut short, items missing, added or in another place, error statuses,
// another request's response) still tells the truth about what it describes:
// a call that reports success must then return what the controller held.

// valueKeys are the violations that only count when the call was told the truth.
var valueKeys = map[string]bool{"wrong-read": true, "stale-read": true, "wrong-attr": true, "wrong-listing": true, "missing-tag": true, "phantom-tag": true,
	"wrong-template": true, "missing-template": true, "phantom-template": true, "wrong-programs": true, "wrong-identity": true, "spurious-error": true,
	"bad-fragment": true, "hidden-error": true, "lifecycle": true}

var shortKeys = map[string]bool{"wrong-attr": true, "missing-tag": true, "missing-template": true, "wrong-programs": true, "wrong-identity": true}

type hostile struct {
	h     *H
	w     *CW
	s     *simrt.Sim
	pm    int // per mille of responses touched
	lies  int // percent of those that lie
	prev  [][]byte
	n     int // lies told
	odd   int // odd but true responses
	short int // of these, ones which leave something out or add something
	errs  int // error statuses given to read and write services
	aerrs int // ... to attribute and generic services
	after int // responses to leave alone first
	noVal bool
	dups  bool // the connection was dropped with a request still unanswered
}

// mangle is the controller's outgoing hook.
func (x *hostile) mangle(f []byte) (out []byte, cut bool) {
	s := x.s
	keep := append([]byte(nil), f...)
	defer func() {
		x.prev = append(x.prev, keep)
		if len(x.prev) > 6 {
			x.prev = x.prev[1:]
		}
	}()
	if x.after > 0 {
		x.after--
		return f, false
	}
	if !s.ChanceM("mangle", x.pm) {
		return f, false
	}
	x.h.Nontrivial = true
	if !s.Chance("mangle", x.lies) {
		g, what := x.truth(f)
		if what == "" {
			return f, false
		}
		x.odd++
		if what == "cut_short" || what == "with_extra_bytes" || what == "error_status" {
			x.short++
		}
		x.dups = x.dups || what == "sent_twice" || what == "repeated_instead"
		s.Stat("fault.response_" + what)
		s.Logf("plc: odd response (%s) to %s: % x", what, frameName(f), trunc(g, 120))
		return g, false
	}
	x.n++
	g, what, cut := x.lie(f)
	s.Stat("fault.response_" + what)
	s.Logf("plc: false response (%s): % x instead of % x", what, trunc(g, 120), trunc(f, 120))
	return g, cut
}

func (x *hostile) lie(f []byte) (g []byte, what string, cut bool) {
	s := x.s
	var other []byte
	if len(x.prev) > 0 {
		other = x.prev[s.Draw("mangle", len(x.prev))]
	}
	cut = s.Draw("mangle", 12) == 0
	switch s.Pick("mangle", 3, 4, 8, 2, 1, 3) {
	case 0:
		return mutate(s, "mangle", f, other), "damaged_frame", cut
	case 1: // the encapsulation length still fits
		body := mutate(s, "mangle", f[24:], other)
		g = append(append([]byte(nil), f[:24]...), body...)
		binary.LittleEndian.PutUint16(g[2:], uint16(len(body)))
		return g, "damaged_body", cut
	case 2: // all lengths outside of the message fit
		pre, m := splitReply(f)
		if m == nil {
			return mutate(s, "mangle", f, other), "damaged_frame", cut
		}
		_, om := splitReply(other)
		return joinReply(pre, mutate(s, "mangle", m, om)), "damaged_message", cut
	case 3:
		b := make([]byte, s.Draw("mangle", 200))
		for i := range b {
			b[i] = byte(s.Draw("mangle", 256))
		}
		return b, "garbage", cut
	case 4: // an endless supply of bytes
		b := make([]byte, 65535+24)
		copy(b, f)
		binary.LittleEndian.PutUint16(b[2:], 65535)
		return b, "long_garbage", cut
	}
	// counts and sizes at the places where replies have them
	pre, m := splitReply(f)
	if m == nil || len(m) < 4 {
		return mutate(s, "mangle", f, other), "damaged_frame", cut
	}
	m = append([]byte(nil), m...)
	at := 4 + s.Draw("mangle", 24)
	v := uint32(extremes[s.Draw("mangle", len(extremes))])
	switch w := 1 << s.Draw("mangle", 3); {
	case at+w > len(m):
		m[3] = byte(v)
	case w == 1:
		m[at] = byte(v)
	case w == 2:
		copy(m[at:], le16(uint16(v)))
	default:
		copy(m[at:], le32(v))
	}
	if s.Draw("mangle", 3) == 0 {
		m[2] = byte(s.Draw("mangle", 0x30))
	}
	return joinReply(pre, m), "extreme_field", cut
}

// splitReply separates the CIP message of a response from what precedes it.
func splitReply(f []byte) (pre, m []byte) {
	if len(f) < 44 {
		return f, nil
	}
	switch g16(f) {
	case 0x6F:
		return f[:40], f[40:]
	case 0x70:
		if len(f) >= 46 {
			return f[:46], f[46:]
		}
	}
	return f, nil
}

// joinReply is the inverse, with the lengths adjusted.
func joinReply(pre, m []byte) []byte {
	g := append(append([]byte(nil), pre...), m...)
	binary.LittleEndian.PutUint16(g[2:], uint16(len(g)-24))
	switch g16(pre) {
	case 0x6F:
		binary.LittleEndian.PutUint16(g[38:], uint16(len(m)))
	case 0x70:
		binary.LittleEndian.PutUint16(g[42:], uint16(len(m)+2))
	}
	return g
}

// isTagReply: replies to the tag services, whose errors a call has to report.
func isTagReply(svc byte) bool {
	return svc == 0xCC || svc == 0xCD || svc == 0xD2 || svc == 0x8A
}

func someStatus(s *simrt.Sim) byte {
	return []byte{0x01, 0x04, 0x05, 0x08, 0x0C, 0x0F, 0x10, 0x13, 0x16, 0x26, 0x80, 0xFF, 0x03, 0x02}[s.Draw("mangle", 14)]
}

func extWords(s *simrt.Sim) []byte {
	n := []int{0, 1, 2, 5}[s.Draw("mangle", 4)]
	o := []byte{byte(n)}
	for i := 0; i < n; i++ {
		o = append(o, le16([]uint16{0x2104, 0x2105, 0, 0xFFFF, 0x0113}[s.Draw("mangle", 5)])...)
	}
	return o
}

// truth rearranges a response without making it say anything untrue.
func (x *hostile) truth(f []byte) (g []byte, what string) {
	s := x.s
	pre, m := splitReply(f)
	if m == nil || len(m) < 4 || len(m) < 4+2*int(m[3]) {
		return f, ""
	}
	svc, status := m[0], m[2]
	data := m[4+2*int(m[3]):]
	head := m[:4+2*int(m[3])]
	items := multiItemsOf(m)
	k := s.Pick("mangle", 4, 2, 3, 8, 1, 1)
	if k == 3 && items == nil {
		k = 0
	}
	switch k {
	case 0:
		if len(data) == 0 {
			return f, ""
		}
		n := 1 + s.Draw("mangle", min(len(data), 24))
		if s.Draw("mangle", 3) == 0 {
			n = 1 + s.Draw("mangle", len(data))
		}
		return joinReply(pre, m[:len(m)-n]), "cut_short"
	case 1:
		if status == 6 || svc == 0x55|0x80 || svc == 0x4C|0x80 && len(data) < 8 {
			return f, ""
		}
		return joinReply(pre, cat(m, noise(s))), "with_extra_bytes"
	case 2:
		st := someStatus(s)
		if svc == 0xDB || svc == 0xD4 {
			return f, ""
		}
		if isTagReply(svc) {
			x.errs++
		} else {
			x.aerrs++
		}
		o := append([]byte{svc, 0, st}, extWords(s)...)
		if s.Draw("mangle", 2) == 1 {
			o = append(o, data...)
		}
		return joinReply(pre, o), "error_status"
	case 3:
		return joinReply(pre, x.shuffle(head, items)), "items_changed"
	case 4:
		if len(x.prev) == 0 {
			return f, ""
		}
		// the response to an earlier request once more instead of this one
		old := x.prev[s.Draw("mangle", len(x.prev))]
		if g16(old) != 0x70 || g16(f) != 0x70 {
			return f, ""
		}
		return old, "repeated_instead"
	}
	if g16(f) != 0x70 {
		return f, ""
	}
	return cat(f, f), "sent_twice"
}

func noise(s *simrt.Sim) []byte {
	b := make([]byte, 1+s.Draw("mangle", 12))
	for i := range b {
		b[i] = byte(s.Draw("mangle", 256))
	}
	return b
}

// multiItemsOf splits a multi service reply.
func multiItemsOf(m []byte) [][]byte {
	if m[0] != 0x8A || m[3] != 0 || len(m) < 6 || m[2] != 0 && m[2] != 0x1E {
		return nil
	}
	d := m[4:]
	n := int(g16(d))
	if n == 0 || len(d) < 2+2*n {
		return nil
	}
	var items [][]byte
	for i := 0; i < n; i++ {
		a, b := int(g16(d[2+2*i:])), len(d)
		if i+1 < n {
			b = int(g16(d[4+2*i:]))
		}
		if a > b || b > len(d) || b-a < 4 {
			return nil
		}
		items = append(items, d[a:b])
	}
	return items
}

// shuffle makes another, equally true, multi service reply of the items.
func (x *hostile) shuffle(head []byte, items [][]byte) []byte {
	s := x.s
	n := len(items)
	count, status, moved := n, head[2], false
	gap := make([][]byte, n)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	items = append([][]byte(nil), items...)
	fail := func(k int) {
		it := items[k]
		o := append([]byte{it[0], 0, someStatus(s)}, extWords(s)...)
		if s.Draw("mangle", 3) == 0 && len(it) >= 4+2*int(it[3]) {
			o = append(o, it[4+2*int(it[3]):]...)
		}
		items[k] = o
		x.errs++
	}
	switch s.Pick("mangle", 4, 3, 3, 3, 2, 1) {
	case 0: // fewer items
		k := 1 + s.Draw("mangle", n)
		items, count, order = items[:n-k], n-k, order[:n-k]
	case 1: // items answered with an error
		k := s.Draw("mangle", n)
		fail(k)
		if s.Draw("mangle", 2) == 1 {
			status = 0x1E
		}
	case 2: // an item cut short
		k := s.Draw("mangle", n)
		items[k] = items[k][:s.Draw("mangle", len(items[k]))]
	case 3: // the items in another order, and gaps between them
		moved = true
		for i := n - 1; i > 0; i-- {
			j := s.Draw("mangle", i+1)
			order[i], order[j] = order[j], order[i]
		}
	case 4: // more items
		for i, k := 0, 1+s.Draw("mangle", 3); i < k; i++ {
			items = append(items, items[s.Draw("mangle", n)])
			order = append(order, n+i)
			gap = append(gap, nil)
		}
		if s.Draw("mangle", 3) > 0 {
			count = len(items)
		}
	case 5: // the data of the last item missing altogether
		items[n-1] = nil
	}
	if moved && s.Draw("mangle", 2) == 0 {
		gap[order[s.Draw("mangle", len(order))]] = noise(s)
	}
	offs := make([]int, len(items))
	pos := 2 + 2*count
	var body []byte
	for _, k := range order {
		body = append(body, gap[k]...)
		offs[k] = pos + len(body)
		body = append(body, items[k]...)
	}
	o := cat([]byte{head[0], 0, status, 0}, le16(uint16(count)))
	for i := 0; i < count; i++ {
		o = append(o, le16(uint16(offs[i]))...)
	}
	return append(o, body...)
}

// judge is called when a call has returned.
func (x *hostile) judge(ci *callInfo, op string, was hostile, mem0 uint64) {
	w := x.w
	n0, odd0, errs0 := was.n, was.odd, was.errs
	e := exemption{vals: x.noVal || x.n != n0}
	if x.short != was.short {
		// attributes are handed over as received, and a listing cannot tell what was left out
		e.keys = shortKeys
	}
	x.h.exemptNow(e)
	if ci.err == nil && w.tasks == 1 && x.aerrs != was.aerrs && x.n == n0 && !x.dups && !w.c.KeepAliveAutoStart && (strings.HasPrefix(op, "Get") || strings.HasPrefix(op, "Generic")) {
		x.h.Violate("hidden-error", "%s reported success although the controller answered with an error status", op)
	}
	if ci.err == nil && w.tasks == 1 && x.errs != errs0 && x.n == n0 && !x.dups && !w.c.KeepAlivePollTags && (strings.HasPrefix(op, "Read") || strings.HasPrefix(op, "Write")) {
		x.h.Violate("hidden-error", "%s reported success although the controller answered with an error status", op)
	}
	if d := allocated() - mem0; d > 300<<20 {
		x.h.Violate("memory", "%s: %d MB were allocated in the process meanwhile", op, d>>20)
	}
	if odd0 != x.odd && ci.err == nil {
		w.s.Stat("hostile.odd_ok")
	}
	if n0 != x.n {
		w.s.Stat("hostile.lied_call")
	}
}

func runHostileResponses(h *H) {
	s := h.S
	w := newCW(h, false)
	w.faulty = true // calls may fail
	h.noStalls()
	p := w.p
	p.FaultPM = 0
	x := &hostile{h: h, w: w, s: s}
	w.hostile = x
	x.pm = []int{60, 200, 500, 1000}[h.Pick("cfg.pm", 3, 4, 3, 1)]
	x.lies = []int{0, 50, 100}[h.Pick("cfg.lies", 4, 3, 4)]
	x.after = []int{0, 2, 5, 30}[h.Pick("cfg.after", 1, 4, 4, 1)]
	w.tasks = 1 + h.Pick("cfg.tasks", 6, 2, 1)
	disco := h.Pick("cfg.disco", 3, 2) == 1
	d := &disc{w: w}
	w.allTags = append([]*PTag(nil), p.tagList...)
	w.c.KeepAliveAutoStart = h.Pick("cfg.ka", 3, 2) == 1
	if w.c.KeepAliveAutoStart {
		w.c.KeepAliveFrequency = []time.Duration{30 * time.Second, 2 * time.Second}[h.Pick("cfg.ka", 1, 2)]
		if disco {
			w.c.KeepAlivePollTags = h.Pick("cfg.ka", 2, 1) == 1
		}
	}
	p.Mangle = x.mangle
	p.Lies = true
	if disco {
		// what a catalogue made of lies leads to is not judged
		x.noVal = x.lies > 0
		p.PageMax = []int{0, 1, 2, 7}[h.Pick("cfg.page", 2, 1, 2, 2)]
		if h.Pick("cfg.pop", 1, 1) == 1 {
			d.populate("pop0")
		} else {
			p.progIDs = []uint32{1, 2}
		}
		d.limit()
		w.maxEx *= 20
		if x.lies > 0 && h.Pick("cfg.cycle", 2, 1) == 1 {
			// structures that have members of their own type, or of one that has them as members
			seed := s.Draw("cfg.cycle", 1000)
			x.pm = []int{0, x.pm, 5}[h.Pick("cfg.cycle", 2, 1, 1)]
			p.mangleDef = func(u *UDT, def []byte) {
				k := seed + int(u.ID)*7
				if k%3 == 0 || len(u.Members) == 0 {
					return
				}
				x.n++
				s.Stat("fault.response_cyclic_template")
				h.Nontrivial = true
				to := u
				if k%3 == 1 {
					to = p.udts[k%len(p.udts)]
				}
				m := k % len(u.Members)
				binary.LittleEndian.PutUint16(def[8*m+2:], 0x8000|to.ID|uint16(k%2)<<13)
			}
		}
	}
	mix := [opCount]int{opRead: 12, opReadSingle: 5, opReadMap: 8, opReadList: 8, opReadMulti: 6, opReadGroup: 5, opReadBig: 6, opBigList: 3, opReadWrong: 2,
		opWrite: 5, opWriteMap: 3, opWriteMulti: 2, opAttrs: 6, opConnect: 2, opDisconnect: 3, opIdentity: 5, opSleep: 2}
	pr := &profile{ops: mix}
	if disco {
		pr.ops[opIdentity] = 2
	}
	w.lifeErr = true
	var ts []*simrt.Task
	for i := 0; i < w.tasks; i++ {
		name := fmt.Sprintf("t%d", i)
		n := 2 + s.Draw("cfg.nops", 10)
		ts = append(ts, s.Go(name, func() {
			for k := 0; k < n && !s.Stopped(); k++ {
				st := opStream(name, k)
				if disco && s.Draw(st, 2) == 1 {
					x.discover(st, d)
					continue
				}
				x.op(st, pr)
			}
		}))
	}
	s.Join(ts...)
	if s.Stopped() {
		return
	}
	w.checkSockets("after the workload")
	s.Logf("the controller behaves from now on")
	p.Healed = true
	x.noVal = false
	w.tasks = 1
	if disco {
		// a new listing replaces what the lies left behind
		ok := false
		for i := 0; i < 4 && !ok && !s.Stopped(); i++ {
			ok = d.listAll(0)
		}
		if !ok && !s.Stopped() {
			h.Violate("no-recovery", "four discoveries in a row failed after the responses had become well-formed")
		}
		w.maxEx = 0
	}
	if !s.Stopped() {
		w.recover()
	}
	if !s.Stopped() {
		w.finish()
	}
}

func (x *hostile) op(st string, pr *profile) {
	p := *pr
	big := false
	for _, t := range x.w.p.tagList {
		big = big || t.N*t.ES > 200 || t.N > 1 && t.UDT != nil
	}
	if !big {
		p.ops[opReadBig] = 0
	}
	x.w.op(st, &p)
}

func (x *hostile) discover(st string, d *disc) {
	w := x.w
	switch x.s.Pick(st, 1, 6, 3, 4, 2, 2, 2) {
	case 1:
		d.listAll(uint32(x.s.Draw(st, 2)))
	case 2:
		d.listSub(st)
	case 3:
		d.listMembers(st)
	case 4:
		d.listPrograms()
	case 5:
		d.tmplAttr(st)
	case 6:
		l := w.p.listing("")
		d.listAll(l[x.s.Draw(st, len(l))].inst)
	}
}

var _ = gologix.NewClient

func init() {
	register(&Check{Prop: "C07", Keys: []string{"unbounded", "memory", "no-recovery", "wrong-read", "stale-read", "wrong-attr", "hidden-error", "leaked-socket", "leaked-task", "two-sockets",
		"wrong-listing", "missing-tag", "phantom-tag", "wrong-template", "missing-template", "phantom-template", "wrong-programs"},
		Scen: []Scen{{Name: "responses", Weight: 1, Run: runHostileResponses}}})
}
