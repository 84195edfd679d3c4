//go:build go1.23

package harness

import (
	"fmt"
	"runtime/metrics"
	"syscall"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// atk is a peer that sends what it likes.
type atk struct {
	w    *SW
	o    *Orig // makes valid messages; its session is the hostile one
	inc  int
	open []*simrt.Conn
	prot []*ptag
	s    *simrt.Sim
	ids  []uint32
}

// ptag is a tag that only invalid requests are aimed at.
type ptag struct {
	p *mprov
	t *mtag
}

// learn takes what a hostile originator needs from a reply.
func (o *Orig) learn(f []byte) {
	if len(o.out) > 0 {
		o.out = o.out[1:]
	}
	switch g16(f) {
	case 0x65:
		o.handle = g32(f[4:])
	case 0x6F:
		// 16 bytes of items, then the CIP reply
		if len(f) >= 24+16+4+26 && f[24+16]&0x7F|0x0F == 0x5F && f[24+18] == 0 {
			d := f[24+16+4:]
			o.conns = append(o.conns, &oconn{o: o, ot: g32(d), to: g32(d[4:]), open: true, serial: g16(d[8:]), vendor: g16(d[10:]), osn: g32(d[12:]), path: o.w.provs[0].path})
		}
	}
}

var heapSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated is the number of bytes ever allocated by the process.
func allocated() uint64 {
	metrics.Read(heapSample)
	return heapSample[0].Value.Uint64()
}

// memory checks that not too much was allocated since the last time.
func (w *SW) memory(what string) {
	n := allocated()
	if w.memLimit != 0 && n > w.memLimit {
		w.h.Violate("memory", "more than %d MB were allocated %s", (n-w.memLimit)>>20+1500, what)
	}
	w.memLimit = n + 1500<<20
}

var extremes = []uint64{0, 1, 2, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 3, 4, 0x100, 0xFFF8}

// mutate damages a message.
func mutate(s *simrt.Sim, st string, m []byte, other []byte) []byte {
	m = append([]byte(nil), m...)
	for i, n := 0, 1+s.Pick(st, 6, 3, 1, 1); i < n; i++ {
		if len(m) == 0 {
			return append(m, make([]byte, s.Draw(st, 6))...)
		}
		// the beginning, where the lengths are, is hit more often
		at := s.Draw(st, len(m))
		if s.Draw(st, 2) == 1 {
			at = s.Draw(st, min(len(m), 48))
		}
		switch s.Draw(st, 11) {
		case 0:
			m[at] ^= 1 << s.Draw(st, 8)
		case 1:
			m[at] = byte(s.Draw(st, 256))
		case 2:
			m[at] = []byte{0, 1, 0x7F, 0x80, 0xFF, 0xFE, 4, 0x20}[s.Draw(st, 8)]
		case 3: // a 16 bit field
			if at+2 <= len(m) {
				v := uint16(extremes[s.Draw(st, len(extremes))])
				if s.Draw(st, 2) == 1 {
					v = g16(m[at:]) + uint16(s.Draw(st, 9)) - 4
				}
				copy(m[at:], le16(v))
			}
		case 4: // a 32 bit field
			if at+4 <= len(m) {
				v := uint32(extremes[s.Draw(st, len(extremes))])
				if s.Draw(st, 2) == 1 {
					v = g32(m[at:]) + uint32(s.Draw(st, 9)) - 4
				}
				copy(m[at:], le32(v))
			}
		case 5:
			m = m[:at]
		case 6:
			m = m[:max(len(m)-1-s.Draw(st, 6), 0)]
		case 7:
			k := min(1+s.Draw(st, 6), len(m)-at)
			m = append(m[:at], m[at+k:]...)
		case 8:
			b := make([]byte, 1+s.Draw(st, 6))
			for j := range b {
				b[j] = byte(s.Draw(st, 256))
			}
			m = cat(m[:at], b, m[at:])
		case 9:
			k := min(1+s.Draw(st, 20), len(m)-at)
			m = cat(m[:at+k], m[at:at+k], m[at+k:])
		case 10:
			if len(other) > 0 {
				m = cat(m[:at], other[s.Draw(st, len(other)):])
			}
		}
		if len(m) > 64000 {
			m = m[:64000]
		}
	}
	return m
}

// oddPath makes a path out of segments of all kinds, complete or not.
func (a *atk) oddPath(st string, name string) []byte {
	s := a.s
	var b []byte
	for i, n := 0, s.Draw(st, 5); i < n; i++ {
		switch s.Draw(st, 9) {
		case 0, 1:
			b = append(b, tagPath(name, -1, 0)...)
		case 2:
			b = append(b, tagPath(name, s.Draw(st, 300), s.Draw(st, 3))[len(tagPath(name, -1, 0)):]...)
		case 3:
			b = append(b, 0x91, byte(s.Draw(st, 256)))
		case 4:
			b = append(b, []byte{0x28, 0x29, 0x2A, 0x20, 0x21, 0x24, 0x25, 0x26, 0x30, 0x31, 0x91, 0x34, 1, 0x12, 0}[s.Draw(st, 15)])
		case 5:
			b = append(b, 0x20, []byte{1, 2, 6, 0x6B, 0x64, 0xC8, 0xAC}[s.Draw(st, 7)], 0x24, byte(s.Draw(st, 4)))
		case 6:
			b = append(b, 0x21, 0, byte(s.Draw(st, 256)), 0, 0x25, 0, byte(s.Draw(st, 9)), byte(s.Draw(st, 256)))
		case 7:
			b = append(b, 0x91, 0)
		case 8:
			b = append(b, 0x30, byte(s.Draw(st, 9)))
		}
	}
	return b
}

// odd makes a CIP message with fields that each look fine alone.
func (a *atk) odd(st string) []byte {
	s, o := a.s, a.o
	p := a.w.provs[s.Draw(st, len(a.w.provs))]
	l := o.owned(p, a.inc)
	t := l[s.Draw(st, len(l))]
	path := a.oddPath(st, t.name)
	if s.Draw(st, 2) == 1 {
		path = tagPath(t.name, -1, 0)
	}
	svc := []byte{0x4D, 0x4C, 0x52, 0x4D, 0x0E, 0x01, 0x55, 0x0A, 0x54, 0x5B, 0x4E, 0x10}[s.Draw(st, 12)]
	if svc == 0x10 && s.Draw(st, 3) > 0 {
		// the object that sets tags by number is not for playing with
		path = []byte{0x20, 1, 0x24, 1, 0x30, 7}
	} else if svc == 0x10 {
		svc = 0x0E
	}
	m := []byte{svc, byte(len(path) / 2)}
	if s.Draw(st, 6) == 1 {
		m[1] = byte(s.Draw(st, 256))
	}
	m = append(m, path...)
	num := func() uint16 {
		if s.Draw(st, 2) == 1 {
			return uint16(s.Draw(st, 5))
		}
		return uint16(extremes[s.Draw(st, len(extremes))])
	}
	switch svc {
	case 0x4D, 0x10:
		typ := []byte{t.typ, 0xA0, 0xA0, 0xC1, 0xC4, 0xCA, 0xDA, 0xD3, 0, 0xFF, 0xA2}[s.Draw(st, 11)]
		m = append(m, typ, []byte{0, 1, 2, 2, 3, 0xFF}[s.Draw(st, 6)])
		if s.Draw(st, 2) == 1 {
			m = append(m, 0xCE, 0x0F)
		}
		m = append(m, le16(num())...)
		m = append(m, genElem([]byte{t.typ, tSTRING, tLINT}[s.Draw(st, 3)], a.w.next())...)
		if s.Draw(st, 3) == 1 {
			m = append(m, make([]byte, s.Draw(st, 100))...)
		}
	case 0x4C, 0x52:
		m = append(m, le16(num())...)
		m = append(m, le32(uint32(extremes[s.Draw(st, len(extremes))]))...)
		m = m[:len(m)-[]int{0, 4, 1, 5}[s.Draw(st, 4)]]
	case 0x0A:
		m = append(m, le16(num())...)
		for i, n := 0, s.Draw(st, 6); i < n; i++ {
			m = append(m, le16(num())...)
		}
		m = append(m, a.message(st)...)
	case 0x55:
		m = append(m, le16(num())...)
		for i, n := 0, s.Draw(st, 6); i < n; i++ {
			m = append(m, le16(num())...)
		}
	default:
		for i, n := 0, s.Draw(st, 20); i < n; i++ {
			m = append(m, le16(num())...)
		}
	}
	return m
}

// message makes a valid CIP message.
func (a *atk) message(st string) []byte {
	s, o, w := a.s, a.o, a.w
	p := w.provs[s.Draw(st, len(w.provs))]
	tag := func() []byte {
		for {
			if q := o.genTagReq(st, p, a.inc, false); len(q.m) < 4000 {
				return q.m
			}
		}
	}
	cid := uint16(s.Draw(st, 4))
	switch s.Pick(st, 8, 4, 4, 3, 2, 2, 2, 1) {
	case 1: // list
		n := 1 + s.Draw(st, 6)
		offs, pos := le16(uint16(n)), 2+2*n
		var body []byte
		for i := 0; i < n; i++ {
			m := tag()
			offs = append(offs, le16(uint16(pos))...)
			body = append(body, m...)
			pos += len(m)
		}
		return svcPath(0x0A, []byte{0x20, 2, 0x24, 1}, offs, body)
	case 2:
		f := foParams{large: s.Draw(st, 2) == 1, to: uint32(s.Draw(st, 4)), serial: cid, vendor: 900 + uint16(o.idx), osn: 1, path: p.path, trigger: 0xA3, rpi: 2000000, size: 500}
		if s.Draw(st, 4) == 1 {
			f.trigger, f.path, f.rpi = 1, []byte{1, 7}, uint32([]int{500000, 2000000000, 4294967295, 0, 400000}[s.Draw(st, 5)])
		}
		return foMsg(f)
	case 3:
		return fcMsg(cid, 900+uint16(o.idx), 1)
	case 4:
		return svcPath(0x55, []byte{0x20, 0x6B, 0x25, 0, 0, 0}, le16(3), le16(1), le16(2), le16(8))
	case 5:
		return svcPath([]byte{0x0E, 1, 3}[s.Draw(st, 3)], []byte{0x20, 1, 0x24, 1, 0x30, byte(1 + s.Draw(st, 8))})
	case 6:
		return embed(tag(), p.path)
	case 7:
		return svcPath([]byte{0x0E, 1}[s.Draw(st, 2)], []byte{0x20, []byte{0x64, 0xC8, 0xAC, 0xF5}[s.Draw(st, 4)], 0x24, byte(1 + s.Draw(st, 9)), 0x30, 1})
	}
	return tag()
}

// wrap puts a CIP message in a frame.
func (a *atk) wrap(st string, m []byte) []byte {
	s, o := a.s, a.o
	cmd, body := uint16(0x6F), []byte(nil)
	switch {
	case len(o.conns) > 0 && s.Draw(st, 2) == 1:
		c := o.conns[s.Draw(st, len(o.conns))]
		c.seq++
		cmd, body = 0x70, udBody(c.ot, c.seq, m)
	case s.Draw(st, 2) == 1:
		body = rrBody(embed(m, a.w.provs[s.Draw(st, len(a.w.provs))].path))
	default:
		body = rrBody(m)
	}
	return cat(o.header(cmd, len(body), uint64(s.Draw(st, 1000))), body)
}

// frame makes a frame of any kind, damaged in one of its layers or not at all.
func (a *atk) frame(st string) []byte {
	s, o := a.s, a.o
	if s.Draw(st, 8) == 1 {
		body := make([]byte, []int{0, 1, 4, 8, 30}[s.Draw(st, 5)])
		f := cat(o.header([]uint16{0, 0x04, 0x63, 0x64, 0x65, 0x6F, 0x70, 0x72, 0x99}[s.Draw(st, 9)], len(body), 5), body)
		if s.Draw(st, 2) == 1 {
			f = mutate(s, st, f, nil)
		}
		return f
	}
	m := a.message(st)
	switch s.Pick(st, 1, 6, 3, 2, 4) {
	case 4:
		return a.wrap(st, a.odd(st))
	case 1:
		return a.wrap(st, mutate(s, st, m, a.message(st)))
	case 2: // the item layer; the frame still ends where it says
		f := a.wrap(st, m)
		body := mutate(s, st, f[24:], a.message(st))
		copy(f[2:], le16(uint16(len(body))))
		return cat(f[:24], body)
	case 3:
		return mutate(s, st, a.wrap(st, m), a.message(st))
	}
	return a.wrap(st, m)
}

// spoil makes a write to a protected tag that can't be carried out. The
// frame it is in has to be sent on its own.
func (a *atk) spoil(st string) (f []byte, whole bool) {
	s := a.s
	pt := a.prot[s.Draw(st, len(a.prot))]
	t := pt.t
	es := t.es()
	name := a.o.mixCase(st, t.name)
	var v []byte
	for i := 0; i < t.n; i++ {
		v = append(v, genElem(t.typ, a.w.next())...)
	}
	path := tagPath(name, -1, 0)
	n := uint16(t.n)
	m := svcPath(0x4D, path, wireType(t.typ), le16(n), v)
	hdr := 2 + len(path)
	viaC := len(a.o.conns) > 0 && s.Draw(st, 2) == 1
	frame := func(m []byte) []byte {
		if viaC {
			c := a.o.conns[s.Draw(st, len(a.o.conns))]
			c.seq++
			b := udBody(c.ot, c.seq, m)
			return cat(a.o.header(0x70, len(b), 1), b)
		}
		b := rrBody(embed(m, pt.p.path))
		return cat(a.o.header(0x6F, len(b), 1), b)
	}
	switch s.Draw(st, 12) {
	case 0: // data missing
		return frame(m[:len(m)-1-s.Draw(st, len(v))]), true
	case 1: // too much of it
		return frame(cat(m, make([]byte, 2+s.Draw(st, 40)))), true
	case 2: // more values promised than there are
		copy(m[hdr+2:], le16(n+uint16(1+s.Draw(st, 5))))
		return frame(m), true
	case 3:
		copy(m[hdr+2:], le16(uint16(extremes[s.Draw(st, 13)])))
		if k := g16(m[hdr+2:]); int(k) <= t.n {
			copy(m[hdr+2:], le16(0xFFFF))
		}
		return frame(m), true
	case 4: // unknown types
		m[hdr] = []byte{0, 0xB7, 0x99, 0xA0, 0xD9}[s.Draw(st, 5)]
		return frame(m), true
	case 5: // no such element
		return frame(svcPath(0x4D, tagPath(name, t.n+[]int{0, 1, 250, 70000, 1 << 30}[s.Draw(st, 5)], s.Draw(st, 3)), wireType(t.typ), le16(1), v[:es])), true
	case 6: // the message in the middle of the frame is shorter than it says
		b := rrBody(embed(m, pt.p.path))
		b = b[:len(b)-5-s.Draw(st, len(v))]
		return cat(a.o.header(0x6F, len(b), 1), b), true
	case 7: // a path that goes on behind the end
		m[1] = byte(len(m)/2 + 1 + s.Draw(st, 100))
		return frame(m), true
	case 8: // in a list whose offsets leave too little of it
		cut := 1 + s.Draw(st, len(v)-1)
		rd := svcPath(0x4C, path, le16(1))
		mm := svcPath(0x0A, []byte{0x20, 2, 0x24, 1}, le16(2), le16(6), le16(uint16(6+len(m)-cut)), m[:len(m)-cut], rd)
		viaC = viaC || len(a.o.conns) > 0
		return frame(mm), true
	case 9: // no values at all
		copy(m[hdr+2:], le16(0))
		return frame(m[:hdr+4]), true
	}
	// a valid request of which the end never comes
	f = frame(m)
	k := 1 + s.Draw(st, len(v)+3)
	if s.Draw(st, 3) == 1 {
		k = 1 + s.Draw(st, len(f)-1)
	}
	return f[:len(f)-k], false
}

// reach takes up a hostile session.
func (a *atk) connect(st string, reads bool) bool {
	s, o := a.s, a.o
	o.dead = true
	if o.c != nil && !o.c.Closed {
		a.open = append(a.open, o.c)
		o.c = nil
	}
	c, err := s.Net.Dial(o.ip, srvAddr, 0, false)
	if err != nil {
		a.w.h.Violate("not-serving", "%s can't connect to the server: %v", o.name, err)
		return false
	}
	a.open = append(a.open, c)
	o.c, o.buf, o.out, o.tx, o.handle, o.conns, o.dead, o.shut = c, nil, nil, nil, 0, nil, false, false
	c.OnClose = func(_ *simrt.Conn, reset bool) { o.lost(c, reset) }
	if reads {
		c.OnData = func(_ *simrt.Conn, b []byte) { o.data(c, b) }
	}
	return true
}

func (a *atk) run(name string, n int) {
	s, o, w := a.s, a.o, a.w
	for k := 0; k < n && !s.Stopped(); k++ {
		st := fmt.Sprintf("op/%s/%d", name, k)
		reads := s.Draw(st, 3) > 0
		if !a.connect(st, reads) {
			return
		}
		w.memory("before a session of " + o.name)
		if s.Draw(st, 8) > 0 {
			o.c.Push(cat(o.header(0x65, 4, 7), []byte{1, 0, 0, 0}))
			if reads {
				s.Block("handle", func() bool { return o.handle != 0 || o.dead }, time.Now().Add(5*time.Second))
				for i, m := 0, s.Draw(st, 3); i < m; i++ {
					p := w.provs[s.Draw(st, len(w.provs))]
					b := rrBody(foMsg(foParams{large: s.Draw(st, 2) == 1, to: uint32(70 + i), serial: uint16(500 + i), vendor: 900 + uint16(o.idx), osn: 1, path: p.path, trigger: 0xA3, rpi: 2000000, size: 500}))
					o.c.Push(cat(o.header(0x6F, len(b), 3), b))
					k := len(o.conns)
					s.Block("opened", func() bool { return len(o.conns) > k || o.dead }, time.Now().Add(5*time.Second))
					if len(o.conns) > k {
						o.conns[k].path = p.path
						a.ids = append(a.ids, o.conns[k].ot)
					}
				}
			}
		}
		spoils := s.Draw(st, 3) == 1 // only frames that end where they say
		for i, m := 0, 1+s.Draw(st, 8); i < m && !s.Stopped() && !o.dead; i++ {
			ost := fmt.Sprintf("%s/%d", st, i)
			if !a.step(ost, spoils, reads) {
				break
			}
			w.memory("around the requests of " + o.name)
		}
		if s.Stopped() {
			return
		}
		switch s.Draw(st, 4) {
		case 0:
			if !o.c.Closed {
				o.c.Reset()
				o.c.CloseNow()
			}
		case 1:
			if !o.c.Closed {
				o.c.CloseNow()
			}
		case 2:
			if !spoils {
				o.c.Push(o.header(0x66, 0, 0))
			}
		}
		o.dead = true
	}
}

// step is one deed. It returns false if the session has to end.
func (a *atk) step(st string, spoils, reads bool) bool {
	s, o, w := a.s, a.o, a.w
	if spoils {
		for i, n := 0, 1+s.Draw(st, 4); i < n; i++ {
			f, whole := a.spoil(st)
			s.Stat("attack.invalid_write")
			s.Logf("%s sends invalid write % x", o.name, f)
			o.c.Push(f)
			if !whole {
				simrt.Sleep(s.Dur(st, 0, 30*time.Second))
				return false
			}
		}
		simrt.Sleep(s.Dur(st, 0, 2*time.Second))
		return true
	}
	switch s.Pick(st, 10, 3, 2, 2, 2, 2, 2, 1) {
	case 1: // noise
		b := make([]byte, 1+s.Draw(st, 200))
		for i := range b {
			b[i] = byte(s.Draw(st, 256))
		}
		s.Stat("attack.noise")
		o.c.Push(b)
	case 2: // part of a frame, and a long silence
		f := a.frame(st)
		s.Stat("attack.stall_in_frame")
		o.c.Push(f[:s.Draw(st, len(f)+1)])
		simrt.Sleep(s.Dur(st, time.Second, 100*time.Second))
		return s.Draw(st, 2) == 1
	case 3: // many requests at once
		s.Stat("attack.flood")
		f := a.wrap(st, a.message(st))
		if s.Draw(st, 3) == 1 {
			f = a.frame(st)
		}
		for i, n := 0, 10+s.Draw(st, 100); i < n; i++ {
			o.c.Push(f)
		}
		if !reads {
			// the replies stay where they are
			simrt.Sleep(s.Dur(st, time.Second, 100*time.Second))
		}
	case 4: // datagrams
		for i, n := 0, 1+s.Draw(st, 5); i < n; i++ {
			id := uint32(s.Draw(st, 9))
			if len(a.ids) > 0 && s.Draw(st, 2) == 1 {
				id = a.ids[s.Draw(st, len(a.ids))]
			}
			b := outMsg(id, uint32(s.Draw(st, 5)), make([]byte, s.Draw(st, 40)))
			switch s.Draw(st, 4) {
			case 0:
				b = a.frame(st)
			case 1:
				b = make([]byte, []int{0, 1, 2, 3, 4095, 4096, 4097, 9000}[s.Draw(st, 8)])
			default:
				b = mutate(s, st, b, nil)
			}
			s.Stat("attack.datagram")
			s.Net.SendUDP(o.ip+":2222", srvUDP, b)
		}
	case 5:
		simrt.Sleep(s.Dur(st, 0, 20*time.Second))
	case 6: // sockets that do nothing
		for i, n := 0, 1+s.Draw(st, 12); i < n; i++ {
			c, err := s.Net.Dial(o.ip, srvAddr, 0, false)
			if err != nil {
				w.h.Violate("not-serving", "%s can't connect to the server: %v", o.name, err)
				return false
			}
			s.Stat("attack.idle_socket")
			a.open = append(a.open, c)
			switch s.Draw(st, 4) {
			case 0:
				c.CloseNow()
			case 1:
				c.Push(make([]byte, s.Draw(st, 24)))
				c.Reset()
				c.CloseNow()
			}
		}
	case 7: // a header that promises much
		s.Stat("attack.long_frame")
		o.c.Push(o.header([]uint16{0x6F, 0x70, 0x65, 0x63, 0x99}[s.Draw(st, 5)], []int{65535, 65000, 32768}[s.Draw(st, 3)], 9))
		o.c.Push(make([]byte, []int{0, 100, 64000, 65535}[s.Draw(st, 4)]))
	default:
		for i, n := 0, 1+s.Draw(st, 6); i < n; i++ {
			s.Stat("attack.mutated_frame")
			o.c.Push(a.frame(st))
			if s.Draw(st, 4) == 1 {
				simrt.Sleep(s.Dur(st, 0, 500*time.Millisecond))
			}
		}
	}
	return true
}

func runHostile(h *H) {
	w := newSW(h)
	s := w.s
	w.attacked = true
	if h.Pick("cfg.faulty", 2, 1) == 1 {
		w.faultLinks(false, 50)
	}
	w.store(false, 1, 0)
	w.store(false, 1, 1)
	io := &gologix.IOProvider[imgS, imgS]{In: &imgS{}, Out: &imgS{}}
	w.router.Handle([]byte{1, 7}, io)
	if h.Pick("cfg.sys", 3, 1) == 1 {
		// system calls that fail now and then
		s.Net.AcceptErr = func() error {
			if s.Draw("fault.sys", 3) == 1 {
				s.Stat("fault.accept_error")
				return []error{syscall.EMFILE, syscall.ECONNABORTED, syscall.EINTR}[s.Draw("fault.sys", 3)]
			}
			return nil
		}
		s.Net.UDPReadErr = func() error {
			if s.Draw("fault.sys", 3) == 1 {
				s.Stat("fault.udp_read_error")
				return syscall.ECONNREFUSED
			}
			return nil
		}
	}
	var prot []*ptag
	types := []byte{tDINT, tINT, tUDINT, tLINT, tREAL, tLREAL, tUINT}
	for pi, p := range w.provs {
		for i := 0; i < 3; i++ {
			t := types[s.Draw("cfg.prot", len(types))]
			if i == 0 {
				prot = append(prot, &ptag{p, w.tag(p, fmt.Sprintf("protected%d_scalar%d", pi, i), t, false, 1)})
			} else {
				prot = append(prot, &ptag{p, w.tag(p, fmt.Sprintf("protected%d_array%d", pi, i), t, true, 2+s.Draw("cfg.prot", 12))})
			}
		}
	}
	var good, bad []*Orig
	for i, n := 0, 1+h.Pick("cfg.origs", 3, 2); i < n; i++ {
		good = append(good, w.orig())
	}
	for i, n := 0, 1+h.Pick("cfg.atks", 3, 2, 1); i < n; i++ {
		o := w.orig()
		o.hostile = true
		o.name = fmt.Sprintf("hostile%d", i)
		bad = append(bad, o)
	}
	incs := 2
	for _, o := range w.origs {
		for k := 0; k < incs; k++ {
			for _, p := range w.provs {
				w.populate(p, o, k)
			}
		}
	}
	w.start()
	if s.Stopped() {
		return
	}
	var ts []*simrt.Task
	for _, o := range good {
		o := o
		n := 3 + s.Draw("cfg.nops", 6)
		ts = append(ts, s.Go(o.name, func() {
			for k := 0; k < incs && !s.Stopped(); k++ {
				simrt.Sleep(s.Dur("cfg.nops", 0, 30*time.Second))
				o.session(fmt.Sprintf("op/%s/%d", o.name, k), k, n)
			}
		}))
	}
	var as []*atk
	for _, o := range bad {
		a := &atk{w: w, o: o, prot: prot, s: s}
		as = append(as, a)
		n := 1 + s.Draw("cfg.nops", 5)
		ts = append(ts, s.Go(o.name, func() { a.run(a.o.name, n) }))
	}
	s.Join(ts...)
	if s.Stopped() {
		return
	}
	// the attack is over; everything is as it was
	w.untouched(prot)
	probe := good[0]
	for _, p := range w.provs {
		w.populate(p, probe, 7)
	}
	probe.session("op/after", 7, 3)
	if s.Stopped() {
		return
	}
	for _, a := range as {
		for _, c := range a.open {
			if !c.Closed {
				c.CloseNow()
			}
		}
		a.o.dead = true
	}
	w.closing()
	w.untouched(prot)
	w.checkStores()
	h.Nontrivial = true
}

// untouched checks that the protected tags have the values they always had.
func (w *SW) untouched(prot []*ptag) {
	if w.s.Stopped() {
		return
	}
	for _, pt := range prot {
		t := pt.t
		v, err := pt.p.m.TagRead(t.name, int16(t.n))
		if err != nil || fmt.Sprint(v) != fmt.Sprint(goTagValue(t)) {
			w.h.Violate("modified", "%s on route % x was only written by invalid requests but it is %.100v (%v) instead of %.100v", t.name, pt.p.path, v, err, goTagValue(t))
			return
		}
	}
}

func init() {
	register(&Check{Prop: "C13", Keys: append([]string{"modified", "memory"}, srvKeys...), Scen: []Scen{{Name: "attack", Weight: 1, Run: runHostile}}})
}
