//go:build go1.23

package harness

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// cstore is the application behind one route. It records what reaches it.
type cstore struct {
	x      *connWorld
	idx    int
	route  []byte
	reads  map[string]int
	writes map[string]int
	vals   map[string]int32
	outs   map[uint32]int
	n      uint32
}

func (r *cstore) nap() {
	s := r.x.s
	if r.x.slow && s.Draw("app.nap", 3) == 1 {
		simrt.Sleep(s.Dur("app.nap", 0, 60*time.Millisecond))
	}
}
func (r *cstore) TagRead(tag string, qty int16) (any, error) {
	tag = strings.ToLower(tag)
	r.reads[tag]++
	r.nap()
	if v, ok := r.vals[tag]; ok {
		return v, nil
	}
	return nil, errors.New("no such tag")
}
func (r *cstore) TagWrite(tag string, value any) error {
	tag = strings.ToLower(tag)
	r.writes[tag]++
	r.nap()
	v, ok := value.(int32)
	if !ok {
		return errors.New("not a DINT")
	}
	r.vals[tag] = v
	return nil
}
func (r *cstore) IORead() ([]byte, error) {
	r.n++
	return cat(le32(0xBEEF0000|uint32(r.idx)), le32(r.n)), nil
}
func (r *cstore) IOWrite(items []gologix.CIPItem) error {
	if len(items) == 2 && len(items[1].Data) >= 10 {
		r.outs[g32(items[1].Data[6:])]++
	}
	return nil
}

// creq is a request of which the destination is known.
type creq struct {
	desc   string
	name   string // unique tag name
	write  bool
	store  int // -1: must not reach any
	ok     bool
	failed bool
}

type connWorld struct {
	*SW
	stores []*cstore
	slow   bool
	reqs   []*creq
	outs   map[uint32]*outSent
	byTO   map[string]*oconn
	cs     []*oconn // all connections ever requested
	nuniq  int
	asked  map[uint32]bool // ids that originators asked for
	udp    map[uint32]bool // ids used in output packets
}

type outSent struct {
	store int
	desc  string
}

// identities of originators: all differ, but share numbers
var idents = [][2]uint32{{1, 5}, {1, 6}, {2, 5}, {2, 6}}

func (x *connWorld) storeOf(c *oconn) int {
	for i, r := range x.stores {
		if string(r.route) == string(c.path) {
			return i
		}
	}
	return -1
}

// sendOn sends a request whose destination is store (-1: it has to be refused).
func (x *connWorld) sendOn(o *Orig, st string, store int, send func(r *sreq, m []byte)) {
	s := x.s
	x.nuniq++
	q := &creq{store: store, name: fmt.Sprintf("u%d", x.nuniq)}
	x.reqs = append(x.reqs, q)
	val := int32(x.nuniq * 7919)
	kind := s.Pick(st, 3, 3, 2, 1)
	wr := svcPath(0x4D, tagPath(q.name, -1, 0), wireType(tDINT), le16(1), le32(uint32(val)))
	switch {
	case kind == 0: // a tag whose value depends on the route
		r := &sreq{desc: "read of the route's own tag"}
		q.name = ""
		if store < 0 {
			r.want = wantErr
		} else {
			exp := le32(uint32(1000 + store))
			r.on = func(r *sreq) {
				if r.rep.status == 0 {
					o.checkRead(r.desc, 0, r.rep.data, tDINT, exp, "wrong-route")
				}
			}
		}
		send(r, svcPath(0x4C, tagPath("who", -1, 0), le16(1)))
	case kind == 1:
		q.write = true
		q.desc = fmt.Sprintf("%s: write of %s", o.name, q.name)
		r := &sreq{desc: "write of " + q.name}
		if store < 0 {
			r.want = wantErr
		}
		r.on = func(r *sreq) { q.ok = r.rep.status == 0 }
		send(r, wr)
	case kind == 2: // missing everywhere
		q.desc = fmt.Sprintf("%s: read of %s", o.name, q.name)
		r := &sreq{desc: "read of " + q.name, want: wantErr}
		r.on = func(r *sreq) { q.ok = true }
		send(r, svcPath(0x4C, tagPath(q.name, -1, 0), le16(1)))
	default: // both in a list
		q.write = true
		q.desc = fmt.Sprintf("%s: list with a write of %s", o.name, q.name)
		rd := svcPath(0x4C, tagPath("who", -1, 0), le16(1))
		m := svcPath(0x0A, []byte{0x20, 2, 0x24, 1}, le16(2), le16(6), le16(uint16(6+len(rd))), rd, wr)
		r := &sreq{desc: "list with a write of " + q.name}
		if store < 0 {
			r.want = wantErr
		}
		r.on = func(r *sreq) {
			if store < 0 || r.rep.status != 0 {
				return
			}
			ps, e := multiParts(r.rep.data, 2)
			if e != "" || len(ps[0]) < 4 || len(ps[1]) < 4 {
				x.h.Violate("reply-mismatch", "%s: reply to %s: %s: % x", o.name, r.desc, e, r.rep.data)
				return
			}
			o.checkRead(r.desc, ps[0][2], ps[0][4:], tDINT, le32(uint32(1000+store)), "wrong-route")
			q.ok = ps[1][2] == 0
		}
		send(r, m)
	}
}

// audit compares what reached the applications with what was sent.
func (x *connWorld) audit() {
	h := x.h
	if x.s.Stopped() {
		return
	}
	for _, q := range x.reqs {
		if q.name == "" {
			continue
		}
		for i, r := range x.stores {
			n := r.reads[q.name]
			if q.write {
				n = r.writes[q.name]
			}
			switch {
			case n > 0 && i != q.store:
				to := "must not reach any application"
				if q.store >= 0 {
					to = fmt.Sprintf("is for route % x", x.stores[q.store].route)
				}
				h.Violate("wrong-route", "%s %s but reached the application of route % x", q.desc, to, r.route)
				return
			case n == 0 && i == q.store && q.ok:
				h.Violate("wrong-route", "%s was answered but never reached the application of route % x", q.desc, r.route)
				return
			}
		}
	}
	for _, g := range sortedKeys(x.outs) {
		p := x.outs[g]
		for i, r := range x.stores {
			if r.outs[g] > 0 && i != p.store {
				h.Violate("wrong-route", "%s reached the application of route % x", p.desc, r.route)
				return
			}
		}
	}
	for _, r := range x.stores {
		for _, g := range sortedKeys(r.outs) {
			if x.outs[g] == nil {
				h.Violate("wrong-route", "the application of route % x got an output packet nobody sent", r.route)
				return
			}
		}
	}
}

// released checks that the server holds exactly the connections that are open.
func (x *connWorld) released(when string) {
	s := x.s
	if s.Stopped() || x.cuts || x.connections() < 0 {
		return
	}
	want := func() int {
		n := 0
		for _, o := range x.origs {
			if !o.dead && o.c != nil && !o.c.Closed {
				n += len(o.conns)
			}
		}
		return n
	}
	t := s.Now()
	for {
		ok := s.Block("release", func() bool { return x.connections() == want() }, time.Now().Add(10*time.Second))
		if ok || s.Stopped() {
			return
		}
		if s.Now()-t < 10*time.Second+s.StallSince(t)+20*x.maxLat+x.stallMax() {
			continue
		}
		x.h.Violate("not-released", "%s: %d connections are open but the server holds %d", when, want(), x.connections())
		return
	}
}

// stallMax is the longest time for which a link can be stuck.
func (x *connWorld) stallMax() time.Duration {
	d := time.Duration(0)
	for _, o := range x.origs {
		if o.c != nil {
			d = max(d, x.linkStalls(o.c))
		}
	}
	for _, c := range x.cs {
		if c.tcp != nil {
			d = max(d, x.linkStalls(c.tcp))
		}
	}
	return d
}

func (x *connWorld) produced(to string, b []byte) {
	h, s := x.h, x.s
	if s.Stopped() {
		return
	}
	s.Stat("io.produced")
	if len(b) != 28 {
		h.Violate("wrong-route", "the server sends a malformed I/O packet to %s: % x", to, b)
		return
	}
	ip := strings.TrimSuffix(to, ":2222")
	id := g32(b[6:])
	c := x.byTO[ip+fmt.Sprint(id)]
	if c == nil {
		h.Violate("wrong-route", "the server sends an I/O packet for connection %#x to %s, who has no such connection", id, to)
		return
	}
	if i := x.storeOf(c); g32(b[20:]) != 0xBEEF0000|uint32(i) {
		h.Violate("wrong-route", "an I/O packet on connection %#x for route % x has the data of another route: % x", id, c.path, b[20:])
		return
	}
	q := c.ios
	if q.refused {
		h.Violate("wrong-route", "the server sends I/O packets for connection %#x to %s, which it refused", id, to)
		return
	}
	now := s.Now()
	q.lastAt = now
	q.sent++
	if end := q.ended(); end >= 0 && !x.cuts {
		lag := 2*c.rpi + 20*time.Millisecond + s.StallSince(end)
		if q.closed == 0 {
			lag += 20*x.maxLat + x.linkStalls(c.tcp)
		}
		if now > end+lag+time.Second {
			h.Violate("not-released", "the server still sends I/O packets on connection %#x to %s %v after it ended", id, to, now-end)
		}
	}
}

// producing checks that open I/O connections still work.
func (x *connWorld) producing() {
	s := x.s
	if s.Stopped() || x.cuts {
		return
	}
	for _, c := range x.cs {
		q := c.ios
		if q == nil || !c.open || q.closing > 0 || c.o.dead || c.o.c != c.tcp {
			continue
		}
		since := max(q.opened, q.lastAt)
		if s.Now()-since > 3*c.rpi+time.Second+s.StallSince(since) {
			x.h.Violate("not-working", "I/O connection %#x of %s is open but does not produce any more", c.to, c.o.name)
			return
		}
	}
}

func runConns(h *H) {
	w := newSW(h)
	s := w.s
	x := &connWorld{SW: w, outs: map[uint32]*outSent{}, byTO: map[string]*oconn{}, asked: map[uint32]bool{}, udp: map[uint32]bool{}}
	x.slow = s.Draw("cfg.slow", 3) == 1
	switch h.Pick("cfg.faulty", 5, 2, 3) {
	case 1:
		w.faultLinks(false, 60)
	case 2:
		w.faultLinks(true, 50)
	}
	s.Net.UDP = func(from, to string, b []byte) (bool, int, time.Duration) {
		if to == srvUDP {
			return false, 0, 0
		}
		x.produced(to, b)
		return true, 0, 0
	}
	routes := [][]byte{{1, 0}, {1, 1}, {1, 2}, {2, 1}}
	for i, n := 0, 1+s.Draw("cfg.routes", 4); i < n; i++ {
		r := &cstore{x: x, idx: i, route: routes[i], reads: map[string]int{}, writes: map[string]int{}, vals: map[string]int32{"who": int32(1000 + i)}, outs: map[uint32]int{}}
		x.stores = append(x.stores, r)
		w.router.Handle(r.route, r)
	}
	for i, n := 0, 1+h.Pick("cfg.origs", 1, 4, 3, 1); i < n; i++ {
		w.orig()
	}
	w.start()
	if s.Stopped() {
		return
	}
	for phase := 0; phase < 2 && !s.Stopped(); phase++ {
		var ts []*simrt.Task
		for _, o := range w.origs {
			o := o
			n := 3 + s.Draw("cfg.nops", 12)
			ts = append(ts, s.Go(o.name, func() {
				x.session(fmt.Sprintf("op/%s/%d", o.name, phase), o, n)
			}))
		}
		s.Join(ts...)
		if s.Stopped() {
			return
		}
		x.audit()
		x.released("in between")
		if s.Stopped() {
			return
		}
		simrt.Sleep(s.Dur("cfg.nops", 0, 3*time.Second))
		x.producing()
	}
	for _, c := range x.cs {
		if c.ios != nil && c.ios.closing == 0 {
			c.ios.closing, c.ios.lost = s.Now(), true
		}
	}
	w.closing()
	if s.Stopped() {
		return
	}
	if n := s.Net.OpenPacketSockets(); n > 0 {
		h.Violate("not-released", "all sessions have ended but the server still has %d sockets open", n)
	}
	x.audit()
	h.Nontrivial = true
}

// drop ends the session of o.
func (x *connWorld) drop(st string, o *Orig) {
	for _, c := range x.cs {
		if c.o == o && c.ios != nil && c.ios.closing == 0 {
			c.ios.closing, c.ios.lost = x.s.Now(), true
		}
	}
	o.close(x.s.Draw(st, 3))
	o.dead = true
	o.conns = nil
}

// session goes on with the session of o for some steps, or begins one.
func (x *connWorld) session(st string, o *Orig, steps int) {
	s := x.s
	id := idents[o.idx]
	vendor, osn := uint16(id[0]), id[1]
	var closed []uint32 // ids that were valid once
	pend := false       // forward opens were sent and not answered
	for i := 0; i < steps && !s.Stopped(); i++ {
		if o.c == nil || o.dead || o.c.Closed {
			o.conns = nil
			if !o.dial() {
				return
			}
			o.register()
			o.flush()
			if !o.wait() {
				continue
			}
		}
		var up []*oconn
		for _, c := range o.conns {
			if c.open && !c.gone && !c.idle {
				up = append(up, c)
			}
		}
		own := func(id uint32) bool {
			for _, c := range o.conns {
				if c.ot == id {
					return true
				}
			}
			return false
		}
		on := func(ot uint32, store int) {
			c := &oconn{o: o, ot: ot, seq: uint16(s.Draw(st, 65536))}
			x.sendOn(o, st, store, func(r *sreq, m []byte) {
				r.desc += fmt.Sprintf(" on foreign or closed connection %#x", ot)
				o.ud(r, c, m)
				r.conn = nil
			})
		}
		k := s.Pick(st, 8, 8, 3, 3, 3, 3, 3, 2, 2, 1, 2)
		if len(up) == 0 && (k == 0 || k == 4 || k == 7) {
			k = 1
		}
		switch k {
		case 0: // on a connection of its own
			for k, n := 0, 1+s.Draw(st, 3); k < n; k++ {
				c := up[s.Draw(st, len(up))]
				if !c.io {
					x.sendOn(o, st, x.storeOf(c), func(r *sreq, m []byte) { o.ud(r, c, m) })
				}
			}
		case 1: // open
			if len(o.conns) > 3 || pend {
				break
			}
			p := foParams{large: s.Draw(st, 2) == 1, vendor: vendor, osn: osn, trigger: 0xA3, rpi: 2000000, size: 500}
			p.serial = uint16(1 + s.Draw(st, 6))
			for _, c := range x.cs {
				// not one it has open, nor one whose session the server may not know to be lost
				if c.o == o && c.serial == p.serial && (!c.gone || c.open) && !(c.tcp != o.c && !x.cuts) {
					p.serial = uint16(1000 + len(x.cs))
				}
			}
			x.nuniq++
			// other originators may well choose the same
			p.to = uint32(1 + len(x.ofOrig(o)))
			switch s.Draw(st, 4) {
			case 1:
				p.ot = uint32(1 + s.Draw(st, 3))
			case 2:
				if c := x.any(st); c != nil {
					p.ot = c.ot
				}
			case 3:
				if c := x.any(st); c != nil {
					p.ot = c.to
				}
			}
			// packets under way must not reach a later connection of the same id
			if x.udp[p.ot] {
				p.ot = 0
			}
			x.asked[p.ot] = true
			want := wantOK
			if s.Draw(st, 7) == 1 {
				p.path = []byte{1, 9}
				want = wantAny
			} else {
				p.path = x.stores[s.Draw(st, len(x.stores))].route
			}
			if s.Draw(st, 3) == 1 {
				p.trigger = 1
				p.rpi = uint32([]int{50000, 100000, 500000}[s.Draw(st, 3)])
				p.otrpi = uint32([]int{50000, 100000, 500000}[s.Draw(st, 3)])
			}
			c := o.open(p, want)
			if c.io {
				c.ios = &ioState{}
				x.byTO[o.ip+fmt.Sprint(p.to)] = c
			}
			x.cs = append(x.cs, c)
			pend = true
		case 2: // without a connection
			r := s.Draw(st, len(x.stores)+1)
			route, store := []byte{1, 9}, -1
			if r < len(x.stores) {
				route, store = x.stores[r].route, r
			}
			x.sendOn(o, st, store, func(r *sreq, m []byte) {
				if m[0] == 0x0A {
					r.want = wantAny // lists need a connection
					r.on = nil
				}
				o.rr(r, embed(m, route)).svc = m[0]
			})
		case 3: // on a connection of somebody else
			for _, c := range x.cs {
				if c.o != o && c.open && c.ot != 0 && !own(c.ot) && !pend && s.Draw(st, 3) > 0 {
					on(c.ot, -1)
					break
				}
			}
		case 4: // close, sometimes with requests in the pipeline
			c := up[s.Draw(st, len(up))]
			if c.ios != nil {
				c.ios.closing = s.Now()
			} else if s.Draw(st, 2) == 1 {
				x.sendOn(o, st, x.storeOf(c), func(r *sreq, m []byte) { o.ud(r, c, m) })
			}
			c.idle = true
			o.closeConn(c)
			if s.Draw(st, 2) == 1 && !pend {
				on(c.ot, -1)
			}
			closed = append(closed, c.ot)
		case 5: // close what it has not got
			var v [3]uint32
			r := &sreq{want: wantErr}
			v = [3]uint32{uint32(1 + s.Draw(st, 6)), 1 + uint32(s.Draw(st, 3)), 5 + uint32(s.Draw(st, 3))}
			for _, c := range x.cs {
				if c.o != o && c.open && s.Draw(st, 2) == 1 {
					v = [3]uint32{uint32(c.serial), uint32(c.vendor), c.osn}
					break
				}
			}
			mine := pend
			for _, c := range x.cs {
				if c.o == o && uint32(c.serial) == v[0] && uint32(c.vendor) == v[1] && c.osn == v[2] && (!c.gone || c.open) && c.tcp == o.c {
					mine = true
				}
			}
			if mine {
				break
			}
			r.desc = fmt.Sprintf("forward close of %v, which is not its own", v)
			o.rr(r, fcMsg(uint16(v[0]), uint16(v[1]), v[2]))
		case 6: // on a connection that was never open, or is not any more
			if pend {
				break
			}
			ot := uint32(0xD0000000) + uint32(s.Draw(st, 1000))
			if len(closed) > 0 && s.Draw(st, 2) == 1 {
				ot = closed[s.Draw(st, len(closed))]
			}
			if !own(ot) {
				on(ot, -1)
			}
		case 7: // output data
			c := up[s.Draw(st, len(up))]
			x.nuniq++
			g := uint32(x.nuniq)
			store := -1
			if c.io {
				store = x.storeOf(c)
			}
			ot := c.ot
			if s.Draw(st, 4) == 1 {
				ot, store = 0xD1000000+uint32(s.Draw(st, 1000)), -1
			}
			if x.asked[ot] {
				break
			}
			x.udp[ot] = true
			x.outs[g] = &outSent{store: store, desc: fmt.Sprintf("output packet %d of %s on %#x", g, o.name, ot)}
			s.Net.SendUDP(o.ip+":2222", srvUDP, outMsg(ot, g, le32(g)))
		case 8:
			o.flush()
			simrt.Sleep(s.Dur(st, 0, 2*time.Second))
		case 9: // abrupt end with requests under way
			o.flush()
			if o.wait(); s.Draw(st, 2) == 1 && len(up) > 0 && !o.dead {
				c := up[0]
				if !c.io {
					x.sendOn(o, st, x.storeOf(c), func(r *sreq, m []byte) { o.ud(r, c, m) })
				}
				o.flush()
			}
			x.drop(st, o)
			pend = false
			continue
		case 10:
			x.audit()
		}
		if s.Draw(st, 3) > 0 {
			o.flush()
		}
		if s.Draw(st, 2) == 1 || pend && s.Draw(st, 2) == 1 {
			o.flush()
			if !o.wait() && !s.Stopped() {
				x.drop(st, o) // what was open is unknown now
			}
			pend = false
			if s.Draw(st, 3) == 1 {
				x.producing()
			}
		}
	}
	if s.Stopped() || o.dead {
		return
	}
	o.flush()
	o.wait()
}

// any picks a connection that is or was open.
func (x *connWorld) any(st string) *oconn {
	if len(x.cs) == 0 {
		return nil
	}
	return x.cs[x.s.Draw(st, len(x.cs))]
}
func (x *connWorld) ofOrig(o *Orig) (l []*oconn) {
	for _, c := range x.cs {
		if c.o == o {
			l = append(l, c)
		}
	}
	return
}

func init() {
	register(&Check{Prop: "C12", Keys: append([]string{"wrong-route", "not-working"}, srvKeys...), Scen: []Scen{{Name: "connections", Weight: 1, Run: runConns}}})
}
