//go:build go1.23

package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"syscall"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// ---------------------------------------------------------------- process images

// imgS is a simple process image, imgM one with padding and packed bits. All
// fields follow from N, so a mixture of two images shows.
type imgS struct {
	N int32
	A [6]int32
}
type imgNest struct {
	P int8
	Q int32
	Z int16
}
type imgM struct {
	N          int32
	F1, F2, F3 bool
	S          int8
	I          int16
	L          int64
	R          float32
	D          float64
	U          uint8
	W          uint16
	X          [3]int16
	Nest       imgNest
	E          uint32
}

func (p *imgS) fill(g int32, y func()) {
	p.N = g
	for i := range p.A {
		y()
		p.A[i] = g + int32(i+1)*1000003
	}
}
func (p *imgS) whole(y func()) (int32, bool) {
	v := imgS{N: p.N}
	for i := range p.A {
		y()
		v.A[i] = p.A[i]
	}
	var w imgS
	w.fill(v.N, func() {})
	return v.N, v == w
}
func (p *imgS) bytes() []byte {
	b := le32(uint32(p.N))
	for _, a := range p.A {
		b = append(b, le32(uint32(a))...)
	}
	return b
}

func (p *imgM) fill(g int32, y func()) {
	p.N = g
	y()
	p.F1, p.F2, p.F3 = g&1 != 0, g&2 != 0, g&4 != 0
	y()
	p.S = int8(g)
	p.I = int16(g * 3)
	y()
	p.L = int64(g) * 0x100000007
	p.R = float32(g&0xFFFFF) / 2
	y()
	p.D = float64(g) / 4
	p.U, p.W = uint8(g>>1), uint16(g*5)
	y()
	for i := range p.X {
		p.X[i] = int16(g) + int16(i)
		y()
	}
	p.Nest = imgNest{int8(g * 7), g * 11, int16(g * 13)}
	y()
	p.E = uint32(g) * 17
}
func (p *imgM) whole(y func()) (int32, bool) {
	var v imgM
	v.N = p.N
	y()
	v.F1, v.F2, v.F3 = p.F1, p.F2, p.F3
	y()
	v.S, v.I = p.S, p.I
	y()
	v.L, v.R, v.D = p.L, p.R, p.D
	y()
	v.U, v.W, v.X = p.U, p.W, p.X
	y()
	v.Nest, v.E = p.Nest, p.E
	var w imgM
	w.fill(v.N, func() {})
	return v.N, v == w
}
func (p *imgM) bytes() []byte {
	b := make([]byte, 60)
	le := binary.LittleEndian
	le.PutUint32(b, uint32(p.N))
	for i, f := range []bool{p.F1, p.F2, p.F3} {
		if f {
			b[4] |= 1 << i
		}
	}
	b[5] = byte(p.S)
	le.PutUint16(b[6:], uint16(p.I))
	le.PutUint64(b[8:], uint64(p.L))
	le.PutUint32(b[16:], math.Float32bits(p.R))
	le.PutUint64(b[24:], math.Float64bits(p.D))
	b[32] = p.U
	le.PutUint16(b[34:], p.W)
	for i, x := range p.X {
		le.PutUint16(b[36+2*i:], uint16(x))
	}
	b[44] = byte(p.Nest.P)
	le.PutUint32(b[48:], uint32(p.Nest.Q))
	le.PutUint16(b[52:], uint16(p.Nest.Z))
	le.PutUint32(b[56:], p.E)
	return b
}

type image[T any] interface {
	*T
	fill(g int32, y func())
	whole(y func()) (int32, bool)
	bytes() []byte
}

// imageOf is the wire form of the image with number g.
func imageOf[T any, P image[T]](g int32) []byte {
	var v T
	P(&v).fill(g, func() {})
	return P(&v).bytes()
}

// ---------------------------------------------------------------- endpoints

// ioRoute is an I/O application: a provider of the library and what the
// harness knows about it.
type ioRoute struct {
	w      *SW
	path   []byte
	idx    int
	kind   string
	img    func(g int32) []byte // input image on the wire
	outImg func(g int32) []byte
	set    func(g int32)
	hold   func(g int32, y func()) // update in place under the lock
	get    func() (int32, bool)
	peek   func(y func()) (int32, bool) // read in place under the lock
	listen func() (recv func() (int32, bool))

	g      int32 // input images begun
	upd    map[int32]*ioMark
	recent []*ioMark
	arr    []*outPkt // output packets in order of arrival
	known  map[int32]*outPkt
	failed bool // the provider fails now and then
	big    bool // its images need a large forward open
}

// ioMark is an update of the input image.
type ioMark struct {
	g          int32
	begin, end uint64
	at         time.Duration // end
}

type outPkt struct {
	g      int32
	c      *oconn
	sent   uint64 // position in the order of events
	sentAt time.Duration
	at     time.Duration // arrival at the server
	lost   bool
	bad    string // why it must have no effect
}

func ioProvider[I, O any, PI image[I], PO image[O]](w *SW, r *ioRoute) gologix.CIPEndpoint {
	in, out := new(I), new(O)
	PI(in).fill(0, func() {})
	PO(out).fill(0, func() {})
	p := &gologix.IOProvider[I, O]{In: in, Out: out}
	r.kind = "IOProvider"
	r.img = imageOf[I, PI]
	r.set = func(g int32) {
		var v I
		PI(&v).fill(g, func() {})
		p.SetInputData(v)
	}
	r.hold = func(g int32, y func()) {
		p.InMutex.Lock()
		defer p.InMutex.Unlock()
		var v I
		PI(&v).fill(g, func() {})
		from := reflect.ValueOf(v)
		for i := 0; i < from.NumField(); i++ {
			y()
			reflect.ValueOf(p.In).Elem().Field(i).Set(from.Field(i))
		}
	}
	r.get = func() (int32, bool) {
		v := p.GetOutputData()
		return PO(&v).whole(func() {})
	}
	r.peek = func(y func()) (int32, bool) {
		p.OutMutex.Lock()
		defer p.OutMutex.Unlock()
		return PO(p.Out).whole(y)
	}
	return p
}

func ioChannels[I, O any, PI image[I], PO image[O]](w *SW, r *ioRoute) gologix.CIPEndpoint {
	p := &gologix.IOChannelProvider[I, O]{}
	r.kind = "IOChannelProvider"
	r.img = imageOf[I, PI]
	r.set = func(g int32) {
		var v I
		PI(&v).fill(g, func() {})
		p.SetInputData(v)
	}
	r.set(0)
	r.listen = func() func() (int32, bool) {
		ch := p.GetOutputDataChannel()
		return func() (int32, bool) {
			v := simrt.Recv(ch)
			return PO(&v).whole(func() {})
		}
	}
	return p
}

// ---------------------------------------------------------------- the world

// ioWorld adds cyclic I/O to a server world.
type ioWorld struct {
	*SW
	routes  []*ioRoute
	byTO    map[string]*oconn // by originator address and T->O id
	conns   []*oconn
	maxHold time.Duration
	reorder bool
	outG    int32
	udpLat  time.Duration
	cur     *outPkt // being sent
	nid     uint32
	curR    *ioRoute
	users   []*chanUser
}

// ioState is what an originator knows about an I/O connection.
type ioState struct {
	x       *ioWorld
	r       *ioRoute
	opened  time.Duration // reply to the forward open, 0: none
	closing time.Duration // when the close was requested or the session ended
	closed  time.Duration // reply to the forward close
	openedT uint64        // and their positions in the order of events
	closedT uint64
	refused bool
	lost    bool // the session ended
	sent    int
	lastSeq uint32
	last16  uint16
	lastAt  time.Duration
	first   time.Duration
	lastG   int32
	outSeq  uint32
}

func newIO(w *SW) *ioWorld {
	x := &ioWorld{SW: w, byTO: map[string]*oconn{}}
	s := w.s
	loss := []int{0, 5, 30}[s.Pick("cfg.udp", 3, 1, 1)]
	dup := []int{0, 10}[s.Pick("cfg.udp", 3, 1)]
	x.reorder = s.Draw("cfg.udp", 3) == 1
	x.udpLat = []time.Duration{0, 2 * time.Millisecond, 40 * time.Millisecond}[s.Draw("cfg.udp", 3)]
	if x.udpLat == 0 {
		x.reorder = false
	}
	uerr := s.Pick("cfg.udp", 4, 1) == 1
	s.Net.UDP = func(from, to string, b []byte) (bool, int, time.Duration) {
		d := x.udpLat
		if x.reorder {
			d = s.Dur("udp", 0, x.udpLat)
		}
		if to == srvUDP {
			drop := loss > 0 && s.Chance("udp", loss)
			k := 0
			if dup > 0 && s.Chance("udp", dup) {
				k = 1
			}
			x.arrival(b, drop, k, d)
			return drop, k, d
		}
		x.produced(to, b)
		return true, 0, 0
	}
	if uerr {
		s.Net.UDPErr = func(to string) error {
			if s.Chance("udp.err", 20) {
				return syscall.ECONNREFUSED
			}
			return nil
		}
	}
	return x
}

func (x *ioWorld) route(path ...byte) *ioRoute {
	r := &ioRoute{w: x.SW, path: path, idx: len(x.routes), known: map[int32]*outPkt{}}
	r.upd = map[int32]*ioMark{0: {}}
	r.recent = []*ioMark{r.upd[0]}
	x.routes = append(x.routes, r)
	return r
}

// open requests an I/O connection.
func (x *ioWorld) open(o *Orig, p foParams, r *ioRoute, want int) *oconn {
	p.trigger = 1
	key := o.ip + fmt.Sprint(p.to)
	c := o.open(p, want)
	c.ios = &ioState{x: x, r: r}
	x.byTO[key] = c
	x.conns = append(x.conns, c)
	return c
}

// slack is the time the server may need beyond what is agreed, as of now, for
// something that was due since t.
func (x *ioWorld) slack(t time.Duration) time.Duration {
	return 10*time.Millisecond + 6*x.maxHold + x.s.StallSince(t)
}

// produced judges a datagram that the server sends.
func (x *ioWorld) produced(to string, b []byte) {
	s, h := x.s, x.h
	if s.Stopped() {
		return
	}
	now := s.Now()
	s.Stat("io.produced")
	if len(b) < 2+4+8+4+2 || g16(b) != 2 || g16(b[2:]) != 0x8002 || g16(b[4:]) != 8 || g16(b[14:]) != 0xB1 || int(g16(b[16:])) != len(b)-18 {
		h.Violate("bad-packet", "the server sends a malformed I/O packet to %s: % x", to, b)
		return
	}
	host := to
	for i := range to {
		if to[i] == ':' {
			host = to[:i]
		}
	}
	id, seq, s16, data := g32(b[6:]), g32(b[10:]), g16(b[18:]), b[20:]
	c := x.byTO[host+fmt.Sprint(id)]
	if c == nil || to != host+":2222" {
		h.Violate("stray-packet", "the server sends an I/O packet for connection %#x to %s, who has no such connection", id, to)
		return
	}
	q := c.ios
	desc := fmt.Sprintf("packet %d of connection %#x to %s (interval %v)", seq, id, to, c.rpi)
	if q.refused {
		h.Violate("stray-packet", "%s: the connection was refused", desc)
		return
	}
	if q.sent > 0 && seq != q.lastSeq+1 {
		h.Violate("bad-sequence", "%s follows packet %d", desc, q.lastSeq)
		return
	}
	if q.sent > 0 && s16 != q.last16+1 {
		h.Violate("bad-sequence", "%s: data sequence number %d follows %d", desc, s16, q.last16)
		return
	}
	if end := q.ended(); end >= 0 && now > end+2*c.rpi+x.slack(end)+x.linkLag(c) {
		h.Violate("not-stopped", "%s is sent %v after the connection ended", desc, now-end)
		return
	}
	if q.sent > 0 {
		gap := now - q.lastAt
		if gap > x.maxGap(c, q.lastAt) {
			h.Violate("bad-period", "%s is sent %v after the previous one", desc, gap)
			return
		}
		if x.exact() && gap < c.rpi/2 {
			h.Violate("bad-period", "%s is sent only %v after the previous one", desc, gap)
			return
		}
	} else if q.opened > 0 && now-q.opened > x.maxGap(c, q.opened) {
		h.Violate("bad-period", "%s is the first, %v after the connection was opened", desc, now-q.opened)
		return
	}
	q.sent++
	q.lastSeq, q.last16, q.lastAt = seq, s16, now
	if q.sent == 1 {
		q.first = now
	}
	if int64(q.sent) > int64((now-q.first)/c.rpi)+3 {
		h.Violate("bad-period", "%s: %d packets within %v", desc, q.sent, now-q.first)
		return
	}
	// the image
	r := q.r
	if len(data) < 4 {
		h.Violate("torn-image", "%s: no data: % x", desc, data)
		return
	}
	g := int32(g32(data))
	if g < 0 || g > r.g || string(data) != string(r.img(g)) {
		h.Violate("torn-image", "%s has an image the application never set: % x", desc, data)
		return
	}
	m := r.upd[g]
	if l := r.upd[q.lastG]; m.end < l.begin {
		h.Violate("stale-image", "%s has image %d, the packet before had the later image %d", desc, g, q.lastG)
		return
	}
	q.lastG = g
	lag := c.rpi + 10*time.Millisecond
	for i := len(r.recent) - 1; i >= 0; i-- {
		if d := r.recent[i]; d.begin > m.end && d.at+lag+x.slack(d.at) < now {
			h.Violate("stale-image", "%s has image %d although the application had set image %d %v before", desc, g, d.g, now-d.at)
			return
		}
	}
}

// exact tells whether nothing but the server determines when packets are sent.
func (x *ioWorld) exact() bool { return x.maxHold == 0 && x.s.Cfg.StallProb == 0 }

// maxGap is the longest time without a packet since t.
func (x *ioWorld) maxGap(c *oconn, t time.Duration) time.Duration {
	n := time.Duration(1)
	if c.ios.r.failed {
		n = 5
	}
	if x.exact() {
		return n*c.rpi + c.rpi/2 + time.Millisecond
	}
	return (n+1)*c.rpi + x.slack(t)
}

// linkLag is the time until the server learns of the end of the session.
func (x *ioWorld) linkLag(c *oconn) time.Duration {
	if c.ios.lost || c.ios.closed == 0 {
		return 10*x.maxLat + x.linkStalls(c.tcp)
	}
	return 0
}

// ended is the time since when the connection is closed, -1 if it is not.
func (q *ioState) ended() time.Duration {
	if q.closed > 0 {
		return q.closed
	}
	if q.lost {
		return q.closing
	}
	return -1
}

// alive checks that all open connections still produce.
func (x *ioWorld) alive() {
	if x.s.Stopped() {
		return
	}
	now := x.s.Now()
	for _, c := range x.conns {
		q := c.ios
		if q.opened == 0 || q.closing > 0 || c.o.dead || c.o.c != c.tcp {
			continue
		}
		since := max(q.opened, q.lastAt)
		if now-since > x.maxGap(c, since) {
			x.h.Violate("no-production", "connection %#x of %s (interval %v) is open but no packet was sent for %v, %d before that", c.to, c.o.name, c.rpi, now-since, q.sent)
			return
		}
	}
}

// update is one change of the input data by the application.
func (x *ioWorld) update(st string, r *ioRoute) {
	s := x.s
	r.g++
	g := r.g
	m := &ioMark{g: g, begin: x.h.Tick(), end: math.MaxUint64}
	r.upd[g] = m
	if r.hold != nil && s.Draw(st, 2) == 1 {
		r.hold(g, x.yield(st))
	} else {
		r.set(g)
	}
	m.end, m.at = x.h.Tick(), s.Now()
	r.recent = append(r.recent, m)
	if len(r.recent) > 400 {
		r.recent = append([]*ioMark(nil), r.recent[200:]...)
	}
}

// yield is what the application does between two accesses to an image.
func (x *ioWorld) yield(st string) func() {
	s := x.s
	left := x.maxHold
	return func() {
		simrt.SyncPoint("app")
		if left > 0 && s.Draw(st, 3) == 1 {
			d := min(left, s.Dur(st, 0, x.maxHold/2))
			left -= d
			simrt.Sleep(d)
		}
	}
}

// ---------------------------------------------------------------- output packets

// outMsg is an output packet as an originator sends it.
func outMsg(ot uint32, seq uint32, data []byte) []byte {
	return cat(le16(2), le16(0x8002), le16(8), le32(ot), le32(seq), le16(0xB1), le16(uint16(6+len(data))), le16(uint16(seq)), le32(1), data)
}

// send sends a valid output packet on a connection.
func (x *ioWorld) send(c *oconn, ot uint32, r *ioRoute, bad string) *outPkt {
	x.outG++
	g := x.outG
	p := &outPkt{g: g, c: c, bad: bad, sent: x.h.Tick(), sentAt: x.s.Now(), lost: true}
	r.known[g] = p
	c.ios.outSeq++
	b := outMsg(ot, c.ios.outSeq, r.outImg(g))
	x.s.Logf("%s sends output %d on %#x (%s) %s", c.o.name, g, ot, r.kind, bad)
	x.cur = p
	x.curR = r
	x.s.Net.SendUDP(c.o.ip+":2222", srvUDP, b)
	x.cur = nil
	return p
}

// junk sends a malformed output packet on a connection.
func (x *ioWorld) junk(st string, c *oconn, r *ioRoute) {
	s := x.s
	x.outG++
	g := x.outG
	c.ios.outSeq++
	img := r.outImg(g)
	r.known[g] = &outPkt{g: g, c: c, bad: "malformed", sentAt: s.Now()}
	b := outMsg(c.ot, c.ios.outSeq, img)
	kind := ""
	switch s.Draw(st, 9) {
	case 0:
		kind = "short image"
		b = outMsg(c.ot, c.ios.outSeq, img[:s.Draw(st, len(img))])
	case 1:
		kind = "wrong data item"
		b[14] = 0xB2
	case 2:
		kind = "one item"
		b[0] = 1
	case 3:
		kind = "three items"
		b[0] = 3
	case 4:
		kind = "no sequence number"
		b = cat(le16(2), le16(0x8002), le16(4), le32(c.ot), b[14:])
	case 5:
		kind = "truncated"
		b = b[:s.Draw(st, len(b))]
	case 6:
		kind = "length beyond the end"
		b[16] += byte(1 + s.Draw(st, 200))
	case 7:
		kind = "wrong address item"
		b[2], b[3] = 0xA1, 0
	case 8:
		kind = "garbage"
		b = make([]byte, s.Draw(st, 5000))
		for i := range b {
			b[i] = byte(s.Draw(st, 256))
			if i > 60 {
				break
			}
		}
	}
	s.Stat("fault.bad_datagram")
	s.Logf("%s sends a bad output packet (%s) on %#x", c.o.name, kind, c.ot)
	s.Net.SendUDP(c.o.ip+":2222", srvUDP, b)
}

// arrival notes when an output packet reaches the server.
func (x *ioWorld) arrival(b []byte, drop bool, dup int, d time.Duration) {
	p := x.cur
	if p == nil || drop {
		return
	}
	now := x.s.Now()
	p.lost = false
	for i := 0; i <= dup; i++ {
		q := *p
		q.at = now + d*time.Duration(i+1)
		x.curR.insert(&q)
		if i == 0 {
			p.at = q.at
		}
	}
}

func (r *ioRoute) insert(p *outPkt) {
	i := len(r.arr)
	for i > 0 && r.arr[i-1].at > p.at {
		i--
	}
	r.arr = append(r.arr, nil)
	copy(r.arr[i+1:], r.arr[i:])
	r.arr[i] = p
}

// may tells whether packet p may have had an effect at all.
func (p *outPkt) may() bool {
	if p.bad != "" || p.lost {
		return false
	}
	q := p.c.ios
	if q.refused {
		return false
	}
	return q.closed == 0 || p.sent < q.closedT
}

// must tells whether packet p must have been delivered.
func (p *outPkt) must() bool {
	q := p.c.ios
	if !p.may() || q.opened == 0 || q.openedT > p.sent {
		return false
	}
	if q.closing > 0 {
		return p.at+50*time.Millisecond+q.x.slack(p.at) < q.closing
	}
	return p.c.tcp == p.c.o.c && !p.c.o.dead
}

// observed judges an output image that the application sees.
func (x *ioWorld) observed(who string, r *ioRoute, g int32, whole bool, t0 time.Duration) bool {
	h := x.h
	if !whole {
		h.Violate("torn-output", "%s of route % x sees a mixture of output packets (first part: %d)", who, r.path, g)
		return false
	}
	if g == 0 {
		return true
	}
	p := r.known[g]
	if p == nil {
		h.Violate("wrong-output", "%s of route % x sees image %d, which was not sent to it", who, r.path, g)
		return false
	}
	if !p.may() || p.at > x.s.Now() {
		why := p.bad
		if why == "" {
			why = "it was lost, or sent when the connection was closed"
		}
		h.Violate("wrong-output", "%s of route % x sees output packet %d, which must have no effect: %s", who, r.path, g, why)
		return false
	}
	return true
}

// current checks that image g, seen at or after t0, is not outdated.
func (x *ioWorld) current(who string, r *ioRoute, g int32, t0 time.Duration) {
	last, best := -1, int32(0)
	for i, p := range r.arr {
		if p.at+100*time.Millisecond+x.slack(p.at) < t0 && p.must() {
			last = i
			best = max(best, p.g)
		}
	}
	if last < 0 || g >= best {
		return
	}
	for i := last; i < len(r.arr); i++ {
		if r.arr[i].g == g {
			return
		}
	}
	x.h.Violate("lost-output", "%s of route % x sees image %d although packet %d arrived %v ago", who, r.path, g, r.arr[last].g, t0-r.arr[last].at)
}

// reader is an application task that looks at the output data.
func (x *ioWorld) reader(st string, r *ioRoute, n int) {
	s := x.s
	for i := 0; i < n && !s.Stopped(); i++ {
		t0 := s.Now()
		var g int32
		var ok bool
		who := "GetOutputData"
		if s.Draw(st, 2) == 1 {
			who = "a reader that holds OutMutex"
			g, ok = r.peek(x.yield(st))
		} else {
			g, ok = r.get()
		}
		if s.Stopped() {
			return
		}
		if x.observed(who, r, g, ok, t0) {
			x.current(who, r, g, t0)
		}
		s.Stat("io.observed")
		simrt.Sleep(s.Dur(st, time.Millisecond, 60*time.Millisecond) + 2*x.maxHold)
	}
}

// consumer is an application task that receives the output data from a channel.
// A fast one has to get every packet.
func (x *ioWorld) consumer(name, st string, r *ioRoute, fast bool) {
	s := x.s
	recv := r.listen()
	reg := s.Now()
	if s.Draw(st, 6) == 1 && !fast {
		return // never looks at it
	}
	c := &chanUser{x: x, r: r, name: name, reg: reg, fast: fast}
	x.users = append(x.users, c)
	for !s.Stopped() {
		g, ok := recv()
		if s.Stopped() || s.Killing() {
			return
		}
		if !x.observed(name, r, g, ok, s.Now()) {
			return
		}
		s.Stat("io.received")
		c.got = append(c.got, g)
		if !c.inOrder() {
			return
		}
		if !fast {
			simrt.Sleep(s.Dur(st, 0, 300*time.Millisecond))
		}
	}
}

type chanUser struct {
	x    *ioWorld
	r    *ioRoute
	name string
	reg  time.Duration
	fast bool
	got  []int32
	pos  int
}

// inOrder checks that what was received is a part of what arrived, in order.
func (c *chanUser) inOrder() bool {
	g := c.got[len(c.got)-1]
	for i := c.pos; i < len(c.r.arr); i++ {
		if c.r.arr[i].g == g {
			c.pos = i + 1
			return true
		}
	}
	c.x.h.Violate("channel-order", "%s of route % x receives packet %d after %v, which is not the order of arrival", c.name, c.r.path, g, c.got[max(0, len(c.got)-4):len(c.got)-1])
	return false
}

// complete checks that a fast consumer has everything that arrived at least a
// millisecond apart from the packets around it.
func (c *chanUser) complete() {
	x := c.x
	if !c.fast || !x.exact() {
		return
	}
	got := map[int32]bool{}
	for _, g := range c.got {
		got[g] = true
	}
	now := x.s.Now()
	for i, p := range c.r.arr {
		near := i > 0 && p.at-c.r.arr[i-1].at < time.Millisecond || i+1 < len(c.r.arr) && c.r.arr[i+1].at-p.at < time.Millisecond
		if near || !p.must() || p.at < c.reg+time.Millisecond || p.at > now-50*time.Millisecond {
			continue
		}
		if !got[p.g] {
			x.h.Violate("lost-output", "%s of route % x waits all the time but did not receive packet %d", c.name, c.r.path, p.g)
			return
		}
	}
}

// ---------------------------------------------------------------- scenario

func runIO(h *H) {
	w := newSW(h)
	s := w.s
	x := newIO(w)
	x.maxHold = []time.Duration{0, time.Millisecond, 15 * time.Millisecond}[h.Pick("cfg.hold", 4, 2, 1)]
	if h.Pick("cfg.faulty", 5, 2) == 1 {
		w.faultLinks(false, 60)
	}
	w.store(false, 1, 0)
	for i, n := 0, 1+s.Draw("cfg.routes", 3); i < n; i++ {
		r := x.route(1, byte(i+1))
		switch s.Pick("cfg.routes", 4, 4, 4, 4, 1, 1) {
		case 4:
			w.router.Handle(r.path, ioProvider[imgL, imgL](w, r))
			r.outImg, r.big = imageOf[imgL], true
		case 5:
			w.router.Handle(r.path, ioChannels[imgS, imgL](w, r))
			r.outImg, r.big = imageOf[imgL], true
		case 0:
			w.router.Handle(r.path, ioProvider[imgS, imgM](w, r))
			r.outImg = imageOf[imgM]
		case 1:
			w.router.Handle(r.path, ioProvider[imgM, imgS](w, r))
			r.outImg = imageOf[imgS]
		case 2:
			w.router.Handle(r.path, ioChannels[imgM, imgM](w, r))
			r.outImg = imageOf[imgM]
		default:
			w.router.Handle(r.path, ioChannels[imgS, imgS](w, r))
			r.outImg = imageOf[imgS]
		}
	}
	no := 1 + h.Pick("cfg.origs", 3, 3, 1)
	for i := 0; i < no; i++ {
		o := w.orig()
		for k := 0; k < 2; k++ {
			w.populate(w.provs[0], o, k)
		}
	}
	w.start()
	if s.Stopped() {
		return
	}
	stop := false
	var ts, apps []*simrt.Task
	for _, r := range x.routes {
		r := r
		name := fmt.Sprintf("app%d", r.idx)
		st := "op/" + name
		for i, n := 0, 1+s.Draw("cfg.apps", 2); i < n; i++ {
			st := fmt.Sprintf("%su%d", st, i)
			apps = append(apps, s.Go(name, func() {
				for !stop && !s.Stopped() {
					x.update(st, r)
					d := s.Dur(st, time.Millisecond, []time.Duration{3, 40, 700}[s.Draw(st, 3)]*time.Millisecond)
					simrt.Sleep(d + 3*x.maxHold)
				}
			}))
		}
		if r.get != nil {
			apps = append(apps, s.Go(name+"r", func() {
				for !stop && !s.Stopped() {
					x.reader(st+"r", r, 1)
				}
			}))
		} else {
			for i, n := 0, 1+s.Draw("cfg.consumers", 3); i < n; i++ {
				nm := fmt.Sprintf("%sc%d", name, i)
				fast := s.Draw("cfg.consumers", 2) == 0
				late := s.Dur("cfg.consumers", 0, time.Second)
				if s.Draw("cfg.consumers", 2) == 0 {
					late = 0
				}
				s.Go(nm, func() {
					simrt.Sleep(late)
					x.consumer(nm, "op/"+nm, r, fast)
				})
			}
		}
	}
	for _, o := range w.origs {
		o := o
		n := 2 + s.Draw("cfg.nops", 8)
		ts = append(ts, s.Go(o.name, func() {
			for k := 0; k < 2 && !s.Stopped(); k++ {
				x.session(fmt.Sprintf("op/%s/%d", o.name, k), o, k, n)
			}
		}))
	}
	s.Join(ts...)
	if s.Stopped() {
		return
	}
	simrt.Sleep(200 * time.Millisecond)
	for _, c := range x.users {
		c.complete()
	}
	stop = true
	s.Join(apps...)
	w.closing()
	if s.Stopped() {
		return
	}
	if n := s.Net.OpenPacketSockets(); n > 0 {
		h.Violate("not-released", "all sessions have ended but the server still has %d sockets open", n)
	}
	h.Nontrivial = true
}

// session is one TCP session of an originator with I/O connections.
func (x *ioWorld) session(st string, o *Orig, inc, steps int) {
	s := x.s
	if s.Stopped() || !o.dial() {
		return
	}
	o.register()
	o.flush()
	if !o.wait() {
		return
	}
	nid := 0
	rpis := []time.Duration{2, 5, 10, 20, 50, 200}
	var ios []*oconn
	var gone []*oconn
	var cl3 *oconn
	open := func() {
		nid++
		r := x.routes[s.Draw(st, len(x.routes))]
		rpi := rpis[s.Pick(st, 1, 1, 3, 3, 3, 1)] * time.Millisecond
		if s.Draw(st, 4) == 1 {
			rpi += s.Dur(st, 0, time.Millisecond) / time.Microsecond * time.Microsecond
		}
		p := foParams{large: s.Draw(st, 2) == 1, to: uint32(0x1000 + inc*64 + nid), serial: uint16(inc*64 + nid), vendor: uint16(o.idx), osn: 9, path: r.path, rpi: uint32(rpi / time.Microsecond), size: 100}
		if r.big {
			p.large, p.size = true, 4000
		}
		if s.Draw(st, 2) == 1 {
			p.otrpi = uint32(1000 * (1 + s.Draw(st, 100)))
		}
		if s.Draw(st, 3) == 1 {
			// an id of its own choice, or one that is in use. An id is never used again: delayed packets would
			// reach the wrong connection.
			x.nid++
			p.ot = x.nid
			for _, c := range ios {
				if c.open && c.ios.closing == 0 && s.Draw(st, 2) == 1 {
					p.ot = c.ot
				}
			}
		}
		ios = append(ios, x.open(o, p, r, wantOK))
	}
	for i := 0; i < steps && !s.Stopped() && !o.dead; i++ {
		var up []*oconn
		for _, c := range ios {
			if c.open && !c.gone && c.ios.closing == 0 {
				up = append(up, c)
			}
		}
		switch s.Pick(st, 4, 2, 5, 2, 3, 1) {
		case 1:
			if len(up) > 0 {
				c := up[s.Draw(st, len(up))]
				c.ios.closing = s.Now()
				o.closeConn(c)
				o.flush()
				if s.Draw(st, 2) == 1 {
					x.send(c, c.ot, c.ios.r, "") // while it is being closed
				}
				gone = append(gone, c)
			}
		case 2: // output packets
			if len(up) > 0 {
				for k, n := 0, 1+s.Draw(st, 8); k < n && !s.Stopped(); k++ {
					c := up[s.Draw(st, len(up))]
					if c.ios.closing > 0 {
						continue
					}
					x.send(c, c.ot, c.ios.r, "")
					if s.Draw(st, 3) > 0 {
						simrt.Sleep(s.Dur(st, time.Millisecond, 40*time.Millisecond))
					}
				}
			}
		case 3: // packets that must have no effect
			switch k := s.Draw(st, 4); {
			case k == 3 && cl3 != nil && cl3.open && len(ios) > 0:
				c := ios[s.Draw(st, len(ios))]
				if bytes.Equal(c.path, cl3.path) {
					x.send(c, cl3.ot, c.ios.r, "the connection is not for I/O")
				}
			case k == 0 && len(up) > 0:
				c := up[s.Draw(st, len(up))]
				x.junk(st, c, c.ios.r)
			case k == 1 && len(gone) > 0:
				c := gone[s.Draw(st, len(gone))]
				if c.ios.closed > 0 && !x.idUsed(c.ot) {
					x.send(c, c.ot, c.ios.r, "the connection is closed")
				}
			case len(ios) > 0:
				c := ios[s.Draw(st, len(ios))]
				if id := uint32(s.Draw(st, 5)) + 0x70000000; !x.idUsed(id) {
					x.send(c, id, c.ios.r, "no connection has this id")
				}
			}
		case 4: // tag requests alongside
			for k, n := 0, 1+s.Draw(st, 4); k < n; k++ {
				o.genReq(st, inc)
			}
			o.flush()
		case 5:
			path := x.provs[0].path
			odd := s.Draw(st, 2) == 1
			if odd {
				path = x.routes[s.Draw(st, len(x.routes))].path
			}
			c := o.open(foParams{large: true, to: uint32(0x2000 + inc*64 + i), serial: uint16(0x2000 + inc*64 + i), vendor: uint16(o.idx), osn: 9, path: path, trigger: 0xA3, rpi: 2000000, size: 500}, wantOK)
			if odd {
				cl3 = c
				c.idle = true // the applications there know no tags
			}
			o.flush()
		default:
			if len(up) < 3 {
				open()
				o.flush()
			}
		}
		if s.Draw(st, 3) > 0 && !o.wait() {
			break
		}
		simrt.Sleep(s.Dur(st, 0, []time.Duration{5, 60, 600}[s.Draw(st, 3)]*time.Millisecond))
		x.alive()
	}
	if s.Stopped() || o.dead || !o.wait() {
		return
	}
	x.alive()
	for _, c := range ios {
		if s.Draw(st, 3) == 0 && !c.gone && c.open && c.ios.closing == 0 {
			c.ios.closing = s.Now()
			o.closeConn(c)
		}
	}
	o.flush()
	if !o.wait() {
		return
	}
	for _, c := range ios {
		if c.ios.closing == 0 {
			c.ios.closing = s.Now()
			c.ios.lost = true
		}
	}
	o.close(s.Draw(st, 3))
	simrt.Sleep(s.Dur(st, 0, time.Second))
}

// idUsed tells whether an O->T id may be in use.
func (x *ioWorld) idUsed(id uint32) bool {
	for _, c := range x.conns {
		if c.ios.refused || c.ios.closed > 0 {
			continue
		}
		if c.ot == id || !c.open {
			return true
		}
	}
	for _, o := range x.origs {
		for _, c := range o.conns {
			if c.ot == id {
				return true
			}
		}
	}
	return false
}

func init() {
	base := []string{"serve-ended", "not-serving", "session-ended", "no-reply", "extra-reply", "reply-mismatch", "wrong-status"}
	register(&Check{Prop: "C14", Keys: append([]string{"bad-packet", "stray-packet", "bad-sequence", "not-stopped", "bad-period", "torn-image", "stale-image", "no-production", "leaked-task", "not-released"}, base...),
		Scen: []Scen{{Name: "cyclic I/O", Weight: 120, Run: runIO}, {Name: "long production", Weight: 1, Run: runLongIO}}})
	register(&Check{Prop: "C15", Keys: append([]string{"torn-output", "wrong-output", "lost-output", "channel-order"}, base...),
		Scen: []Scen{{Name: "cyclic I/O", Weight: 1, Run: runIO}}})
}

// runLongIO lets one connection produce until its sequence numbers have gone
// through 16 bits.
func runLongIO(h *H) {
	w := newSW(h)
	s := w.s
	s.Cfg.StallProb, s.Cfg.Quantum, s.Cfg.SyncProb = 0, 0, 0
	x := newIO(w)
	x.reorder = false
	w.store(false, 1, 0)
	r := x.route(1, 1)
	w.router.Handle(r.path, ioProvider[imgS, imgS](w, r))
	r.outImg = imageOf[imgS]
	o := w.orig()
	w.start()
	if s.Stopped() || !o.dial() {
		return
	}
	o.register()
	c := x.open(o, foParams{large: true, to: 77, serial: 7, vendor: 1, osn: 9, path: r.path, rpi: 1000, size: 100}, r, wantOK)
	o.flush()
	if !o.wait() {
		return
	}
	for i := 0; i < 68 && !s.Stopped(); i++ {
		x.update("op/app", r)
		simrt.Sleep(time.Second)
		x.alive()
	}
	c.ios.closing = s.Now()
	o.closeConn(c)
	o.flush()
	o.wait()
	w.closing()
	h.Nontrivial = true
}
