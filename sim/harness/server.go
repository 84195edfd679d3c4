//go:build go1.23

package harness

import (
	"bytes"
	"context"
	"fmt"
	"log/slog"
	"reflect"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// silent drops all log records of the server.
type silent struct{}

func (silent) Enabled(context.Context, slog.Level) bool  { return false }
func (silent) Handle(context.Context, slog.Record) error { return nil }
func (silent) WithAttrs([]slog.Attr) slog.Handler        { return silent{} }
func (silent) WithGroup(string) slog.Handler             { return silent{} }

const (
	srvIP   = "10.0.0.1"
	srvAddr = srvIP + ":44818"
	srvUDP  = srvIP + ":2222"
)

// SW is one simulated system: the real server, its tag stores, and raw
// originators that talk EtherNet/IP to it over the simulated network.
type SW struct {
	h      *H
	s      *simrt.Sim
	srv    *gologix.Server
	router *gologix.PathRouter
	provs  []*mprov
	serve  *simrt.Task
	ended  bool
	err    error
	base   int // goroutines of the idle server
	origs  []*Orig
	cuts   bool // connections may be cut by faults in this run
	uval   uint64
	maxLat time.Duration
	// others send what they like
	attacked bool
	memLimit uint64
	// the next tags made are more than fit in one list
	crowd bool
}

// mtag is the model of one tag.
type mtag struct {
	name  string
	typ   byte
	slice bool
	n     int
	data  []byte
}

func (t *mtag) es() int { return typeSize(t.typ) }

// mprov is a tag store with its model.
type mprov struct {
	path  []byte
	m     *gologix.MapTagProvider
	rec   *recProv
	tags  map[string]*mtag
	names []string
}

// recProv records which requests reach a tag store.
type recProv struct {
	*gologix.MapTagProvider
	w      *SW
	path   []byte
	reads  []string
	writes []string
	ioR    int
	ioW    int
}

func (r *recProv) TagRead(tag string, qty int16) (any, error) {
	r.reads = append(r.reads, strings.ToLower(tag))
	return r.MapTagProvider.TagRead(tag, qty)
}
func (r *recProv) TagWrite(tag string, value any) error {
	r.writes = append(r.writes, strings.ToLower(tag))
	return r.MapTagProvider.TagWrite(tag, value)
}
func (r *recProv) IORead() ([]byte, error) {
	r.ioR++
	return r.MapTagProvider.IORead()
}
func (r *recProv) IOWrite(items []gologix.CIPItem) error {
	r.ioW++
	return r.MapTagProvider.IOWrite(items)
}

func newSW(h *H) *SW {
	w := &SW{h: h, s: h.S, uval: 1}
	h.schedConfig()
	slog.SetDefault(slog.New(silent{}))
	w.router = gologix.NewRouter()
	w.srv = gologix.NewServer(w.router)
	w.srv.Logger = slog.New(silent{})
	w.netConfig()
	return w
}

// netConfig draws the shape of the network.
func (w *SW) netConfig() {
	s := w.s
	lat := []time.Duration{0, time.Millisecond, 30 * time.Millisecond, 400 * time.Millisecond}[s.Pick("cfg.lat", 2, 4, 3, 1)]
	seg := s.Pick("cfg.seg", 3, 4, 2)
	win := []int{0, 3000, 700}[s.Pick("cfg.win", 3, 1, 1)]
	w.maxLat = lat
	s.Net.Link = func(id int, addr string) simrt.LinkConfig {
		return simrt.LinkConfig{LatMin: lat / 4, LatMax: lat, Seg: seg, Window: win}
	}
}

// faultLinks lets connections suffer faults. Kinds that cut connections only if cut is set.
func (w *SW) faultLinks(cut bool, pct int) {
	s := w.s
	old := s.Net.Link
	w.cuts = cut
	s.Net.Link = func(id int, addr string) simrt.LinkConfig {
		c := old(id, addr)
		if s.Chance("fault.link", pct) {
			kinds := []int{simrt.FaultStall}
			if cut {
				kinds = []int{simrt.FaultStall, simrt.FaultReset, simrt.FaultFin, simrt.FaultBlackhole}
			}
			c.FaultKind = kinds[s.Draw("fault.link", len(kinds))]
			c.FaultDir = s.Draw("fault.link", 2)
			c.FaultAt = s.Draw("fault.link", []int{200, 1000, 6000}[s.Draw("fault.link", 3)])
			c.FaultDur = s.Dur("fault.link", time.Millisecond, 20*time.Second)
		}
		return c
	}
}

// store registers a tag store for a route.
func (w *SW) store(rec bool, path ...byte) *mprov {
	p := &mprov{path: path, m: &gologix.MapTagProvider{}, tags: map[string]*mtag{}}
	if rec {
		p.rec = &recProv{MapTagProvider: p.m, w: w, path: path}
		w.router.Handle(path, p.rec)
	} else {
		w.router.Handle(path, p.m)
	}
	w.provs = append(w.provs, p)
	return p
}

func (w *SW) next() uint64 { w.uval++; return w.uval }

// types a tag store can hold
var srvTypes = []byte{tDINT, tSINT, tINT, tREAL, tLINT, tLREAL, tUSINT, tUINT, tUDINT, tLWORD, tSTRING, tBOOL}

// goTagValue makes the Go value of a tag from its bytes.
func goTagValue(t *mtag) any {
	if !t.slice {
		return decodeElem(t.typ, t.data)
	}
	// some have room behind their end
	v := reflect.MakeSlice(reflect.SliceOf(goTypes[t.typ]), 0, t.n+t.n%3)
	for i := 0; i < t.n; i++ {
		v = reflect.Append(v, reflect.ValueOf(decodeElem(t.typ, t.data[i*t.es():])))
	}
	return v.Interface()
}

// tag creates a tag in the store before the server runs.
func (w *SW) tag(p *mprov, name string, typ byte, slice bool, n int) *mtag {
	t := &mtag{name: strings.ToLower(name), typ: typ, slice: slice, n: n}
	for i := 0; i < n; i++ {
		t.data = append(t.data, genElem(typ, w.next())...)
	}
	if p.m.Data == nil {
		p.m.Data = map[string]any{}
	}
	p.m.Data[t.name] = goTagValue(t)
	p.tags[t.name] = t
	p.names = append(p.names, t.name)
	return t
}

func (w *SW) start() {
	s := w.s
	w.serve = s.Go("serve", func() {
		w.err = w.srv.Serve()
		w.ended = true
		if !s.Killing() && !s.Stopped() {
			w.h.Violate("serve-ended", "Serve returned: %v", w.err)
		}
	})
	if !s.Block("server start", func() bool { return w.ended || s.Net.Listening("44818") && s.Net.UDPOpen("*:2222") }, time.Now().Add(time.Minute)) || w.ended {
		w.h.Violate("serve-ended", "the server does not listen (%v)", w.err)
		return
	}
	// the goroutines it starts are counted once none of them is held up
	for i := 0; i < 2000; i++ {
		t0 := s.Now()
		if simrt.Sleep(100 * time.Millisecond); s.StallSince(t0) == 0 {
			break
		}
	}
	w.base, _ = s.TasksAlive()
}

// connections counts the open connections of the server, -1 if it can't be told.
func (w *SW) connections() int {
	v := reflect.ValueOf(w.srv).Elem().FieldByName("ConnMgr")
	if v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return -1
	}
	f := v.FieldByName("Connections")
	if f.Kind() != reflect.Slice && f.Kind() != reflect.Map {
		return -1
	}
	return f.Len()
}

// closing checks that nothing is left once all sessions have ended.
func (w *SW) closing() {
	s := w.s
	if s.Stopped() {
		return
	}
	s.Net.Heal()
	for _, o := range w.origs {
		o.close(0)
	}
	t0 := s.Now()
	ended := func() bool {
		n, _ := s.TasksAlive()
		return n <= w.base
	}
	ok := false
	for limit := 30*time.Second + 3*s.Cfg.StallMax + w.maxLat*20; ; limit = time.Second {
		ok = s.Block("sessions end", ended, time.Now().Add(limit))
		if ok || s.Stopped() || s.Now()-t0 > 30*time.Second+w.maxLat*20+s.StallSince(t0) {
			break
		}
	}
	if s.Stopped() {
		return
	}
	if !ok {
		n, names := s.TasksAlive()
		w.h.Violate("leaked-task", "all sessions have ended but %d goroutines of the server still run:%s", n-w.base, names)
	}
	if n := w.connections(); n > 0 {
		w.h.Violate("not-released", "all sessions have ended but the server still holds %d connections", n)
	}
}

// ---------------------------------------------------------------- originator

// Orig is a raw client of the server.
type Orig struct {
	w       *SW
	name    string
	ip      string
	idx     int
	c       *simrt.Conn
	buf     []byte
	handle  uint32
	nctx    uint64
	ctxMode int
	out     []*sreq // requests sent and not answered
	tx      []byte
	conns   []*oconn
	dead    bool
	shut    bool // closed by us
	sent    int
	done    int
	rnd     func(n int) int
	// replies are not judged
	hostile bool
}

type oconn struct {
	o      *Orig
	ot, to uint32
	serial uint16
	vendor uint16
	osn    uint32
	path   []byte
	seq    uint16
	open   bool
	io     bool
	rpi    time.Duration
	gone   bool
	idle   bool        // not used for requests
	tcp    *simrt.Conn // the session it was opened on
	ios    *ioState
}

const (
	wantOK = iota
	wantErr
	wantAny
)

type sreq struct {
	o        *Orig
	cmd      uint16
	ctx      uint64
	desc     string
	want     int
	encErr   bool // the encapsulation layer has to refuse it
	lax      bool // only one reply is required, whatever it says
	conn     *oconn
	seq      uint16
	svc      byte
	start    uint64
	end      uint64
	sentAt   time.Duration
	recvAt   time.Duration
	answered bool
	rep      crep
	on       func(r *sreq)
	raw      []byte // body of a reply that is no CIP message
}

// crep is the CIP part of a reply.
type crep struct {
	enc    uint32
	svc    byte
	status byte
	ext    []uint16
	data   []byte
}

func (w *SW) orig() *Orig {
	i := len(w.origs)
	o := &Orig{w: w, idx: i, name: fmt.Sprintf("o%d", i), ip: fmt.Sprintf("10.0.1.%d", i+1)}
	w.origs = append(w.origs, o)
	return o
}

// dial opens the TCP session.
func (o *Orig) dial() bool {
	if o.c != nil && !o.c.Closed {
		o.shut, o.dead = true, true
		o.c.CloseNow()
	}
	c, err := o.w.s.Net.Dial(o.ip, srvAddr, 0, false)
	if err != nil {
		o.w.h.Violate("not-serving", "%s can't connect to the server: %v", o.name, err)
		o.dead = true
		return false
	}
	o.c = c
	o.ctxMode = o.w.s.Draw("orig.ctx", 3)
	o.buf, o.out, o.tx, o.handle, o.conns = nil, nil, nil, 0, nil
	o.dead, o.shut = false, false
	c.OnData = func(_ *simrt.Conn, b []byte) { o.data(c, b) }
	c.OnClose = func(_ *simrt.Conn, reset bool) { o.lost(c, reset) }
	return true
}

func (o *Orig) lost(c *simrt.Conn, reset bool) {
	if c != o.c || o.dead {
		return
	}
	o.dead = true
	if !o.hostile && !o.shut && !o.w.cuts && !o.w.s.Stopped() {
		o.w.h.Violate("session-ended", "the server ended the session of %s (reset: %v) with %d requests unanswered%s", o.name, reset, len(o.out), o.first())
	}
	if !c.Closed {
		c.CloseNow()
	}
}

func (o *Orig) first() string {
	if len(o.out) == 0 {
		return ""
	}
	return ", first: " + o.out[0].desc
}

// close ends the session: 0 orderly close of the socket, 1 reset, 2 UnregisterSession
func (o *Orig) close(how int) {
	if o.c == nil || o.c.Closed || o.dead {
		o.dead = true
		return
	}
	o.shut = true
	switch how {
	case 1:
		o.w.s.Stat("fault.client_reset")
		o.c.Reset()
		o.c.CloseNow()
	case 2:
		o.c.Push(o.header(0x66, 0, 0))
		return
	default:
		o.c.CloseNow()
	}
	o.dead = true
}

func (o *Orig) header(cmd uint16, n int, ctx uint64) []byte {
	return cat(le16(cmd), le16(uint16(n)), le32(o.handle), le32(0), le64(ctx), le32(0))
}

// add queues a request for sending.
func (o *Orig) add(r *sreq, body []byte) *sreq {
	o.nctx++
	r.o = o
	r.ctx = uint64(o.idx+1)<<56 | o.nctx*0x9E3779B1
	switch o.ctxMode {
	case 1: // always the same
		r.ctx = uint64(o.idx) * 0x0102030405060708
	case 2: // counted
		r.ctx = (o.nctx - 1) % 4
	}
	o.tx = append(o.tx, o.header(r.cmd, len(body), r.ctx)...)
	o.tx = append(o.tx, body...)
	if r.cmd != 0 {
		o.out = append(o.out, r)
	}
	o.sent++
	return r
}

// flush sends what was queued.
func (o *Orig) flush() {
	t := o.w.h.Tick()
	for _, r := range o.out {
		if r.start == 0 {
			r.start = t
			r.sentAt = o.w.s.Now()
			o.w.s.Logf("%s sends %s", o.name, r.desc)
		}
	}
	b := o.tx
	o.tx = nil
	if o.dead || o.c == nil {
		return
	}
	o.c.Push(b)
}

// wait lets all requests be answered.
func (o *Orig) wait() bool {
	s := o.w.s
	t0 := s.Now()
	limit := 30*time.Second + 60*o.w.maxLat
	moved := 0
	for {
		if s.Block("replies", func() bool { return o.dead || len(o.out) == 0 || s.Stopped() }, time.Now().Add(limit)) || s.Stopped() {
			return !o.dead && len(o.out) == 0
		}
		// where connections get lost nothing is concluded from silence
		if o.w.cuts {
			return false
		}
		// a slow network may take long for many bytes
		if n := o.c.Delivered() + o.c.Peer().Delivered(); n != moved {
			moved, t0, limit = n, s.Now(), 30*time.Second+60*o.w.maxLat
			continue
		}
		if extra := s.StallSince(t0) + o.w.linkStalls(o.c); s.Now()-t0 < limit+extra {
			limit = extra + time.Second
			continue
		}
		o.w.h.Violate("no-reply", "%s got no reply to %d requests within %v%s", o.name, len(o.out), s.Now()-t0, o.first())
		return false
	}
}

// linkStalls is the longest time a fault can hold up the connection.
func (w *SW) linkStalls(c *simrt.Conn) time.Duration {
	cfg := c.LinkCfg()
	if cfg.FaultKind == simrt.FaultStall {
		return cfg.FaultDur
	}
	return 0
}

func (o *Orig) data(c *simrt.Conn, b []byte) {
	if c != o.c {
		return
	}
	o.buf = append(o.buf, b...)
	for len(o.buf) >= 24 {
		n := 24 + int(g16(o.buf[2:]))
		if len(o.buf) < n {
			return
		}
		f := append([]byte(nil), o.buf[:n]...)
		o.buf = o.buf[n:]
		if o.hostile {
			o.learn(f)
			continue
		}
		o.reply(f)
		if o.w.s.Stopped() {
			return
		}
	}
}

// reply matches a message of the server with the oldest unanswered request.
func (o *Orig) reply(f []byte) {
	w := o.w
	if len(o.out) == 0 {
		w.h.Violate("extra-reply", "%s got a message nobody asked for: % x", o.name, f[:min(len(f), 80)])
		return
	}
	r := o.out[0]
	o.out = o.out[1:]
	r.end = w.h.Tick()
	r.recvAt = w.s.Now()
	r.answered = true
	o.done++
	w.s.Logf("%s gets the reply to %s", o.name, r.desc)
	if g16(f) != r.cmd {
		w.h.Violate("reply-mismatch", "%s: reply to %s has command %#x instead of %#x", o.name, r.desc, g16(f), r.cmd)
		return
	}
	if g64(f[12:]) != r.ctx {
		w.h.Violate("reply-mismatch", "%s: reply to %s has sender context %#x instead of %#x%s", o.name, r.desc, g64(f[12:]), r.ctx, o.whose(g64(f[12:])))
		return
	}
	if r.cmd == 0x65 {
		o.handle = g32(f[4:])
		if o.handle == 0 && r.want == wantOK {
			w.h.Violate("reply-mismatch", "%s: RegisterSession reply without a session handle", o.name)
		}
	} else if g32(f[4:]) != o.handle {
		w.h.Violate("reply-mismatch", "%s: reply to %s has session %#x instead of %#x", o.name, r.desc, g32(f[4:]), o.handle)
		return
	}
	r.rep.enc = g32(f[8:])
	body := f[24:]
	if r.lax {
		r.raw = body
		if r.on != nil {
			r.on(r)
		}
		return
	}
	if r.encErr {
		if r.rep.enc == 0 {
			w.h.Violate("wrong-status", "%s: %s was answered with status 0", o.name, r.desc)
		}
		return
	}
	if r.rep.enc != 0 {
		if r.want == wantOK {
			w.h.Violate("wrong-status", "%s: %s was refused with encapsulation status %#x", o.name, r.desc, r.rep.enc)
		} else {
			r.rep.status = 0xFF
			if r.on != nil {
				r.on(r)
			}
		}
		return
	}
	switch r.cmd {
	case 0x6F, 0x70:
		if e := o.cip(r, body); e != "" {
			w.h.Violate("reply-mismatch", "%s: reply to %s: %s: % x", o.name, r.desc, e, body[:min(len(body), 80)])
			return
		}
		switch {
		case r.want == wantOK && r.rep.status != 0 && r.rep.status != 6 && !(r.svc == 0x0A && r.rep.status == 0x1E):
			w.h.Violate("wrong-status", "%s: %s was refused with status %#x %x", o.name, r.desc, r.rep.status, r.rep.ext)
			return
		case r.want == wantErr && r.rep.status == 0:
			w.h.Violate("wrong-status", "%s: %s was answered with success although it can't be served", o.name, r.desc)
			return
		}
	default:
		r.raw = body
	}
	if r.on != nil {
		r.on(r)
	}
}

func (o *Orig) whose(ctx uint64) string {
	for _, r := range o.out {
		if r.ctx == ctx {
			return " (the one of " + r.desc + ")"
		}
	}
	return ""
}

// cip takes the CIP message out of a reply.
func (o *Orig) cip(r *sreq, b []byte) string {
	if len(b) < 8 || g32(b) != 0 {
		return "bad interface handle"
	}
	if g16(b[6:]) != 2 {
		return "not two items"
	}
	b = b[8:]
	var items [2][]byte
	var ids [2]uint16
	for i := range items {
		if len(b) < 4 || len(b) < 4+int(g16(b[2:])) {
			return "truncated item"
		}
		ids[i] = g16(b)
		n := int(g16(b[2:]))
		items[i] = b[4 : 4+n]
		b = b[4+n:]
	}
	if len(b) != 0 {
		return "bytes after the items"
	}
	m := items[1]
	if r.cmd == 0x70 {
		if ids[0] != 0xA1 || len(items[0]) != 4 || ids[1] != 0xB1 {
			return "wrong items for a connected reply"
		}
		if r.conn != nil && r.conn.open && g32(items[0]) != r.conn.to {
			return fmt.Sprintf("sent to connection %#x instead of %#x", g32(items[0]), r.conn.to)
		}
		if len(m) < 2 || g16(m) != r.seq {
			return "wrong sequence number"
		}
		m = m[2:]
	} else if ids[0] != 0 || len(items[0]) != 0 || ids[1] != 0xB2 {
		return "wrong items for an unconnected reply"
	}
	if len(m) < 4 || len(m) < 4+2*int(m[3]) {
		return "CIP message too short"
	}
	if m[0] != r.svc|0x80 {
		return fmt.Sprintf("service code %#x does not answer service %#x", m[0], r.svc)
	}
	r.rep.svc, r.rep.status = m[0], m[2]
	for i := 0; i < int(m[3]); i++ {
		r.rep.ext = append(r.rep.ext, g16(m[4+2*i:]))
	}
	r.rep.data = m[4+2*int(m[3]):]
	return ""
}

// ---------------------------------------------------------------- requests

func rrBody(m []byte) []byte {
	return cat(le32(0), le16(10), le16(2), le16(0), le16(0), le16(0xB2), le16(uint16(len(m))), m)
}
func udBody(id uint32, seq uint16, m []byte) []byte {
	return cat(le32(0), le16(0), le16(2), le16(0xA1), le16(4), le32(id), le16(0xB1), le16(uint16(len(m)+2)), le16(seq), m)
}

// rr queues an unconnected CIP request.
func (o *Orig) rr(r *sreq, m []byte) *sreq {
	r.cmd = 0x6F
	r.svc = m[0]
	return o.add(r, rrBody(m))
}

// ud queues a request on a connection.
func (o *Orig) ud(r *sreq, c *oconn, m []byte) *sreq {
	r.cmd = 0x70
	r.svc = m[0]
	r.conn = c
	c.seq++
	r.seq = c.seq
	return o.add(r, udBody(c.ot, r.seq, m))
}

// embed wraps a request in an unconnected send.
func embed(m []byte, route []byte) []byte {
	b := cat([]byte{0x52, 2, 0x20, 6, 0x24, 1, 7, 0xF9}, le16(uint16(len(m))), m)
	if len(m)%2 == 1 {
		b = append(b, 0)
	}
	if route == nil {
		return b
	}
	return cat(b, []byte{byte(len(route) / 2), 0}, route)
}

func (o *Orig) register() *sreq {
	return o.add(&sreq{cmd: 0x65, desc: "RegisterSession"}, []byte{1, 0, 0, 0})
}

// tagPath encodes the path of a tag, segment per dotted part, with an index.
func tagPath(name string, idx int, form int) []byte {
	var b []byte
	for _, part := range strings.Split(name, ".") {
		b = append(b, 0x91, byte(len(part)))
		b = append(b, part...)
		if len(part)%2 == 1 {
			b = append(b, 0)
		}
	}
	if idx >= 0 {
		switch {
		case idx > 65535 || form == 2:
			b = cat(b, []byte{0x2A, 0}, le32(uint32(idx)))
		case idx > 255 || form == 1:
			b = cat(b, []byte{0x29, 0}, le16(uint16(idx)))
		default:
			b = append(b, 0x28, byte(idx))
		}
	}
	return b
}

func svcPath(svc byte, path []byte, data ...[]byte) []byte {
	return cat([]byte{svc, byte(len(path) / 2)}, path, cat(data...))
}

// mixCase changes the case of some letters.
func (o *Orig) mixCase(st, name string) string {
	s := o.w.s
	switch s.Draw(st, 3) {
	case 1:
		return strings.ToUpper(name)
	case 2:
		b := []byte(name)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' && s.Draw(st, 2) == 1 {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return name
}

func wireType(t byte) []byte {
	if t == tSTRING {
		return []byte{0xA0, 0x02, 0xCE, 0x0F}
	}
	return []byte{t, 0}
}

// sameType tells whether the type code of a reply stands for type t.
func sameType(got, t byte) bool {
	if got == t {
		return true
	}
	for _, g := range [][]byte{{tUSINT, tBYTE}, {tUINT, tWORD}, {tUDINT, tDWORD}, {0xC9, tLWORD}} {
		if bytes.IndexByte(g, got) >= 0 && bytes.IndexByte(g, t) >= 0 {
			return true
		}
	}
	return false
}

// takeType splits the data of a read reply in type and values.
func takeType(d []byte, t byte) (vals []byte, bad string) {
	if t == tSTRING {
		if len(d) < 4 || !bytes.Equal(d[:4], wireType(tSTRING)) {
			return nil, "is not a STRING"
		}
		return d[4:], ""
	}
	if len(d) < 2 || !sameType(d[0], t) || d[1] != 0 {
		return nil, fmt.Sprintf("has a type other than %#x", t)
	}
	return d[2:], ""
}

// sameVals compares values; a BOOL only has to be zero or not.
func sameVals(t byte, a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	if t != tBOOL {
		return bytes.Equal(a, b)
	}
	for i := range a {
		if (a[i] != 0) != (b[i] != 0) {
			return false
		}
	}
	return true
}

// checkRead judges the reply to a read of the bytes exp.
func (o *Orig) checkRead(desc string, status byte, d []byte, t byte, exp []byte, key string) (got int, ok bool) {
	vals, bad := takeType(d, t)
	if bad != "" {
		o.w.h.Violate(key, "%s: reply to %s %s: % x", o.name, desc, bad, d[:min(len(d), 40)])
		return 0, false
	}
	if status == 6 && len(vals) > 0 && len(vals) < len(exp) {
		if sameVals(t, vals, exp[:len(vals)]) {
			return len(vals), true
		}
	} else if status == 0 && sameVals(t, vals, exp) {
		return len(vals), true
	}
	i := 0
	for i < len(vals) && i < len(exp) && vals[i] == exp[i] {
		i++
	}
	o.w.h.Violate(key, "%s: reply to %s (status %d) has %d bytes instead of %d, different from byte %d on: % x instead of % x", o.name, desc, status, len(vals), len(exp), i,
		vals[min(i, len(vals)):min(i+24, len(vals))], exp[min(i, len(exp)):min(i+24, len(exp))])
	return 0, false
}

// ---------------------------------------------------------------- opening and closing

type foParams struct {
	large          bool
	ot, to         uint32
	serial, vendor uint16
	osn            uint32
	path           []byte
	trigger        byte
	rpi            uint32 // microseconds
	otrpi          uint32 // 0: the same
	size           uint16
}

func foMsg(p foParams) []byte {
	path := append(append([]byte(nil), p.path...), 0x20, 2, 0x24, 1)
	svc := byte(0x54)
	if p.large {
		svc = 0x5B
	}
	if p.otrpi == 0 {
		p.otrpi = p.rpi
	}
	m := cat([]byte{svc, 2, 0x20, 6, 0x24, 1, 10, 14}, le32(p.ot), le32(p.to), le16(p.serial), le16(p.vendor), le32(p.osn), le32(3), le32(p.otrpi))
	if p.large {
		m = cat(m, le32(0x42000000|uint32(p.size)), le32(p.rpi), le32(0x42000000|uint32(p.size)))
	} else {
		m = cat(m, le16(0x4200|p.size&0x1FF), le32(p.rpi), le16(0x4200|p.size&0x1FF))
	}
	return cat(m, []byte{p.trigger, byte(len(path) / 2)}, path)
}

func fcMsg(serial, vendor uint16, osn uint32) []byte {
	path := []byte{1, 0, 0x20, 2, 0x24, 1}
	return cat([]byte{0x4E, 2, 0x20, 6, 0x24, 1, 10, 14}, le16(serial), le16(vendor), le32(osn), []byte{byte(len(path) / 2), 0}, path)
}

// open queues a forward open; the connection is usable once it is answered.
func (o *Orig) open(p foParams, want int) *oconn {
	c := &oconn{o: o, tcp: o.c, serial: p.serial, vendor: p.vendor, osn: p.osn, path: p.path, to: p.to, io: p.trigger == 1, rpi: time.Duration(p.rpi) * time.Microsecond}
	r := &sreq{desc: fmt.Sprintf("forward open %d/%d/%d on % x", p.serial, p.vendor, p.osn, p.path), want: want}
	r.on = func(r *sreq) {
		if r.rep.status != 0 {
			if c.ios != nil {
				c.ios.refused = true
			}
			return
		}
		d := r.rep.data
		if len(d) < 26 {
			o.w.h.Violate("reply-mismatch", "%s: reply to %s is too short: % x", o.name, r.desc, d)
			return
		}
		if g16(d[8:]) != p.serial || g16(d[10:]) != p.vendor || g32(d[12:]) != p.osn {
			o.w.h.Violate("reply-mismatch", "%s: reply to %s is about connection %d/%d/%d", o.name, r.desc, g16(d[8:]), g16(d[10:]), g32(d[12:]))
			return
		}
		c.ot = g32(d)
		if p.to != 0 && g32(d[4:]) != p.to {
			o.w.h.Violate("reply-mismatch", "%s: reply to %s has T->O id %#x instead of %#x", o.name, r.desc, g32(d[4:]), p.to)
			return
		}
		c.to = g32(d[4:])
		if g32(d[16:]) == 0 && p.rpi != 0 || g32(d[20:]) == 0 && p.rpi != 0 {
			o.w.h.Violate("reply-mismatch", "%s: reply to %s promises a packet interval of 0", o.name, r.desc)
			return
		}
		if c.io && g32(d[20:]) != p.rpi {
			o.w.h.Violate("reply-mismatch", "%s: reply to %s promises a packet interval of %d us instead of %d", o.name, r.desc, g32(d[20:]), p.rpi)
			return
		}
		c.open = true
		// sequence numbers start anywhere
		c.seq = uint16([]int{0, o.w.s.Draw("cfg.seq", 65536), 65535 - o.w.s.Draw("cfg.seq", 12)}[o.w.s.Draw("cfg.seq", 3)])
		if c.ios != nil {
			c.ios.opened, c.ios.openedT = o.w.s.Now(), o.w.h.Tick()
		}
		o.conns = append(o.conns, c)
	}
	o.rr(r, foMsg(p))
	return c
}

// closeConn queues a forward close.
func (o *Orig) closeConn(c *oconn) *sreq {
	r := &sreq{desc: fmt.Sprintf("forward close %d/%d/%d", c.serial, c.vendor, c.osn)}
	r.on = func(r *sreq) {
		d := r.rep.data
		if r.rep.status != 0 {
			return
		}
		if len(d) < 8 || g16(d) != c.serial || g16(d[2:]) != c.vendor || g32(d[4:]) != c.osn {
			o.w.h.Violate("reply-mismatch", "%s: reply to %s is about another connection: % x", o.name, r.desc, d)
		}
		c.gone = true
		c.open = false
		if c.ios != nil {
			c.ios.closed, c.ios.closedT = o.w.s.Now(), o.w.h.Tick()
		}
		for i, x := range o.conns {
			if x == c {
				o.conns = append(o.conns[:i:i], o.conns[i+1:]...)
				break
			}
		}
	}
	return o.rr(r, fcMsg(c.serial, c.vendor, c.osn))
}
