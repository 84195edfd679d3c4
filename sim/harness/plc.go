//go:build go1.23

package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// PLC is an executable reference model of a Logix controller: event driven,
// strictly validating, with per request faults.
type PLC struct {
	h    *H
	s    *simrt.Sim
	Addr string

	status    *statusObj
	mangleDef func(u *UDT, def []byte)
	tags      map[string]*PTag // lower case full name
	tagList   []*PTag
	programs  []string
	udts      []*UDT

	sess   map[*simrt.Conn]*plcSess
	conns  map[uint32]*plcConn
	nextID uint32
	serial uint32

	// configuration
	Firmware    byte
	ListBusy    bool // it lists no tags at present
	Lists       int  // requests to list tags
	Lies        bool // it may have told a wrong firmware
	LargeFO     bool // large forward open supported
	UnknownConn int  // reaction to an unknown connection id: 0 error, 1 silence
	ThinkMax    time.Duration
	MutReq      int // percent chance of changing a tag before each request
	Timeout     time.Duration
	FaultPM     int // per mille chance of a fault per request
	FaultOn     []int
	Strict      bool // all requests of the workload are for something that exists
	Odd         int  // calls under way that ask for something that does not exist
	BadFrag     int  // per mille of malformed fragments
	BadFrags    int
	cur         *plcSess // whose request is being processed
	LastBad     string
	inMulti     bool
	MaxReply    int // upper bound of fragment data, 0 none
	FragMode    int // 0 as much as fits, 1 element aligned random, 2 any byte split
	Healed      bool
	PageMax     int // discovery: entries per page, 0 as fits

	// history
	ErrReplies              int // error statuses sent
	Requests                int
	Swallowed               int // requests not answered
	Fragments               int
	StructParts             int // partial replies to reads of structures or inside a multi read, which the client refuses
	DupSeq                  int
	Writes                  []*WriteRec
	OnWrite                 func(w *WriteRec)
	OnDupSeq                func(seq uint16, svc byte)
	OnOversize              func(n, limit int, svc byte, alone bool)
	OnBad                   func(msg string)
	Custom                  func(svc byte, path []seg, data []byte) (handled bool, status byte, body []byte)
	FOCount, FCCount, FOBad int
	Mangle                  func(frame []byte) ([]byte, bool) // hostile responses
	MutVers                 uint64

	// data table buffers
	dt        map[uint32]*dtBuf
	dtSerial  int
	dtKeep    bool // buffers outlive their connection
	dtLow     bool // the lowest free identifier is assigned
	nextDT    uint32
	dtBase    uint32 // identifiers are above this
	dtRefused func(b *dtBuf, why string)
	extra     map[string][]listEntry // listed symbols that are no tags

	ErrExt     int                    // additional words of extended status in error replies
	QuietMulti bool                   // the status of a multi service reply does not tell that services failed
	NoProgs    int                    // status of the program listing, 0 supported
	listFault  func(what string) byte // status to answer instead of a page
	dtHook     func(svc byte, path []seg, data []byte, c *plcConn) (bool, byte, []byte)
	props      [5]uint32
	onFrame    func(ps *plcSess, cmd uint16)
	progIDs    []uint32 // instance numbers of the programs, nil: 1, 2, 3...
	ident      identData
	services   []string
	AttrPolls  []time.Duration
	Route      []byte        // path of connections
	RPI        time.Duration // packet interval asked for, 0 any
	WantSize   func(large bool, n int) bool
	WantID     func(vendor uint16, serial uint32) bool
	opened     map[[3]uint32]bool
}

// PTag is a controller tag with its complete value history.
type PTag struct {
	ID       int
	Name     string // full name, Program:X.name for program tags
	Prog     string
	Type     byte
	UDT      *UDT
	Dims     []int
	N        int
	ES       int // element size on the wire
	Instance uint32
	Data     []byte
	Hist     []Version
	ReadOnly bool
	NoMut    bool
	TypeWord uint16 // type as listed
}

type Version struct {
	Tick uint64
	Data []byte
}

type WriteRec struct {
	Tick uint64
	At   time.Duration
	Tag  *PTag
	Off  int
	Data []byte
	Conn *plcConn
	Seq  uint16
	Bit  int // packed member bit, -1 none
	UDT  *UDT
}

// UDT is a structure definition of the controller.
type UDT struct {
	Name    string
	ID      uint16
	Members []UMember
	Size    int
	Handle  uint16
	Enc     string
	Suffix  bool
	Str     int // string type of this capacity
}
type UMember struct {
	Name string
	Type byte // tBOOL with Bit>=0: packed bit
	Bit  int
	Off  int
	UDT  *UDT
	N    int // array length, 0 scalar
}

type plcSess struct {
	p      *PLC
	c      *simrt.Conn
	buf    []byte
	q      [][]byte
	busy   bool
	handle uint32
	dead   bool
}

type plcConn struct {
	ID      uint32
	TOID    uint32
	Serial  uint16
	Vendor  uint16
	OSN     uint32
	Size    int
	sess    *plcSess
	lastSeq int
	lastRep []byte
	lastFP  string
	silent  bool
}

func NewPLC(h *H, addr string) *PLC {
	p := &PLC{h: h, s: h.S, Addr: addr, tags: map[string]*PTag{}, sess: map[*simrt.Conn]*plcSess{}, conns: map[uint32]*plcConn{},
		nextID: 0x00C00000, Firmware: 32, LargeFO: true, dt: map[uint32]*dtBuf{}, Timeout: time.Second}
	p.props = [5]uint32{5, 0xFFFF, 0x1000, 0x2000, 0x3000}
	h.S.Net.Endpoint(addr, p.accept)
	return p
}

// ---------------------------------------------------------------- tags

func (p *PLC) AddTag(name string, typ byte, udt *UDT, dims ...int) *PTag {
	t := &PTag{ID: len(p.tagList) + 1, Name: name, Type: typ, UDT: udt, Dims: dims, N: 1, Instance: uint32(len(p.tagList))*3 + 2}
	for _, d := range dims {
		t.N *= d
	}
	if udt != nil {
		t.ES = udt.Size
	} else {
		t.ES = typeSize(typ)
	}
	if i := strings.Index(name, "."); i > 0 && strings.HasPrefix(name, "Program:") {
		t.Prog = name[8:i]
	}
	t.Data = make([]byte, t.ES*t.N)
	p.tags[strings.ToLower(name)] = t
	p.tagList = append(p.tagList, t)
	p.Mutate(t)
	return t
}

// unique value of element e in version v of tag t
func uval(t *PTag, v uint64, e int) uint64 {
	return uint64(t.ID)<<16 + v<<8 + uint64(e)*7 + v
}

// Mutate gives the tag a new value.
func (p *PLC) Mutate(t *PTag) {
	p.MutVers++
	d := make([]byte, len(t.Data))
	for e := 0; e < t.N; e++ {
		copy(d[e*t.ES:], p.genTagElem(t, p.MutVers, e))
	}
	t.Data = d
	t.Hist = append(t.Hist, Version{p.h.Tick(), d})
}

func (p *PLC) genTagElem(t *PTag, v uint64, e int) []byte {
	if t.UDT != nil {
		return genUDT(t.UDT, uval(t, v, e)*16)
	}
	return genElem(t.Type, uval(t, v, e))
}

func genUDT(u *UDT, seed uint64) []byte {
	b := make([]byte, u.Size)
	if u.Str > 0 {
		n := int(seed/16) % (u.Str + 1)
		copy(b, le32(uint32(n)))
		x := fmt.Sprintf("%d:%s", seed, strings.Repeat("q", n))
		copy(b[4:], x[:n])
		return b
	}
	for i, m := range u.Members {
		if m.Bit >= 0 {
			if seed>>uint(i)&1 == 1 {
				b[m.Off] |= 1 << m.Bit
			}
			continue
		}
		n := m.N
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			if m.UDT != nil {
				copy(b[m.Off+k*m.UDT.Size:], genUDT(m.UDT, seed+uint64(i*5+k)+1))
			} else {
				copy(b[m.Off+k*typeSize(m.Type):], genElem(m.Type, seed+uint64(i*5+k)))
			}
		}
	}
	return b
}

func (t *PTag) apply(p *PLC, off int, data []byte) {
	d := append([]byte(nil), t.Data...)
	copy(d[off:], data)
	t.Data = d
	t.Hist = append(t.Hist, Version{p.h.Tick(), d})
}

// versionsIn lists the values of a tag current at some point in [a,b].
func (t *PTag) versionsIn(a, b uint64) [][]byte {
	var out [][]byte
	for i, v := range t.Hist {
		if v.Tick > b {
			break
		}
		if i+1 < len(t.Hist) && t.Hist[i+1].Tick < a {
			continue
		}
		out = append(out, v.Data)
	}
	return out
}

// ---------------------------------------------------------------- sessions

func (p *PLC) accept(c *simrt.Conn) {
	ps := &plcSess{p: p, c: c}
	p.sess[c] = ps
	c.OnData = func(c *simrt.Conn, b []byte) { ps.data(b) }
	c.OnClose = func(c *simrt.Conn, reset bool) { ps.gone() }
	c.OnLocalClose = func(c *simrt.Conn) { ps.gone() }
}

func (ps *plcSess) gone() {
	if ps.dead {
		return
	}
	ps.dead = true
	p := ps.p
	delete(p.sess, ps.c)
	ids := p.connIDs()
	for _, id := range ids {
		if c := p.conns[id]; c.sess == ps {
			p.dropConn(c)
		}
	}
	if !ps.c.Closed {
		ps.c.CloseNow()
	}
}

func (p *PLC) connIDs() []uint32 {
	var ids []uint32
	for id := range p.conns {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func (p *PLC) dropConn(c *plcConn) {
	delete(p.conns, c.ID)
	for id, b := range p.dt {
		if b.conn == c {
			delete(p.dt, id)
		}
	}
}

// Restart is a controller restart: all sessions, connections and buffers are gone.
func (p *PLC) Restart() {
	p.s.Stat("fault.plc_restart")
	p.s.Logf("plc: restart")
	var cs []*simrt.Conn
	for c := range p.sess {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		c.Reset()
	}
	p.sess = map[*simrt.Conn]*plcSess{}
	p.conns = map[uint32]*plcConn{}
	p.dt = map[uint32]*dtBuf{}
	p.nextDT = 0
}

func (ps *plcSess) data(b []byte) {
	if ps.dead {
		return
	}
	ps.buf = append(ps.buf, b...)
	for len(ps.buf) >= 24 {
		n := 24 + int(g16(ps.buf[2:]))
		if len(ps.buf) < n {
			break
		}
		ps.q = append(ps.q, append([]byte(nil), ps.buf[:n]...))
		ps.buf = ps.buf[n:]
	}
	ps.pump()
}

// request faults
const (
	pfNone = iota
	pfDelay
	pfDropReply
	pfDropReq
	pfResetBefore
	pfResetAfter
	pfTruncStall
	pfTruncReset
	pfStatus
	pfDribble
	pfRestart
	pfForget
	pfEncapStatus
	pfCount
)

var pfNames = []string{"none", "plc_slow_reply", "plc_lost_reply", "plc_lost_request", "plc_reset_before", "plc_reset_after", "plc_truncated_then_stall",
	"plc_truncated_then_reset", "plc_error_status", "plc_dribble", "plc_restart", "plc_forgets_connection", "plc_encap_status"}

func (ps *plcSess) pump() {
	if ps.busy || ps.dead || len(ps.q) == 0 {
		return
	}
	p := ps.p
	s := p.s
	f := ps.q[0]
	ps.q = ps.q[1:]
	p.Requests++
	kind := pfNone
	if p.FaultPM > 0 && !p.Healed && s.ChanceM("plc", p.FaultPM) {
		if len(p.FaultOn) > 0 {
			kind = p.FaultOn[s.Draw("plc", len(p.FaultOn))]
		}
	}
	think := s.Dur("plc.think", 0, p.ThinkMax)
	if kind == pfDelay {
		s.Stat("fault." + pfNames[kind])
		d := s.Dur("plc", p.Timeout/4, p.Timeout*5/2)
		s.Logf("plc: conn%d will answer %s after %v", ps.c.ID, frameName(f), d)
		// process now or later
		if s.Draw("plc", 2) == 1 {
			think = d
			kind = pfNone
		} else {
			rep := ps.process(f, false)
			ps.busy = true
			s.After(d, func() { ps.busy = false; ps.send(rep, pfNone); ps.pump() })
			return
		}
	}
	if think > 0 {
		ps.busy = true
		s.After(think, func() { ps.busy = false; ps.finish(f, kind); ps.pump() })
		return
	}
	ps.finish(f, kind)
	ps.pump()
}

func frameName(f []byte) string {
	cmd := g16(f)
	n := fmt.Sprintf("cmd%02x", cmd)
	if (cmd == 0x6f || cmd == 0x70) && len(f) > 44 {
		switch {
		case cmd == 0x70 && len(f) > 48:
			n = fmt.Sprintf("connected svc%02x seq%d", f[46], g16(f[44:]))
		case cmd == 0x6f:
			n = fmt.Sprintf("unconnected svc%02x", f[40])
		}
	}
	return n
}

func (ps *plcSess) finish(f []byte, kind int) {
	p := ps.p
	s := p.s
	if ps.dead {
		return
	}
	if kind != pfNone {
		s.Stat("fault." + pfNames[kind])
		s.Logf("plc: conn%d fault %s at %s", ps.c.ID, pfNames[kind], frameName(f))
		p.h.Nontrivial = true
	}
	switch kind {
	case pfDropReq:
		p.Swallowed++
		return
	case pfResetBefore:
		ps.c.Reset()
		ps.gone()
		return
	case pfRestart:
		if s.Draw("plc", 2) == 1 {
			ps.process(f, false)
		}
		p.Restart()
		return
	case pfForget:
		for _, id := range p.connIDs() {
			p.dropConn(p.conns[id])
		}
	}
	rep := ps.process(f, kind == pfStatus)
	switch kind {
	case pfDropReply:
		p.Swallowed++
		return
	case pfResetAfter:
		ps.c.Reset()
		ps.gone()
		return
	case pfEncapStatus:
		if len(rep) >= 24 {
			rep = append([]byte(nil), rep[:24]...)
			binary.LittleEndian.PutUint16(rep[2:], 0)
			binary.LittleEndian.PutUint32(rep[8:], []uint32{0x64, 1, 3, 0x65}[s.Draw("plc", 4)])
			p.ErrReplies++
		}
	}
	ps.send(rep, kind)
}

func (ps *plcSess) send(rep []byte, kind int) {
	p := ps.p
	s := p.s
	if rep == nil || ps.dead {
		return
	}
	if p.Mangle != nil && !p.Healed {
		var cut bool
		rep, cut = p.Mangle(rep)
		if cut {
			ps.c.Push(rep)
			s.After(time.Millisecond*time.Duration(s.Draw("mangle", 100)), func() {
				if !ps.dead && !p.Healed {
					ps.gone()
				}
			})
			return
		}
	}
	switch kind {
	case pfTruncStall, pfTruncReset:
		k := s.Draw("plc", len(rep))
		ps.c.Push(rep[:k])
		if kind == pfTruncReset {
			c := ps.c
			s.After(time.Duration(s.Draw("plc", 50))*time.Millisecond, func() { c.Reset(); ps.gone() })
		} else {
			p.Swallowed++
			ps.busy = true // never answers again
		}
		return
	case pfDribble:
		// the reply trickles in, each gap shorter than the socket time-out
		gap := s.Dur("plc", p.Timeout/20, p.Timeout*9/10)
		ps.busy = true
		pos := 0
		var step func()
		step = func() {
			if ps.dead || pos >= len(rep) || p.Healed {
				if !ps.dead && pos < len(rep) {
					ps.c.Push(rep[pos:])
				}
				ps.busy = false
				ps.pump()
				return
			}
			k := 1
			if len(rep) > 200 {
				k = len(rep) / 100
			}
			if pos+k > len(rep) {
				k = len(rep) - pos
			}
			ps.c.Push(rep[pos : pos+k])
			pos += k
			s.After(gap, step)
		}
		step()
		return
	}
	ps.c.Push(rep)
}

func eipReply(f []byte, status uint32, payload []byte) []byte {
	h := append([]byte(nil), f[:24]...)
	binary.LittleEndian.PutUint16(h[2:], uint16(len(payload)))
	binary.LittleEndian.PutUint32(h[8:], status)
	return append(h, payload...)
}

// refused notes a request that no well-formed call of the workload leads to.
func (p *PLC) refused(format string, a ...any) {
	if p.Strict && p.Odd == 0 {
		p.bad(format, a...)
	}
}

func (p *PLC) bad(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	p.s.Logf("plc: malformed request: %s", msg)
	if p.OnBad != nil {
		p.OnBad(msg)
	}
}

func parseItems(b []byte) (items [][2][]byte, err error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("short item list")
	}
	n := int(g16(b[6:]))
	b = b[8:]
	for i := 0; i < n; i++ {
		if len(b) < 4 {
			return nil, fmt.Errorf("item %d header missing", i)
		}
		l := int(g16(b[2:]))
		if len(b) < 4+l {
			return nil, fmt.Errorf("item %d truncated", i)
		}
		items = append(items, [2][]byte{b[:2], b[4 : 4+l]})
		b = b[4+l:]
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("%d bytes after the last item", len(b))
	}
	return items, nil
}

func itemList(ids []uint16, datas ...[]byte) []byte {
	o := cat(le32(0), le16(0), le16(uint16(len(ids))))
	for i, id := range ids {
		o = cat(o, le16(id), le16(uint16(len(datas[i]))), datas[i])
	}
	return o
}

func (ps *plcSess) process(f []byte, forceErr bool) []byte {
	p := ps.p
	p.cur = ps
	cmd := g16(f)
	body := f[24:]
	if p.onFrame != nil {
		p.onFrame(ps, cmd)
	}
	if p.MutReq > 0 && p.s.Chance("plc.mut", p.MutReq) {
		p.MutateSome(1 + p.s.Draw("plc.mut", 3))
	}
	switch cmd {
	case 0x65: // register session
		p.serial++
		ps.handle = 0x5000 + p.serial
		rep := eipReply(f, 0, body)
		if forceErr {
			p.ErrReplies++
			return eipReply(f, []uint32{0x65, 0x69, 1, 0x100}[p.s.Draw("plc", 4)], body[:len(body)*p.s.Draw("plc", 2)])
		}
		binary.LittleEndian.PutUint32(rep[4:], ps.handle)
		return rep
	case 0x66:
		ps.gone()
		return nil
	case 0x6f, 0x70:
		if ps.handle == 0 || g32(f[4:]) != ps.handle {
			p.ErrReplies++
			p.s.Logf("plc: bad session %x on conn%d", g32(f[4:]), ps.c.ID)
			return eipReply(f, 0x64, nil)
		}
		items, err := parseItems(body)
		if err != nil || len(items) != 2 {
			p.bad("%v (%d items)", err, len(items))
			p.ErrReplies++
			return eipReply(f, 3, nil)
		}
		if cmd == 0x6f {
			return ps.unconnected(f, items[1][1], forceErr)
		}
		return ps.connected(f, items, forceErr)
	case 0x63, 0x04:
		if forceErr {
			p.ErrReplies++
			return eipReply(f, 1, nil)
		}
		if cmd == 0x63 {
			d := p.ident.encode()
			return eipReply(f, 0, cat(le16(1), le16(0x0C), le16(uint16(len(d))), d))
		}
		out := le16(uint16(len(p.services)))
		for _, n := range p.services {
			out = cat(out, le16(0x100), le16(20), le16(1), le16(uint16(0x20+len(n))), []byte(n), make([]byte, 16-len(n)))
		}
		return eipReply(f, 0, out)
	}
	p.bad("encapsulation command %x", cmd)
	p.ErrReplies++
	return eipReply(f, 1, nil)
}

func cipReply(svc, status byte, ext []uint16, data []byte) []byte {
	o := []byte{svc | 0x80, 0, status, byte(len(ext))}
	for _, e := range ext {
		o = append(o, le16(e)...)
	}
	return append(o, data...)
}

func (ps *plcSess) unconnected(f, b []byte, forceErr bool) []byte {
	p := ps.p
	s := p.s
	rr := func(inner []byte) []byte {
		return eipReply(f, 0, itemList([]uint16{0, 0xB2}, nil, inner))
	}
	if len(b) < 6 {
		p.bad("short unconnected request")
		p.ErrReplies++
		return rr(cipReply(0, 0x13, nil, nil))
	}
	svc := b[0]
	if forceErr {
		p.ErrReplies++
		if s.Draw("plc", 4) == 1 {
			// refused by the encapsulation layer
			return eipReply(f, []uint32{1, 2, 3, 0x100}[s.Draw("plc", 4)], itemList([]uint16{0, 0xB2}, nil, b)[:[]int{0, 8, 16 + len(b)}[s.Draw("plc", 3)]])
		}
		return rr(cipReply(svc, []byte{1, 8, 0x14}[s.Draw("plc", 3)], []uint16{[]uint16{0x0107, 0x0100, 0x0119}[s.Draw("plc", 3)]}, nil))
	}
	switch svc {
	case 0x54, 0x5B:
		large := svc == 0x5B
		need := 42
		if large {
			need = 46
		}
		if len(b) < need {
			p.bad("short forward open")
			p.ErrReplies++
			return rr(cipReply(svc, 0x13, nil, nil))
		}
		if large && !p.LargeFO {
			p.ErrReplies++
			return rr(cipReply(svc, 8, nil, nil))
		}
		c := &plcConn{lastSeq: -1, sess: ps}
		c.TOID = g32(b[12:])
		c.Serial = g16(b[16:])
		c.Vendor = g16(b[18:])
		c.OSN = g32(b[20:])
		if large {
			c.Size = int(g32(b[32:]) & 0xFFFF)
		} else {
			c.Size = int(g16(b[32:]) & 0x1FF)
		}
		// connection path size in words
		if plen := int(b[need-1]) * 2; len(b) != need+plen {
			p.bad("forward open path of %d bytes, %d follow", plen, len(b)-need)
			p.ErrReplies++
			return rr(cipReply(svc, 0x13, nil, nil))
		}
		p.checkOpen(b, need, large)
		p.FOCount++
		for _, id := range p.connIDs() {
			o := p.conns[id]
			if o.Serial == c.Serial && o.Vendor == c.Vendor && o.OSN == c.OSN {
				p.FOBad++
				p.ErrReplies++
				return rr(cipReply(svc, 1, []uint16{0x0100}, nil))
			}
		}
		p.nextID += 0x101
		c.ID = p.nextID
		if p.opened == nil {
			p.opened = map[[3]uint32]bool{}
		}
		p.opened[[3]uint32{uint32(c.Serial), uint32(c.Vendor), c.OSN}] = true
		p.conns[c.ID] = c
		s.Logf("plc: conn%d opened CIP connection %x size %d", ps.c.ID, c.ID, c.Size)
		return rr(cipReply(svc, 0, nil, cat(le32(c.ID), le32(c.TOID), le16(c.Serial), le16(c.Vendor), le32(c.OSN), b[28:32], b[28:32], []byte{0, 0})))
	case 0x4E:
		if len(b) < 18 || len(b) != 18+2*int(b[16]) {
			p.bad("short forward close")
			p.ErrReplies++
			return rr(cipReply(svc, 0x13, nil, nil))
		}
		ser, ven, osn := g16(b[8:]), g16(b[10:]), g32(b[12:])
		p.checkManager(b)
		if !bytes.Equal(b[18:], p.Route) {
			p.refused("forward close for the path % x, the connection goes along % x", b[18:], p.Route)
		}
		if !p.opened[[3]uint32{uint32(ser), uint32(ven), osn}] {
			p.refused("forward close of connection %d of vendor %#x, serial %#x, which was never opened", ser, ven, osn)
		}
		for _, id := range p.connIDs() {
			o := p.conns[id]
			if o.Serial == ser && o.Vendor == ven && o.OSN == osn {
				p.dropConn(o)
				p.FCCount++
				s.Logf("plc: conn%d closed CIP connection %x", ps.c.ID, o.ID)
				return rr(cipReply(svc, 0, nil, cat(le16(ser), le16(ven), le32(osn), []byte{0, 0})))
			}
		}
		p.ErrReplies++
		return rr(cipReply(svc, 1, []uint16{0x0107}, le16(ser)))
	}
	p.refused("unconnected service %#x", svc)
	p.ErrReplies++
	return rr(cipReply(svc, 8, nil, nil))
}

// checkManager checks the path of a request to the connection manager.
func (p *PLC) checkManager(b []byte) {
	if !bytes.Equal(b[1:6], []byte{2, 0x20, 6, 0x24, 1}) {
		p.bad("connection request for the object % x", b[1:6])
	}
}

// checkOpen checks what a forward open asks for.
func (p *PLC) checkOpen(b []byte, need int, large bool) {
	p.checkManager(b)
	if p.Route != nil && !bytes.Equal(b[need:], p.Route) {
		p.refused("connection along the path % x instead of % x", b[need:], p.Route)
	}
	w := 2
	if large {
		w = 4
	}
	for i, what := range []string{"requests", "replies"} {
		q := b[28+i*(4+w):]
		rpi, par := g32(q), uint32(g16(q[4:]))
		typ, vr, size := par>>13&3, par>>9&1, par&0x1FF
		if large {
			par = g32(q[4:])
			typ, vr, size = par>>29&3, par>>25&1, par&0xFFFF
		}
		if rpi == 0 {
			p.refused("connection without a packet interval for %s", what)
		}
		if p.RPI != 0 && rpi != uint32(p.RPI/time.Microsecond) {
			p.refused("connection with a packet interval of %d us for %s, %v is configured", rpi, what, p.RPI)
		}
		if typ != 2 || vr != 1 {
			p.refused("connection of type %d (variable size %d) for %s", typ, vr, what)
		}
		if owner := g32(cat(q[4:4+w], []byte{0, 0})) >> (8*w - 1) & 1; owner != 0 {
			p.refused("connection with a redundant owner for %s", what)
		}
		if p.WantSize != nil && !p.WantSize(large, int(size)) {
			p.refused("connection for %s of size %d", what, size)
		}
	}
	if b[need-2]&15 != 3 {
		p.refused("connection of transport class %d", b[need-2]&15)
	}
	if p.WantID != nil && !p.WantID(g16(b[18:]), g32(b[20:])) {
		p.refused("connection of vendor %#x, serial %#x", g16(b[18:]), g32(b[20:]))
	}
}

func (ps *plcSess) connected(f []byte, items [][2][]byte, forceErr bool) []byte {
	p := ps.p
	s := p.s
	if g16(items[0][0]) != 0xA1 || len(items[0][1]) != 4 || g16(items[1][0]) != 0xB1 || len(items[1][1]) < 4 {
		p.bad("connected request without address or data item")
		p.ErrReplies++
		return eipReply(f, 3, nil)
	}
	c := p.conns[g32(items[0][1])]
	if c == nil {
		p.s.Logf("plc: unknown connection %x", g32(items[0][1]))
		if p.UnknownConn == 1 {
			p.Swallowed++
			return nil
		}
		p.ErrReplies++
		return eipReply(f, 0x03, nil)
	}
	b := items[1][1]
	seq := g16(b)
	svc := b[2]
	sud := func(inner []byte) []byte {
		return eipReply(f, 0, itemList([]uint16{0xA1, 0xB1}, le32(c.TOID), cat(le16(seq), inner)))
	}
	if len(b) > c.Size {
		s.Logf("plc: request of %d bytes on a connection of size %d", len(b), c.Size)
		if p.OnOversize != nil {
			alone := svc != 0x0A || len(b) < 10 || g16(b[8:]) == 1
			p.OnOversize(len(b), c.Size, svc, alone)
		}
		p.ErrReplies++
		return sud(cipReply(svc, 0x15, nil, nil))
	}
	fp := string(f[24:])
	if int(seq) == c.lastSeq && c.lastRep != nil {
		// class 3 transport: the same sequence number is a retransmission
		p.DupSeq++
		s.Logf("plc: sequence %d repeated on %x: previous reply sent again", seq, c.ID)
		if p.OnDupSeq != nil {
			p.OnDupSeq(seq, svc)
		}
		rep := append([]byte(nil), c.lastRep...)
		copy(rep[12:20], f[12:20])
		return rep
	}
	path := b[4:]
	n := int(b[3]) * 2
	if len(path) < n {
		p.bad("path of %d bytes in %d bytes", n, len(path))
		p.ErrReplies++
		return sud(cipReply(svc, 0x13, nil, nil))
	}
	data := path[n:]
	path = path[:n]
	var inner []byte
	if forceErr {
		p.ErrReplies++
		switch s.Draw("plc", 5) {
		case 0:
			inner = cipReply(svc, 0x05, nil, nil)
		case 1:
			inner = cipReply(svc, 0xFF, []uint16{0x2105}, nil)
		case 2:
			inner = cipReply(svc, 0x10, nil, nil)
		case 3:
			inner = cipReply(svc, 0x01, []uint16{0x0203, 1}, nil)
		case 4:
			inner = cipReply(svc, 0x04, []uint16{0}, nil)
		}
	} else {
		inner = p.handle(c, svc, path, data, c.Size-2)
	}
	rep := sud(inner)
	c.lastSeq = int(seq)
	c.lastRep = rep
	c.lastFP = fp
	return rep
}

// ---------------------------------------------------------------- services

type seg struct {
	kind byte // 's' symbol, 'e' element, 'c' class, 'i' instance, 'a' attribute
	n    uint32
	s    string
}

func parsePath(b []byte) ([]seg, error) {
	var out []seg
	for len(b) > 0 {
		t := b[0]
		if t == 0x91 {
			if len(b) < 2 {
				return nil, fmt.Errorf("short symbol")
			}
			n := int(b[1])
			m := 2 + n + n%2
			if len(b) < m || n == 0 {
				return nil, fmt.Errorf("bad symbol segment")
			}
			out = append(out, seg{kind: 's', s: string(b[2 : 2+n])})
			b = b[m:]
			continue
		}
		k := byte(0)
		switch t &^ 3 {
		case 0x20:
			k = 'c'
		case 0x24:
			k = 'i'
		case 0x28:
			k = 'e'
		case 0x30:
			k = 'a'
		default:
			return nil, fmt.Errorf("segment type %02x", t)
		}
		switch t & 3 {
		case 0:
			if len(b) < 2 {
				return nil, fmt.Errorf("short segment")
			}
			out = append(out, seg{kind: k, n: uint32(b[1])})
			b = b[2:]
		case 1:
			if len(b) < 4 || b[1] != 0 {
				return nil, fmt.Errorf("bad 16 bit segment")
			}
			out = append(out, seg{kind: k, n: uint32(g16(b[2:]))})
			b = b[4:]
		case 2:
			if len(b) < 6 || b[1] != 0 {
				return nil, fmt.Errorf("bad 32 bit segment")
			}
			out = append(out, seg{kind: k, n: g32(b[2:])})
			b = b[6:]
		default:
			return nil, fmt.Errorf("segment type %02x", t)
		}
	}
	return out, nil
}

// target is a resolved place in a tag.
type target struct {
	tag *PTag
	off int
	typ byte
	udt *UDT
	es  int
	max int // elements available from here
	bit int
}

func (p *PLC) resolve(path []seg) (*target, byte) {
	if len(path) == 0 {
		return nil, 0x04
	}
	var t *PTag
	i := 0
	prog := ""
	if path[0].kind == 's' && strings.HasPrefix(strings.ToLower(path[0].s), "program:") {
		prog = strings.ToLower(path[0].s[8:])
		i++
	} else if len(path) > 2 && path[0].kind == 'c' && path[0].n == 0x68 && path[1].kind == 'i' {
		k := p.progByID(path[1].n)
		if k < 0 {
			return nil, 0x05
		}
		prog = strings.ToLower(p.programs[k])
		i += 2
	}
	if i >= len(path) {
		return nil, 0x05
	}
	if path[i].kind == 's' {
		name := strings.ToLower(path[i].s)
		if prog != "" {
			name = "program:" + prog + "." + name
		}
		t = p.tags[name]
		i++
	} else if i+1 < len(path) && path[i].kind == 'c' && path[i].n == 0x6B && path[i+1].kind == 'i' {
		if p.Firmware <= 20 && !p.Lies {
			p.refused("tag addressed by its instance, which firmware %d does not know", p.Firmware)
			return nil, 0x05
		}
		for _, x := range p.tagList {
			if x.Instance == path[i+1].n && strings.EqualFold(x.Prog, prog) {
				t = x
			}
		}
		i += 2
	}
	if t == nil {
		return nil, 0x05
	}
	// element
	idx := 0
	max := t.N
	nd := 0
	for i < len(path) && path[i].kind == 'e' {
		if nd >= len(t.Dims) || int(path[i].n) >= t.Dims[nd] {
			return nil, 0x05
		}
		idx = idx*t.Dims[nd] + int(path[i].n)
		nd++
		i++
	}
	if nd > 0 && nd < len(t.Dims) {
		return nil, 0x05
	}
	max = t.N - idx
	tg := &target{tag: t, off: idx * t.ES, typ: t.Type, udt: t.UDT, es: t.ES, max: max}
	for i < len(path) && path[i].kind == 's' {
		if tg.udt == nil {
			return nil, 0x05
		}
		var m *UMember
		for k := range tg.udt.Members {
			if strings.EqualFold(tg.udt.Members[k].Name, path[i].s) {
				m = &tg.udt.Members[k]
			}
		}
		if m == nil {
			return nil, 0x05
		}
		tg.off += m.Off
		tg.udt = m.UDT
		tg.typ = m.Type
		tg.bit = m.Bit
		tg.max = 1
		if m.N > 0 {
			tg.max = m.N
		}
		if m.UDT != nil {
			tg.es = m.UDT.Size
			tg.typ = tSTRUCT
		} else {
			tg.es = typeSize(m.Type)
		}
		i++
		if i < len(path) && path[i].kind == 'e' {
			if int(path[i].n) >= tg.max || m.N == 0 {
				return nil, 0x05
			}
			tg.off += int(path[i].n) * tg.es
			tg.max -= int(path[i].n)
			i++
		}
	}
	if i != len(path) {
		return nil, 0x05
	}
	return tg, 0
}

func (tg *target) typeBytes() []byte {
	if tg.udt != nil {
		return cat([]byte{0xA0, 2}, le16(tg.udt.Handle))
	}
	if tg.typ == tSTRING {
		return []byte{0xA0, 2, 0xCE, 0x0F}
	}
	return []byte{tg.typ, 0}
}

func (tg *target) bytes(n int) []byte {
	if tg.udt == nil && tg.typ == tBOOL && tg.bit >= 0 && tg.tag.UDT != nil {
		return []byte{tg.tag.Data[tg.off] >> tg.bit & 1}
	}
	return tg.tag.Data[tg.off : tg.off+n*tg.es]
}

func (p *PLC) handle(c *plcConn, svc byte, rawPath, data []byte, limit int) []byte {
	fail := func(st byte, ext ...uint16) []byte {
		p.ErrReplies++
		for i := 0; i < p.ErrExt; i++ {
			ext = append(ext, 0x2100|uint16(i))
		}
		return cipReply(svc, st, ext, nil)
	}
	path, err := parsePath(rawPath)
	if err != nil {
		p.bad("path % x: %v", rawPath, err)
		return fail(0x04)
	}
	if p.Custom != nil {
		if ok, st, body := p.Custom(svc, path, data); ok {
			if st != 0 {
				p.ErrReplies++
			}
			return cipReply(svc, st, nil, body)
		}
	}
	if p.dtHook != nil {
		if ok, st, body := p.dtHook(svc, path, data, c); ok {
			if st != 0 && st != 6 {
				p.ErrReplies++
			}
			return cipReply(svc, st, nil, body)
		}
	}
	if len(path) > 0 && path[0].kind == 'c' && path[0].n != 0x6B && path[0].n != 0x68 {
		return p.object(c, svc, path, data, limit, fail)
	}
	switch svc {
	case 0x55:
		return p.list(path, data, limit, fail)
	case 0x4C, 0x52:
		need := 2
		if svc == 0x52 {
			need = 6
		}
		if len(data) != need {
			p.bad("read request with %d data bytes", len(data))
			return fail(0x13)
		}
		tg, st := p.resolve(path)
		if st != 0 {
			p.refused("read of % x, which does not exist", rawPath)
			return fail(st)
		}
		n := int(g16(data))
		if n < 1 || n > tg.max {
			p.refused("read of %d elements of %s+%d, which has %d", n, tg.tag.Name, tg.off, tg.max)
			return fail(0xFF, 0x2105)
		}
		full := tg.bytes(n)
		off := 0
		if svc == 0x52 {
			off = int(g32(data[2:]))
			if off >= len(full) {
				if p.BadFrag == 0 {
					p.refused("read of %d elements of %s+%d from byte %d", n, tg.tag.Name, tg.off, off)
				}
				return fail(0xFF, 0x2105)
			}
			p.Fragments++
		}
		return p.readReply(svc, tg, full[off:], limit)
	case 0x4D:
		tg, st := p.resolve(path)
		if st != 0 {
			return fail(st)
		}
		return p.write(c, svc, tg, data, fail)
	}
	return fail(0x08)
}

func (p *PLC) readReply(svc byte, tg *target, rest []byte, limit int) []byte {
	tb := tg.typeBytes()
	room := limit - 4 - len(tb)
	if p.MaxReply > 0 && room > p.MaxReply {
		room = p.MaxReply
	}
	if room < 1 {
		room = 1
	}
	if !p.inMulti && p.BadFrag > 0 && !p.Healed && p.s.ChanceM("badfrag", p.BadFrag) {
		if r := p.badFragment(svc, tg, rest, tb, room); r != nil {
			return r
		}
	}
	if len(rest) <= room {
		return cipReply(svc, 0, nil, cat(tb, rest))
	}
	k := room
	if p.FragMode > 0 {
		// leave enough progress that a transfer takes a bounded number of fragments
		min := len(rest) / 12
		if min < 1 {
			min = 1
		}
		if min > room {
			min = room
		}
		k = room - p.s.Draw("frag", room-min+1)
	}
	if p.FragMode < 2 && tg.es <= k {
		k -= k % tg.es
	}
	p.s.Stat("plc.partial_replies")
	if tg.udt != nil || tg.typ == tSTRING {
		p.StructParts++
	}
	return cipReply(svc, 6, nil, cat(tb, rest[:k]))
}

// badFragment is a reply to a read that no correct controller sends.
func (p *PLC) badFragment(svc byte, tg *target, rest, tb []byte, room int) (r []byte) {
	s := p.s
	kind := s.Draw("badfrag", 6)
	k := min(len(rest), room)
	part := rest[:k]
	st := byte(0)
	if k < len(rest) {
		st = 6
	}
	switch kind {
	case 0: // partial, but nothing in it
		if svc != 0x52 {
			return nil // the client may go on from offset 0
		}
		r = cipReply(svc, 6, nil, tb)
	case 1: // not even a type
		r = cipReply(svc, 6, nil, nil)
	case 2: // another type
		if tg.udt != nil || tg.typ == tSTRING {
			return nil
		}
		wrong := byte(tREAL)
		switch tg.es {
		case 1:
			wrong = 0xD0
		case 2:
			wrong = 0xCC
		case 8:
			wrong = 0xCF
		}
		if wrong == tg.typ {
			wrong = 0xCD
		}
		r = cipReply(svc, st, nil, cat([]byte{wrong, 0}, part))
	case 3: // complete, but too short
		if tg.udt != nil || k < tg.es || tg.typ == tSTRING {
			return nil
		}
		n := s.Draw("badfrag", k)
		if k == len(rest) && n >= k {
			n = k - 1
		}
		r = cipReply(svc, 0, nil, cat(tb, part[:n]))
	case 4: // cut in the type
		r = cipReply(svc, 0, nil, tb[:s.Draw("badfrag", len(tb))])
	case 5: // more than was asked for, and never an end
		if tg.udt != nil || tg.typ == tSTRING {
			return nil
		}
		r = cipReply(svc, 6, nil, cat(tb, part, make([]byte, max(1, len(rest)-k)*tg.es)))
	}
	if p.cur == nil || !p.cur.c.Peer().Closed {
		// else nobody waits for it any more
		p.BadFrags++
	}
	p.LastBad = []string{"a partial reply without data", "a partial reply without type and data", "a reply of another type", "a complete reply with missing data", "a reply cut in the type", "a partial reply with more than all data"}[kind]
	s.Stat("fault.plc_bad_fragment")
	s.Logf("plc: bad fragment: %s", p.LastBad)
	return r
}

func (p *PLC) write(c *plcConn, svc byte, tg *target, data []byte, fail func(byte, ...uint16) []byte) []byte {
	if len(data) < 4 {
		p.bad("short write request")
		return fail(0x13)
	}
	want := tg.typeBytes()
	if !bytes.HasPrefix(data, want) {
		switch [2]byte{data[0], tg.typ} {
		case [2]byte{tBYTE, tUSINT}, [2]byte{tUINT, tWORD}, [2]byte{tUDINT, tDWORD}, [2]byte{0xC9, tLWORD}:
			// the same Go type
			return fail(0xFF, 0x2107)
		}
		if tg.udt != nil && data[0] == tSTRUCT && data[1] == 0 {
			// slices of structures can not be written
			return fail(0xFF, 0x2107)
		}
		p.refused("write of type % x to %s+%d of type % x", data[:min(4, len(data))], tg.tag.Name, tg.off, want)
		return fail(0xFF, 0x2107)
	}
	data = data[len(want):]
	if len(data) < 2 {
		return fail(0x13)
	}
	n := int(g16(data))
	data = data[2:]
	if n < 1 || n > tg.max {
		p.refused("write of %d elements to %s+%d, which has %d", n, tg.tag.Name, tg.off, tg.max)
		return fail(0xFF, 0x2105)
	}
	size := n * tg.es
	least := size
	if tg.udt != nil {
		// trailing padding of the last structure may be missing
		least = size - tg.udt.trailPad()
	} else if tg.typ == tSTRING {
		least = size - 2
	}
	if len(data) < least {
		p.refused("write of %d elements to %s+%d with %d bytes", n, tg.tag.Name, tg.off, len(data))
		return fail(0x13)
	}
	if tg.typ == tSTRING && tg.udt == nil {
		data = append(data[:len(data):len(data)], make([]byte, max(size-len(data), 0))...)
	}
	if len(data) > size {
		p.refused("write of %d elements to %s+%d with %d bytes", n, tg.tag.Name, tg.off, len(data))
		return fail(0x15)
	}
	if tg.tag.ReadOnly {
		return fail(0x0F)
	}
	var w *WriteRec
	if tg.udt == nil && tg.typ == tBOOL && tg.bit >= 0 && tg.tag.UDT != nil {
		v := tg.tag.Data[tg.off] &^ (1 << tg.bit)
		if data[0] != 0 {
			v |= 1 << tg.bit
		}
		w = &WriteRec{Tag: tg.tag, Off: tg.off, Data: append([]byte(nil), data...), Bit: tg.bit}
		data = []byte{v}
	} else {
		w = &WriteRec{Tag: tg.tag, Off: tg.off, Data: append([]byte(nil), data...), Bit: -1, UDT: tg.udt}
	}
	w.Tick, w.At, w.Conn = p.h.Tick(), p.s.Now(), c
	tg.tag.apply(p, tg.off, data)
	p.Writes = append(p.Writes, w)
	p.s.Logf("plc: write %s+%d %d bytes", tg.tag.Name, tg.off, len(data))
	if p.OnWrite != nil {
		p.OnWrite(w)
	}
	return cipReply(svc, 0, nil, nil)
}

func (u *UDT) trailPad() int {
	end := 0
	for _, m := range u.Members {
		n := m.N
		if n == 0 {
			n = 1
		}
		sz := 1
		if m.UDT != nil && m.N > 0 {
			sz = m.UDT.Size
		} else if m.UDT != nil {
			sz = m.UDT.Size - m.UDT.trailPad()
		} else if m.Bit < 0 {
			sz = typeSize(m.Type)
		}
		if e := m.Off + n*sz; e > end {
			end = e
		}
	}
	return u.Size - end
}

func (p *PLC) object(c *plcConn, svc byte, path []seg, data []byte, limit int, fail func(byte, ...uint16) []byte) []byte {
	inst, attr := uint32(0), uint32(0)
	for _, x := range path[1:] {
		switch x.kind {
		case 'i':
			inst = x.n
		case 'a':
			attr = x.n
		}
	}
	class := path[0].n
	if p.status != nil {
		if r := p.status.object(svc, class, inst, attr, data, fail); r != nil {
			return r
		}
	}
	switch {
	case class == 2 && svc == 0x0A:
		return p.multi(c, data, limit, fail)
	case class == 1 && svc == 0x0E && inst == 1:
		if attr == 4 {
			return cipReply(svc, 0, nil, []byte{p.Firmware, 11})
		}
		if attr == 0 || attr > 20 {
			return fail(0x14)
		}
		if attr == 3 {
			return cipReply(svc, 0, nil, []byte{^p.Firmware & 0x3F, 0})
		}
		return cipReply(svc, 0, nil, le32(0x01010000|attr))
	case class == 0xAC && svc == 0x03:
		if inst != 1 {
			p.refused("attributes of instance %d of the controller information", inst)
			return fail(0x05)
		}
		if len(data) < 2 || len(data) != 2+2*int(g16(data)) {
			p.bad("attribute list of %d bytes", len(data))
			return fail(0x13)
		}
		p.AttrPolls = append(p.AttrPolls, p.s.Now())
		out := data[:2:2]
		for i := 0; i < int(g16(data)); i++ {
			id := g16(data[2+2*i:])
			k := map[uint16]int{1: 0, 2: 1, 3: 2, 4: 3, 10: 4}
			j, ok := k[id]
			if !ok {
				out = cat(out, le16(id), le16(0x14))
				continue
			}
			if j < 2 {
				out = cat(out, le16(id), le16(0), le16(uint16(p.props[j])))
			} else {
				out = cat(out, le16(id), le16(0), le32(p.props[j]))
			}
		}
		return cipReply(svc, 0, nil, out)
	case genClass(class) && svc == 0x0E:
		if !genInst(inst) {
			return fail(0x05)
		}
		return cipReply(svc, 0, nil, objAttr(class, inst, attr))
	case genClass(class) && svc == 0x03:
		if !genInst(inst) {
			return fail(0x05)
		}
		if len(data) < 2 || len(data) != 2+2*int(g16(data)) {
			p.bad("attribute list of %d bytes", len(data))
			return fail(0x13)
		}
		out := data[:2:2]
		for i := 0; i < int(g16(data)); i++ {
			id := g16(data[2+2*i:])
			out = cat(out, le16(id), le16(0), objAttr(class, inst, uint32(id)))
		}
		return cipReply(svc, 0, nil, out)
	case genClass(class) && svc == 0x4B:
		if !genInst(inst) {
			return fail(0x05)
		}
		return cipReply(svc, 0, nil, cat(le16(uint16(class)), le16(uint16(inst)), data))
	case class == 0x6C:
		return p.template(svc, inst, data, limit, fail)
	}
	return fail(0x05)
}

// genClass and genInst tell which generic objects the controller has.
func genClass(class uint32) bool { return class >= 0x300 || class >= 0xC8 && class < 0xCC }
func genInst(inst uint32) bool {
	return inst > 0 && inst <= 50 || inst == 255 || inst == 256 || inst == 300 || inst == 70000
}

// objAttr is the fixed value of an attribute of the generic objects.
func objAttr(class, inst, attr uint32) []byte {
	return le32(class<<20 ^ inst<<10 ^ attr ^ 0x5A000000)
}

func (p *PLC) multi(c *plcConn, data []byte, limit int, fail func(byte, ...uint16) []byte) []byte {
	if len(data) < 2 {
		p.bad("short multi request")
		return fail(0x13)
	}
	n := int(g16(data))
	if len(data) < 2+2*n || n == 0 {
		p.bad("multi request with %d services in %d bytes", n, len(data))
		return fail(0x13)
	}
	var subs [][]byte
	any := false
	used := 4 + 2 + 2*n
	for i := 0; i < n; i++ {
		a := int(g16(data[2+2*i:]))
		b := len(data)
		if i+1 < n {
			b = int(g16(data[2+2*(i+1):]))
		}
		if a < 2+2*n || b < a+2 || b > len(data) {
			p.bad("multi request offset %d: %d..%d of %d", i, a, b, len(data))
			return fail(0x13)
		}
		m := data[a:b]
		pl := int(m[1]) * 2
		if len(m) < 2+pl {
			p.bad("multi request %d: path of %d bytes in %d", i, pl, len(m))
			return fail(0x13)
		}
		left := limit - used - 4*(n-1-i)
		p.inMulti = true
		r := p.handle(c, m[0], m[2:2+pl], m[2+pl:], 1<<20)
		p.inMulti = false
		if len(r) > left {
			// does not fit any more
			p.ErrReplies++
			if n > 1 {
				p.refused("request %d of %d in one message has a result of %d bytes, but there are only %d left in the reply", i, n, len(r), left)
			}
			r = cipReply(m[0], 0x11, nil, nil)
		}
		if r[2] == 6 {
			p.StructParts++
		}
		if r[2] != 0 {
			any = true
		}
		used += len(r)
		subs = append(subs, r)
	}
	for i, r := range subs[:n-1] {
		// where there is room for it, results begin at whole words
		if len(r)%2 == 1 && used < limit {
			subs[i] = append(r, 0)
			used++
		}
	}
	out := le16(uint16(n))
	pos := 2 + 2*n
	for _, r := range subs {
		out = append(out, le16(uint16(pos))...)
		pos += len(r)
	}
	for _, r := range subs {
		out = append(out, r...)
	}
	st := byte(0)
	if any && !p.QuietMulti {
		st = 0x1E
	}
	if any && p.ErrExt > 0 && !p.QuietMulti {
		return cipReply(0x0A, st, make([]uint16, p.ErrExt), out)
	}
	return cipReply(0x0A, st, nil, out)
}

// MutateSome gives a few tags new values.
func (p *PLC) MutateSome(n int) {
	if p.status != nil {
		p.status.mutate()
	}
	for i := 0; i < n; i++ {
		t := p.tagList[p.s.Draw("plc.mut", len(p.tagList))]
		if !t.NoMut {
			p.Mutate(t)
		}
	}
}
