//go:build go1.23

package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"log/slog"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
	"github.com/danomagnum/gologix/lgxtypes"
)

// nolog is the logger given to clients and servers.
type nolog struct{}

func (nolog) Debug(string, ...any) {}
func (nolog) Error(string, ...any) {}
func (nolog) Warn(string, ...any)  {}
func (nolog) Info(string, ...any)  {}

// ---------------------------------------------------------------- Go types of the controller's structures

type UA struct {
	A int32
	B int16
	C int16
	D float32
}
type UB struct {
	F0, F1, F2, F3, F4, F5, F6, F7, F8, F9 bool
	N                                      int32
	M                                      int16
}
type UC struct {
	L int64
	I int32
}
type UH struct {
	Q uint64
	S byte
	U uint16
	V [2]uint32
	W [3]byte
	R float64
}
type UD struct {
	X  int32
	In UA
	Y  int16
}
type UE struct {
	Arr [5]int16
	K   int32
}
type UG struct {
	A int32
	B int16
}
type UF struct {
	H   int16
	Arr [3]UG
	K   int8
}

type UI struct {
	F, G bool
	Arr  [3]int16
	H    bool
	V    int32
}

type UJ struct {
	K int16
	S lgxtypes.STRING
	N int32
	L [2]lgxtypes.STRING
	T lgxtypes.TIMER
}

var goUDT = map[string]reflect.Type{
	"UJ": reflect.TypeOf(UJ{}), "STRING": reflect.TypeOf(lgxtypes.STRING{}), "UI": reflect.TypeOf(UI{}),
	"UH": reflect.TypeOf(UH{}), "TIMER": reflect.TypeOf(lgxtypes.TIMER{}), "COUNTER": reflect.TypeOf(lgxtypes.COUNTER{}), "CONTROL": reflect.TypeOf(lgxtypes.CONTROL{}),
	"UF": reflect.TypeOf(UF{}), "UG": reflect.TypeOf(UG{}),
	"UA": reflect.TypeOf(UA{}), "UB": reflect.TypeOf(UB{}), "UC": reflect.TypeOf(UC{}), "UD": reflect.TypeOf(UD{}), "UE": reflect.TypeOf(UE{}),
}

var readPacked = map[reflect.Type]func(c *gologix.Client, tag string) (any, error){
	goUDT["UA"]:                packed[UA],
	goUDT["UB"]:                packed[UB],
	goUDT["UC"]:                packed[UC],
	goUDT["UD"]:                packed[UD],
	goUDT["UE"]:                packed[UE],
	goUDT["UF"]:                packed[UF],
	goUDT["UG"]:                packed[UG],
	goUDT["UH"]:                packed[UH],
	goUDT["UI"]:                packed[UI],
	goUDT["UJ"]:                packed[UJ],
	goUDT["STRING"]:            packed[lgxtypes.STRING],
	goUDT["TIMER"]:             packed[lgxtypes.TIMER],
	goUDT["COUNTER"]:           packed[lgxtypes.COUNTER],
	goUDT["CONTROL"]:           packed[lgxtypes.CONTROL],
	reflect.TypeOf(int32(0)):   packed[int32],
	reflect.TypeOf(""):         packed[string],
	reflect.TypeOf(float32(0)): packed[float32],
}

func packed[T any](c *gologix.Client, tag string) (any, error) { return gologix.ReadPacked[T](c, tag) }

func stdUDTs() []*UDT {
	ua := &UDT{Name: "UA", ID: 0x101, Size: 12, Members: []UMember{
		{"A", tDINT, -1, 0, nil, 0}, {"B", tINT, -1, 4, nil, 0}, {"C", tINT, -1, 6, nil, 0}, {"D", tREAL, -1, 8, nil, 0}}, Enc: "UA,DINT,INT,INT,REAL"}
	ub := &UDT{Name: "UB", ID: 0x203, Size: 12, Enc: "UB,SINT,SINT,DINT,INT"}
	for i := 0; i < 10; i++ {
		ub.Members = append(ub.Members, UMember{fmt.Sprintf("F%d", i), tBOOL, i % 8, i / 8, nil, 0})
	}
	ub.Members = append(ub.Members, UMember{"N", tDINT, -1, 4, nil, 0}, UMember{"M", tINT, -1, 8, nil, 0})
	uc := &UDT{Name: "UC", ID: 0x305, Size: 16, Members: []UMember{{"L", tLINT, -1, 0, nil, 0}, {"I", tDINT, -1, 8, nil, 0}}, Enc: "UC,LINT,DINT"}
	ud := &UDT{Name: "UD", ID: 0x407, Size: 20, Members: []UMember{{"X", tDINT, -1, 0, nil, 0}, {"In", 0, -1, 4, ua, 0}, {"Y", tINT, -1, 16, nil, 0}},
		Enc: "UD,DINT,UA,DINT,INT,INT,REAL,INT"}
	ue := &UDT{Name: "UE", ID: 0x509, Size: 16, Members: []UMember{{"Arr", tINT, -1, 0, nil, 5}, {"K", tDINT, -1, 12, nil, 0}}, Enc: "UE,INT[5],DINT"}
	ug := &UDT{Name: "UG", ID: 0x60B, Size: 8, Members: []UMember{{"A", tDINT, -1, 0, nil, 0}, {"B", tINT, -1, 4, nil, 0}}, Enc: "UG,DINT,INT"}
	uf := &UDT{Name: "UF", ID: 0x70D, Size: 32, Members: []UMember{{"H", tINT, -1, 0, nil, 0}, {"Arr", 0, -1, 4, ug, 3}, {"K", tSINT, -1, 28, nil, 0}},
		Enc: "UF,INT,UG,DINT,INT[3],SINT"}
	uh := &UDT{Name: "UH", ID: 0x80F, Size: 32, Members: []UMember{{"Q", tLWORD, -1, 0, nil, 0}, {"S", tBYTE, -1, 8, nil, 0}, {"U", tUINT, -1, 10, nil, 0}, {"V", tUDINT, -1, 12, nil, 2}, {"W", tUSINT, -1, 20, nil, 3}, {"R", tLREAL, -1, 24, nil, 0}},
		Enc: "UH,ULINT,SINT,UINT,UDINT[2],SINT[3],LREAL"}
	ui := &UDT{Name: "UI", ID: 0x911, Size: 16, Members: []UMember{{"F", tBOOL, 0, 0, nil, 0}, {"G", tBOOL, 1, 0, nil, 0}, {"Arr", tINT, -1, 2, nil, 3}, {"H", tBOOL, 0, 8, nil, 0}, {"V", tDINT, -1, 12, nil, 0}},
		Enc: "UI,SINT,INT[3],SINT,DINT"}
	b := func(n string, bit int) UMember { return UMember{n, tBOOL, bit - 24, 3, nil, 0} }
	d := func(n string, off int) UMember { return UMember{n, tDINT, -1, off, nil, 0} }
	tm := &UDT{Name: "TIMER", ID: 0xF83, Handle: 0x0F83, Size: 12, Members: []UMember{d("PRE", 4), d("ACC", 8), b("EN", 31), b("TT", 30), b("DN", 29)}}
	cn := &UDT{Name: "COUNTER", ID: 0xF82, Handle: 0x0F82, Size: 12, Members: []UMember{d("PRE", 4), d("ACC", 8), b("CU", 31), b("CD", 30), b("DN", 29), b("OV", 28), b("UN", 27)}}
	ct := &UDT{Name: "CONTROL", ID: 0xF81, Handle: 0x0F81, Size: 12, Members: []UMember{d("LEN", 4), d("POS", 8), b("EN", 31), b("EU", 30), b("DN", 29), b("EM", 28), b("ER", 27), b("UL", 26), b("IN", 25), b("FD", 24)}}
	uj := &UDT{Name: "UJ", ID: 0xA13, Size: 284, Members: []UMember{{"K", tINT, -1, 0, nil, 0}, {"S", 0, -1, 4, stringUDT, 0}, {"N", tDINT, -1, 92, nil, 0}, {"L", 0, -1, 96, stringUDT, 2}, {"T", 0, -1, 272, tm, 0}},
		Enc: "UJ,INT,STRING,DINT,SINT[82],DINT,STRING,DINT,SINT[82][2],TIMER,DINT,DINT,DINT"}
	l := []*UDT{ua, ub, uc, ud, ue, ug, uf, uh, ui, tm, cn, ct, uj}
	for _, u := range l {
		if u.Handle == 0 {
			u.Handle = crc16(u.Enc)
		}
	}
	return l
}

// udtGo builds the Go value of a structure from its bytes (independent of the
// library's own codec).
func udtGo(u *UDT, b []byte) any {
	rt := goUDT[u.Name]
	v := reflect.New(rt).Elem()
	for _, m := range u.Members {
		f := v.FieldByNameFunc(func(n string) bool { return strings.EqualFold(n, m.Name) })
		switch {
		case m.Bit >= 0:
			f.SetBool(b[m.Off]>>m.Bit&1 == 1)
		case m.UDT != nil && m.N > 0:
			for i := 0; i < m.N; i++ {
				f.Index(i).Set(reflect.ValueOf(udtGo(m.UDT, b[m.Off+i*m.UDT.Size:][:m.UDT.Size])))
			}
		case m.UDT != nil:
			f.Set(reflect.ValueOf(udtGo(m.UDT, b[m.Off:m.Off+m.UDT.Size])))
		case m.N > 0:
			for i := 0; i < m.N; i++ {
				f.Index(i).Set(reflect.ValueOf(decodeElem(m.Type, b[m.Off+i*typeSize(m.Type):])))
			}
		default:
			f.Set(reflect.ValueOf(decodeElem(m.Type, b[m.Off:])))
		}
	}
	return v.Interface()
}

var goTypes = map[byte]reflect.Type{
	tBOOL: reflect.TypeOf(false), tSINT: reflect.TypeOf(int8(0)), tUSINT: reflect.TypeOf(byte(0)), tBYTE: reflect.TypeOf(byte(0)),
	tINT: reflect.TypeOf(int16(0)), tUINT: reflect.TypeOf(uint16(0)), tWORD: reflect.TypeOf(uint16(0)), tDINT: reflect.TypeOf(int32(0)),
	tUDINT: reflect.TypeOf(uint32(0)), tDWORD: reflect.TypeOf(uint32(0)), tLINT: reflect.TypeOf(int64(0)), tLWORD: reflect.TypeOf(uint64(0)),
	tREAL: reflect.TypeOf(float32(0)), tLREAL: reflect.TypeOf(float64(0)), tSTRING: reflect.TypeOf(""),
}

// ---------------------------------------------------------------- client world

// CW is one simulated system: a controller, a client and its callers.
type CW struct {
	h *H
	s *simrt.Sim
	p *PLC
	c *gologix.Client

	T        time.Duration
	faulty   bool
	tasks    int
	wops     map[string]*wop
	used     map[string]bool
	nextVal  uint64
	calls    int
	okCalls  int
	running  int
	fitSlack int
	maxEx    int  // exchanges one call may need, 0: 80
	huge     bool // transfers of more than 64 kB
	allTags  []*PTag
	hostile  *hostile
	status   *statusW
	lifeErr  bool // calls may fail because another task connects or disconnects
}

type wop struct {
	id     int
	start  uint64
	end    uint64
	done   bool
	ok     bool
	count  int
	name   string
	opDesc string
}

// item is one readable or writable place.
type item struct {
	name string
	tag  *PTag
	off  int
	es   int
	n    int // elements
	sl   bool
	typ  byte
	udt  *UDT
	bit  int // bit of an integer (access through .n), -1 none
	mbit int // packed structure member bit, -1 none
}

const plcAddr = "10.0.0.9:44818"

// newCW builds the system; every shape decision comes from "cfg." streams.
func newCW(h *H, faulty bool) *CW {
	s := h.S
	w := &CW{h: h, s: s, faulty: faulty, wops: map[string]*wop{}, used: map[string]bool{}}
	h.Faulty = faulty
	w.T = []time.Duration{time.Second, 200 * time.Millisecond, 3 * time.Second, 10 * time.Second}[h.Pick("cfg.T", 4, 2, 2, 1)]
	p := NewPLC(h, plcAddr)
	w.p = p
	p.Timeout = w.T
	p.Firmware = []byte{32, 20, 16, 35}[h.Pick("cfg.fw", 6, 1, 1, 2)]
	p.LargeFO = h.Pick("cfg.fo", 5, 1) == 0
	p.ThinkMax = []time.Duration{0, 5 * time.Millisecond, w.T / 3}[h.Pick("cfg.think", 4, 3, 1)]
	p.FragMode = h.Pick("cfg.frag", 3, 2, 2)
	p.ErrExt = h.Pick("cfg.errext", 4, 2, 1, 1)
	p.QuietMulti = h.Pick("cfg.quietmulti", 5, 1) == 1
	p.MaxReply = []int{0, 100, 500}[h.Pick("cfg.maxreply", 5, 1, 1)]
	p.MutReq = []int{0, 30, 80}[h.Pick("cfg.mut", 2, 2, 2)]
	p.OnWrite = w.onWrite
	p.OnDupSeq = func(seq uint16, svc byte) {
		h.Violate("dup-seq", "two different requests on one connection carried the same sequence count %d (second: service %#x): the controller answers the second with the first's response", seq, svc)
	}
	p.OnOversize = func(n, limit int, svc byte, alone bool) {
		if svc == 0x4D || svc == 0x0A && alone || p.Odd > 0 {
			return // single writes and names too long are not split; the controller refuses them
		}
		h.Violate("oversize", "request of %d bytes (service %#x) on a connection negotiated for %d", n, svc, limit)
	}
	p.OnBad = func(msg string) { h.Violate("malformed-request", "the client sent a malformed request: %s", msg) }
	w.addTags()
	p.ident = identData{1, 0x0E, uint16(90 + s.Draw("cfg.ident", 200)), 0x0B20, uint16(s.Draw("cfg.ident", 65536)), 0xC0FFEE01, []string{"1756-L83E/B", "", strings.Repeat("x", 255)}[h.Pick("cfg.ident", 3, 1, 1)], 3}
	p.services = []string{"Communications", "ExactlySixteenCh", ""}[:1+h.Pick("cfg.ident", 3, 1, 1)]

	c := w.newClient()
	h.schedConfig()

	lat := h.Pick("cfg.lat", 2, 3, 1)
	lmin := []time.Duration{0, time.Millisecond, 0}[lat]
	lmax := []time.Duration{0, 20 * time.Millisecond, w.T / 3}[lat]
	seg := h.Pick("cfg.seg", 2, 2, 1)
	win := []int{0, 64, 400}[h.Pick("cfg.win", 4, 1, 1)]
	if !faulty && lmax > 0 {
		win = 0 // a small window on a slow link delays long requests beyond the time-out
	}
	linkFault := 0
	if faulty {
		linkFault = []int{0, 30, 70}[h.Pick("cfg.linkfault", 2, 2, 1)]
		p.FaultPM = []int{0, 40, 120, 300}[h.Pick("cfg.plcfault", 1, 3, 3, 1)]
		p.UnknownConn = h.Pick("cfg.unknown", 1, 1)
		if h.Pick("cfg.fkinds", 1, 2) == 1 {
			// swarm: a subset of fault kinds
			for k := 1; k < pfCount; k++ {
				if s.Draw("cfg.fkinds", 3) == 1 {
					p.FaultOn = append(p.FaultOn, k)
				}
			}
		}
		if len(p.FaultOn) == 0 {
			for k := 1; k < pfCount; k++ {
				p.FaultOn = append(p.FaultOn, k)
			}
		}
		df := h.Pick("cfg.dialfault", 3, 1, 1)
		s.Net.DialFault = func(string) (int, time.Duration) {
			switch {
			case df > 0 && s.Chance("dial", []int{0, 15, 40}[df]):
				k := s.Draw("dial", 3)
				if k == 2 {
					return 0, s.Dur("dial", 0, w.T*3/2)
				}
				return 1 + k, 0
			}
			return 0, 0
		}
	}
	s.Net.Link = func(id int, addr string) simrt.LinkConfig {
		l := simrt.LinkConfig{LatMin: lmin, LatMax: lmax, Seg: seg, Window: win}
		if linkFault > 0 && s.Chance("link", linkFault) {
			l.FaultKind = 1 + s.Draw("link", 4)
			l.FaultDir = s.Draw("link", 2)
			l.FaultAt = s.Draw("link", []int{200, 1000, 6000}[s.Draw("link", 3)])
			l.FaultDur = s.Dur("link", w.T/4, w.T*3)
		}
		return l
	}
	s.Logf("world: T=%v fw=%d faulty=%v size=%d", w.T, p.Firmware, faulty, c.ConnectionSize)
	return w
}

// newClient makes the client, with NewClient or from its fields, which may be left zero.
func (w *CW) newClient() *gologix.Client {
	h, s, p := w.h, w.s, w.p
	slog.SetDefault(slog.New(silent{}))
	c := gologix.NewClient("10.0.0.9")
	lit := h.Pick("cfg.lit", 5, 1) == 1
	if lit {
		c = &gologix.Client{Controller: gologix.Controller{IpAddress: "10.0.0.9"}, AutoConnect: true}
	}
	w.c = c
	if !lit || s.Draw("cfg.lit", 2) == 1 {
		c.Logger = nolog{}
	}
	c.SocketTimeout = w.T
	if w.T == 10*time.Second && s.Draw("cfg.lit", 2) == 1 {
		c.SocketTimeout = 0 // the default
	}
	c.ConnectionSize = []uint16{4000, 511, 504, 1000, 2000, 300}[h.Pick("cfg.cs", 4, 3, 1, 1, 1, 1)]
	if c.ConnectionSize == 4000 && s.Draw("cfg.lit", 2) == 1 {
		c.ConnectionSize = 0
	}
	size := int(c.ConnectionSize)
	if size == 0 {
		size = 4000
	}
	p.WantSize = func(large bool, n int) bool { return n == size || !large && n == min(size, 511) }
	if s.Draw("cfg.id", 3) == 1 {
		c.VendorId, c.SerialNumber = uint16(1+s.Draw("cfg.id", 0xFFFF)), uint32(1+s.Draw("cfg.id", 1<<31-1))
	}
	ven, ser := c.VendorId, c.SerialNumber
	p.WantID = func(v uint16, n uint32) bool {
		if ser == 0 {
			ser = n // any, but always the same
		}
		return v != 0 && (ven == 0 || v == ven) && n == ser
	}
	if k := h.Pick("cfg.rpi", 4, 1, 1); k > 0 {
		c.RPI = []time.Duration{0, 100 * time.Millisecond, 5 * time.Second}[k]
		p.RPI = c.RPI
	}
	w.route()
	return c
}

// route configures the path to the controller.
func (w *CW) route() {
	c, s := w.c, w.s
	var path string
	var r []byte
	switch w.h.Pick("cfg.route", 3, 1, 1, 1, 1, 1) {
	case 0: // as it is
		r = []byte{1, 0}
	case 1:
		n := s.Draw("cfg.route", 17)
		path, r = fmt.Sprintf("1,%d", n), []byte{1, byte(n)}
	case 2:
		path = " "
		c.Controller.Path = &bytes.Buffer{}
	case 3, 4:
		ip := fmt.Sprintf("10.%d.%d.%d", s.Draw("cfg.route", 256), s.Draw("cfg.route", 256), s.Draw("cfg.route", 256))
		n := s.Draw("cfg.route", 17)
		path = fmt.Sprintf("1,%d,2,%s,1,%d", n, ip, s.Draw("cfg.route", 2))
		r = cat([]byte{1, byte(n), 0x12, byte(len(ip))}, []byte(ip))
		if len(r)%2 == 1 {
			r = append(r, 0)
		}
		r = append(r, 1, path[len(path)-1]-'0')
		if s.Draw("cfg.route", 2) == 1 {
			path = "[" + strings.ReplaceAll(path, ",", ", ") + "]"
		}
	case 5:
		n := byte(s.Draw("cfg.route", 17))
		pb := gologix.NewPathBuilder().Port(1).Slot(n)
		r = []byte{1, n}
		c.Controller.Path = bytes.NewBuffer(pb.Bytes())
	}
	if path != "" && path != " " {
		b, err := gologix.ParsePath(path)
		if err != nil {
			w.h.Violate("setup", "ParsePath(%q): %v", path, err)
			return
		}
		c.Controller.Path = b
	}
	w.p.Route = cat(r, []byte{0x20, 2, 0x24, 1})
}

func (w *CW) addTags() {
	p := w.p
	p.udts = stdUDTs()
	p.programs = []string{"Main", "Aux2"}
	for _, t := range []byte{tBOOL, tSINT, tINT, tDINT, tLINT, tBYTE, tUSINT, tUINT, tUDINT, tLWORD, tREAL, tLREAL, tSTRING, tWORD, tDWORD} {
		for i := 0; i < 2; i++ {
			p.AddTag(fmt.Sprintf("s%s%d", typeName(t), i), t, nil)
		}
	}
	for _, t := range []byte{tSINT, tINT, tDINT, tLINT, tBYTE, tUINT, tUDINT, tLWORD, tREAL, tLREAL} {
		p.AddTag(fmt.Sprintf("a%s", typeName(t)), t, nil, []int{12, 40, 7}[w.h.Pick("cfg.arr", 1, 1, 1)])
	}
	p.AddTag("bigDINT", tDINT, nil, []int{300, 1100, 2500}[w.h.Pick("cfg.arr", 2, 1, 1)])
	p.AddTag("bigINT", tINT, nil, 700)
	p.AddTag("bits", tDWORD, nil, 4)
	p.AddTag("aSTRING", tSTRING, nil, 4)
	p.AddTag("mDINT", tDINT, nil, 3, 4)
	p.AddTag("m3INT", tINT, nil, 2, 3, 300)
	if w.h.Pick("cfg.huge", 5, 1) == 1 {
		// indexes of 32 bits
		p.AddTag("hugeDINT", tDINT, nil, 66000).NoMut = true
	}
	for i, u := range p.udts {
		p.AddTag("u"+u.Name, tSTRUCT, u)
		p.AddTag("v"+u.Name, tSTRUCT, u, 3+i)
	}
	p.AddTag("Program:Main.pDINT", tDINT, nil)
	p.AddTag("Program:Main.pREAL", tREAL, nil, 9)
	p.AddTag("Program:Aux2.pDINT", tDINT, nil)
	p.AddTag("Program:Aux2.pUA", tSTRUCT, p.udts[0])
	ro := p.AddTag("roDINT", tDINT, nil)
	ro.ReadOnly = true
	w.nextVal = 1
}

func typeName(t byte) string {
	return map[byte]string{tBOOL: "BOOL", tSINT: "SINT", tINT: "INT", tDINT: "DINT", tLINT: "LINT", tUSINT: "USINT", tUINT: "UINT", tUDINT: "UDINT",
		tREAL: "REAL", tLREAL: "LREAL", tBYTE: "BYTE", tWORD: "WORD", tDWORD: "DWORD", tLWORD: "LWORD", tSTRING: "STRING"}[t]
}

// genItem draws a place. mode: 0 anything readable, 1 writable, 2 scalars only
func (w *CW) genItem(st string, mode int) *item {
	s := w.s
	tags := w.p.tagList
	for try := 0; try < 30; try++ {
		t := tags[s.Draw(st, len(tags))]
		it := &item{tag: t, es: t.ES, n: 1, typ: t.Type, udt: t.UDT, bit: -1, mbit: -1, name: t.Name}
		if t.UDT != nil && t.UDT.Str > 0 || mode == 2 && (t.UDT != nil || t.N > 1) {
			continue
		}
		if t.N > 1 {
			idx := 0
			if t.N > 10000 && mode == 0 && s.Draw(st, 3) > 0 {
				idx = t.N - 1 - s.Draw(st, 600)
				it.name += fmt.Sprintf("[%d]", idx)
				it.off = idx * t.ES
			} else if v := s.Draw(st, 4); v > 0 || len(t.Dims) > 1 {
				var parts []string
				for _, d := range t.Dims {
					k := s.Draw(st, d)
					if v == 3 {
						k = d - 1 - s.Draw(st, (d+3)/4)
					}
					idx = idx*d + k
					parts = append(parts, fmt.Sprint(k))
				}
				it.name += "[" + strings.Join(parts, ",") + "]"
				it.off = idx * t.ES
			}
			left := t.N - idx
			if mode != 2 && s.Draw(st, 3) > 0 && left > 1 {
				it.sl = true
				it.n = 2 + s.Draw(st, left-1)
				if s.Draw(st, 8) == 0 {
					it.n = 1
				}
				it.n = min(it.n, 2500)
				if s.Draw(st, 2) == 0 && it.n > 8 {
					it.n = 2 + s.Draw(st, 7)
				}
			} else if it.off == 0 && !strings.Contains(it.name, "[") {
				it.name += "[0]"
				if len(t.Dims) > 1 {
					continue
				}
			}
		}
		if t.UDT != nil && !it.sl && mode != 2 && s.Draw(st, 2) == 1 {
			w.member(st, it)
		}
		// bit of an integer
		if mode == 0 && it.udt == nil && !it.sl && s.Draw(st, 5) == 1 {
			switch it.typ {
			case tINT, tDINT, tLINT, tUINT, tUDINT, tBYTE, tUSINT, tSINT, tWORD, tDWORD, tLWORD:
				if it.typ == tDWORD && t.N > 1 {
					break
				}
				// (the client takes higher bits for names of members)
				b := s.Draw(st, min(it.es*8, 32))
				if s.Draw(st, 4) == 1 {
					b = min(it.es*8, 32) - 1
				}
				it.name += fmt.Sprintf(".%d", b)
				it.bit = b
			}
		}
		if it.name != t.Name || s.Draw(st, 3) == 0 {
			switch s.Draw(st, 4) {
			case 1:
				it.name = strings.ToUpper(it.name)
			case 2:
				it.name = strings.ToLower(it.name)
			}
		}
		return it
	}
	t := tags[0]
	return &item{tag: t, es: t.ES, n: 1, typ: t.Type, bit: -1, mbit: -1, name: t.Name}
}

func (w *CW) member(st string, it *item) {
	s := w.s
	u := it.udt
	m := u.Members[s.Draw(st, len(u.Members))]
	it.name += "." + m.Name
	it.off += m.Off
	it.udt = m.UDT
	it.typ = m.Type
	it.mbit = m.Bit
	if m.UDT != nil {
		it.typ = tSTRUCT
		it.es = m.UDT.Size
		k := 0
		if m.N > 0 {
			k = s.Draw(st, m.N)
			it.name += fmt.Sprintf("[%d]", k)
			it.off += k * it.es
		}
		if s.Draw(st, 3) > 0 {
			w.member(st, it)
		} else if m.N-k > 1 && s.Draw(st, 2) == 1 {
			it.sl, it.n = true, m.N-k
		}
		return
	}
	it.es = typeSize(m.Type)
	if m.N > 0 {
		k := s.Draw(st, m.N)
		it.name += fmt.Sprintf("[%d]", k)
		it.off += k * it.es
		if l := m.N - k; l > 1 && s.Draw(st, 2) == 1 {
			it.sl = true
			it.n = l
		}
	}
}

// goType is the Go type a caller uses for the item.
func (it *item) goType() reflect.Type {
	var e reflect.Type
	switch {
	case it.bit >= 0 || it.mbit >= 0:
		e = goTypes[tBOOL]
	case it.udt != nil:
		e = goUDT[it.udt.Name]
	default:
		e = goTypes[it.typ]
	}
	if it.sl {
		return reflect.SliceOf(e)
	}
	return e
}

// elems are the Go values of the item in the given tag contents.
func (it *item) elems(d []byte) []any {
	var out []any
	for i := 0; i < it.n; i++ {
		b := d[it.off+i*it.es : it.off+(i+1)*it.es]
		switch {
		case it.mbit >= 0:
			out = append(out, b[0]>>it.mbit&1 == 1)
		case it.bit >= 0:
			out = append(out, b[it.bit/8]>>(it.bit%8)&1 == 1)
		case it.udt != nil:
			out = append(out, udtGo(it.udt, b))
		default:
			out = append(out, decodeElem(it.typ, b))
		}
	}
	return out
}

// flatten turns a result (scalar or any slice) into its elements.
func flatten(v any, sl bool) []any {
	if !sl {
		return []any{v}
	}
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() != reflect.Slice {
		return []any{v}
	}
	var out []any
	for i := 0; i < rv.Len(); i++ {
		out = append(out, rv.Index(i).Interface())
	}
	return out
}

func eqVal(a, b any) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

func eqAll(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// checkRead judges the result of one item of a successful read.
func (w *CW) checkRead(op string, it *item, v any, start, end uint64, fragmented bool) bool {
	got := flatten(v, it.sl)
	vers := it.tag.versionsIn(start, end)
	for _, d := range vers {
		if eqAll(it.elems(d), got) {
			return true
		}
	}
	if fragmented && it.udt == nil && len(got) == it.n && w.bytewise(it, got, vers) {
		return true
	}
	// explain
	for i := range it.tag.Hist {
		if eqAll(it.elems(it.tag.Hist[i].Data), got) {
			w.h.Violate("stale-read", "%s of %q succeeded with a value the tag held at another time only: %s (current: %s)", op, it.name, short(got), short(it.elems(vers[0])))
			return false
		}
	}
	w.h.Violate("wrong-read", "%s of %q succeeded with %s; the controller held %s during the call", op, it.name, short(got), short(it.elems(vers[0])))
	return false
}

func (w *CW) bytewise(it *item, got []any, vers [][]byte) bool {
	for i, g := range got {
		b, ok := encElem(it.typ, g)
		if !ok || len(b) != it.es {
			return false
		}
		for k := range b {
			hit := false
			for _, d := range vers {
				x := d[it.off+i*it.es+k]
				if x == b[k] || it.typ == tBOOL && (x != 0) == (b[k] != 0) {
					hit = true
				}
			}
			if !hit {
				return false
			}
		}
	}
	return true
}

// encElem is the inverse of decodeElem, requiring the exact Go type.
func encElem(t byte, v any) ([]byte, bool) {
	if t == tSTRING {
		s, ok := v.(string)
		if !ok || len(s) > 82 {
			return nil, false
		}
		b := make([]byte, 88)
		copy(b, le32(uint32(len(s))))
		copy(b[4:], s)
		return b, true
	}
	if reflect.TypeOf(v) != goTypes[t] {
		return nil, false
	}
	var b bytes.Buffer
	if binary.Write(&b, binary.LittleEndian, v) != nil {
		return nil, false
	}
	return b.Bytes(), true
}

func short(v any) string {
	x := fmt.Sprintf("%v", v)
	if len(x) > 160 {
		x = x[:160] + "..."
	}
	return x
}

// ---------------------------------------------------------------- calls

type callInfo struct {
	start, end uint64
	t0, dur    time.Duration
	frags      bool
	errs       bool // the controller reported errors meanwhile
	disturbed  bool
	err        error
}

// call runs one client operation and applies the oracles common to all of them.
func (w *CW) call(op string, f func() error) *callInfo { return w.callX(op, false, f) }

// callX is call with leave to fail for other reasons than faults.
func (w *CW) callX(op string, mayFail bool, f func() error) *callInfo {
	s := w.s
	net := s.Net
	ci := &callInfo{start: w.h.Tick(), t0: s.Now()}
	wr, di, fr, er, sw, sp := net.LibWrites, net.LibDials, w.p.Fragments, w.p.ErrReplies, w.p.Swallowed, w.p.StructParts
	bf := w.p.BadFrags
	w.running++
	w.calls++
	x := w.hostile
	var was hostile
	var mem uint64
	if x != nil {
		was, mem = *x, allocated()
	}
	s.Logf("call %s", op)
	ci.err = f()
	w.running--
	ci.end = w.h.Tick()
	ci.dur = s.Now() - ci.t0
	ci.frags = w.p.Fragments != fr
	ci.errs = w.p.ErrReplies != er
	res := "ok"
	if ci.err != nil {
		res = "error"
	} else {
		w.okCalls++
	}
	s.Logf("done %s: %s after %v", op, res, ci.dur)
	if ci.err != nil {
		s.Notef("    error: %v", ci.err)
	}
	if x != nil {
		x.judge(ci, op, was, mem)
	}
	n := net.LibWrites - wr + 1
	d := net.LibDials - di
	bound := 3*w.T*time.Duration(n) + w.T*time.Duration(d) + (s.StallSince(ci.t0)) + 10*time.Millisecond
	if ci.dur > bound {
		w.h.Violate("unbounded", "%s took %v of simulated time: more than %v, the bound for %d exchanges and %d dials with a socket time-out of %v", op, ci.dur, bound, n, d, w.T)
	}
	maxEx := w.maxEx
	if maxEx == 0 {
		// for every tag of a list the firmware may have to be asked for, on a new connection each time
		maxEx = 80 + 8*strings.Count(op, " ")
	}
	if w.tasks == 1 && n > maxEx+(w.p.Fragments-fr)*2 {
		w.h.Violate("unbounded", "%s made %d exchanges", op, n)
	}
	if ci.err == nil && w.tasks == 1 && w.p.BadFrags != bf {
		w.h.Violate("bad-fragment", "%s succeeded although the controller sent %s", op, w.p.LastBad)
	}
	if ci.err != nil && !w.faulty && !ci.errs && !mayFail && !w.lifeErr && w.p.Swallowed == sw && s.StallSince(ci.t0) == 0 && w.p.StructParts == sp {
		w.h.Violate("spurious-error", "%s failed (%v) although the network and the controller worked and the controller reported no error", op, ci.err)
	}
	return ci
}

// ---------------------------------------------------------------- reads

func (w *CW) readScalarOrSlice(it *item) {
	rt := it.goType()
	var ci *callInfo
	op := fmt.Sprintf("Read(%q,%v,%d)", it.name, rt, it.n)
	if it.typ == tDWORD && it.udt == nil && it.sl {
		// BOOL array, read as []bool in units of 32
		dst := make([]bool, 32*it.n)
		ci = w.call(op, func() error { return w.c.Read(it.name, dst) })
		if ci.err == nil {
			ws := make([]uint32, it.n)
			for i, b := range dst {
				if b {
					ws[i/32] |= 1 << (i % 32)
				}
			}
			w.checkRead(op, it, ws, ci.start, ci.end, ci.frags)
		}
		return
	}
	if it.typ == tSTRING && it.udt == nil && w.hostile == nil && w.s.Draw("client.lgxstring", 3) == 1 {
		// as the structure it is
		n := max(it.n, 1)
		dst := make([]lgxtypes.STRING, n)
		op = fmt.Sprintf("Read(%q,lgxtypes.STRING,%d)", it.name, it.n)
		ci = w.call(op, func() error {
			if it.sl {
				return w.c.Read(it.name, dst)
			}
			return w.c.Read(it.name, &dst[0])
		})
		if ci.err == nil {
			x := *it
			x.sl = true
			x.n = n
			var got []string
			for _, d := range dst {
				got = append(got, lgxText(d))
			}
			w.checkRead(op, &x, got, ci.start, ci.end, ci.frags)
		}
		return
	}
	if it.sl {
		dst := reflect.MakeSlice(rt, it.n, it.n)
		ci = w.call(op, func() error { return w.c.Read(it.name, dst.Interface()) })
		if ci.err == nil {
			w.checkRead(op, it, dst.Interface(), ci.start, ci.end, ci.frags)
		}
		return
	}
	if f := readPacked[rt]; f != nil && w.s.Draw("client.packed", 4) == 1 {
		var v any
		op = fmt.Sprintf("ReadPacked[%v](%q)", rt, it.name)
		ci = w.call(op, func() (err error) { v, err = f(w.c, it.name); return })
		if ci.err == nil {
			w.checkRead(op, it, v, ci.start, ci.end, ci.frags)
		}
		return
	}
	if it.bit < 0 && it.mbit < 0 && w.hostile == nil && w.p.BadFrag == 0 && w.s.Draw("client.any", 8) == 1 {
		// without a type: structures as their bytes
		var v any
		op = fmt.Sprintf("Read(%q,*any)", it.name)
		ci = w.callX(op, it.udt == nil, func() (err error) { return w.c.Read(it.name, &v) })
		if ci.err != nil {
			return
		}
		if b, ok := v.([]byte); it.udt != nil && ok && len(b) == it.udt.Size {
			v = udtGo(it.udt, b)
		} else if it.typ == tSTRING && it.udt == nil && ok && len(b) == it.es {
			v = decodeElem(tSTRING, b) // a structure as well
		}
		w.checkRead(op, it, v, ci.start, ci.end, ci.frags)
		return
	}
	dst := reflect.New(rt)
	ci = w.call(op, func() error { return w.c.Read(it.name, dst.Interface()) })
	if ci.err == nil {
		w.checkRead(op, it, dst.Elem().Interface(), ci.start, ci.end, ci.frags)
	}
}

func lgxText(d lgxtypes.STRING) string {
	var b []byte
	for _, c := range d.Data[:min(max(int(d.Len), 0), len(d.Data))] {
		b = append(b, byte(c))
	}
	return string(b)
}

func lgxString(v string) (d lgxtypes.STRING) {
	d.Len = int32(len(v))
	for i := 0; i < len(v); i++ {
		d.Data[i] = int8(v[i])
	}
	return d
}

// readWrong reads with a type that does not fit; success is only right if the
// value happens to be representable, which these pairs exclude.
func (w *CW) readWrong(it *item) {
	if it.bit >= 0 || it.mbit >= 0 || it.udt != nil {
		return
	}
	var wrong reflect.Type
	switch it.typ {
	case tDINT:
		wrong = goTypes[tREAL]
	case tREAL, tBOOL, tSTRING:
		wrong = goTypes[tDINT]
	case tINT:
		wrong = goTypes[tLINT]
	case tLINT, tLREAL:
		wrong = goTypes[tINT]
	default:
		wrong = goTypes[tBOOL]
	}
	op := fmt.Sprintf("Read(%q,%v)", it.name, wrong)
	dst := reflect.New(wrong)
	ci := w.callX(op, true, func() error { return w.c.Read(it.name, dst.Interface()) })
	if ci.err == nil {
		w.h.Violate("wrong-read", "%s succeeded with %v although the tag is a %s", op, dst.Elem().Interface(), typeName(it.typ))
	}
}

func (w *CW) readSingle(it *item) {
	if it.bit >= 0 {
		return
	}
	ct := gologix.CIPType(it.typ)
	known := w.s.Draw("single", 2) == 0
	if it.udt != nil {
		return
	}
	if it.typ == tSTRING {
		known = true
	}
	if !known {
		ct = gologix.CIPTypeUnknown
	}
	var v any
	op := fmt.Sprintf("Read_single(%q,%v,%d)", it.name, ct, it.n)
	ci := w.call(op, func() (err error) { v, err = w.c.Read_single(it.name, ct, uint16(it.n)); return })
	if ci.err != nil {
		return
	}
	sl := it.n > 1
	got := flatten(v, sl)
	if it.typ == tSTRING {
		for i := range got {
			if b, ok := got[i].([]byte); ok {
				got[i] = string(b)
			}
		}
	}
	x := *it
	x.sl = true
	w.checkRead(op, &x, got, ci.start, ci.end, ci.frags)
}

// multiItems draws distinct places for a multi tag read.
func (w *CW) multiItems(st string, max int, write bool) []*item {
	n := 1 + w.s.Draw(st, max)
	var out []*item
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		mode := 0
		if write {
			mode = 1
		}
		it := w.genItem(st, mode)
		if it.n > 20 || seen[strings.ToLower(it.name)] {
			continue
		}
		if it.sl && it.n == 1 {
			continue
		}
		seen[strings.ToLower(it.name)] = true
		out = append(out, it)
	}
	return out
}

func (it *item) zero() any {
	rt := it.goType()
	if it.sl {
		return reflect.MakeSlice(rt, it.n, it.n).Interface()
	}
	return reflect.Zero(rt).Interface()
}

func (w *CW) readMap(items []*item) {
	if len(items) == 0 {
		return
	}
	m := map[string]any{}
	for _, it := range items {
		m[it.name] = it.zero()
	}
	op := fmt.Sprintf("ReadMap(%s)", names(items))
	// a map that has been filled can be used again: its values have the types that are wanted.
	for i := w.s.Draw("client.mapagain", 5) / 3; i >= 0; i-- {
		ci := w.call(op, func() error {
			if w.s.Draw("client.mapmulti", 3) == 1 {
				return w.c.ReadMulti(m)
			}
			return w.c.ReadMap(m)
		})
		if ci.err != nil {
			return
		}
		if len(m) != len(items) {
			w.h.Violate("wrong-read", "%s returned %d entries", op, len(m))
		}
		for _, it := range items {
			if !w.checkRead(op, it, m[it.name], ci.start, ci.end, ci.frags) {
				return
			}
		}
		op = "another " + op
	}
}

func (w *CW) readList(items []*item) {
	if len(items) == 0 {
		return
	}
	var ns []string
	var ts []any
	var es []int
	for _, it := range items {
		ns = append(ns, it.name)
		ts = append(ts, it.zero())
		es = append(es, it.n)
	}
	var out []any
	op := fmt.Sprintf("ReadList(%s)", names(items))
	ci := w.call(op, func() (err error) { out, err = w.c.ReadList(ns, ts, es); return })
	if ci.err != nil {
		return
	}
	if len(out) != len(items) {
		w.h.Violate("wrong-read", "%s returned %d results", op, len(out))
		return
	}
	for i, it := range items {
		if !w.checkRead(op, it, out[i], ci.start, ci.end, ci.frags) {
			return
		}
	}
}

// structOf makes a struct type with the given fields. Sometimes a part of them
// is in an embedded struct.
func (w *CW) structOf(fs []reflect.StructField) reflect.Type {
	if w.s.Draw("client.embed", 4) == 1 {
		k := w.s.Draw("client.embed.n", len(fs)) // those before k are not in it
		in := append([]reflect.StructField{{Name: "Pad", Type: goTypes[tDINT]}}, fs[k:]...)
		em := reflect.StructField{Name: "Emb", Type: reflect.StructOf(in), Anonymous: true}
		fs = append(append([]reflect.StructField{}, fs[:k]...), em)
		if k > 0 && w.s.Draw("client.embed.front", 2) == 1 {
			fs[0], fs[k] = fs[k], fs[0]
		}
	}
	return reflect.StructOf(fs)
}

func (w *CW) readMulti(items []*item) {
	if len(items) == 0 {
		return
	}
	var fs []reflect.StructField
	for i, it := range items {
		name := it.name
		name = strings.ReplaceAll(name, "0", "{0}")
		name = strings.ReplaceAll(name, "DINT", "{1}")
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: it.goType(), Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, name))})
		if i == 0 {
			fs = append(fs, reflect.StructField{Name: "Other", Type: goTypes[tDINT]})
		}
	}
	v := reflect.New(w.structOf(fs))
	for i, it := range items {
		if it.sl {
			v.Elem().FieldByName(fmt.Sprintf("F%d", i)).Set(reflect.ValueOf(it.zero()))
		}
	}
	v.Elem().FieldByName("Other").SetInt(77)
	op := fmt.Sprintf("ReadMulti(%s)", names(items))
	ci := w.call(op, func() error { return w.c.ReadMulti(v.Interface(), 0, "DINT") })
	if ci.err != nil {
		return
	}
	if v.Elem().FieldByName("Other").Int() != 77 {
		w.h.Violate("wrong-read", "%s changed a field without a tag", op)
	}
	for i, it := range items {
		if !w.checkRead(op, it, v.Elem().FieldByName(fmt.Sprintf("F%d", i)).Interface(), ci.start, ci.end, ci.frags) {
			return
		}
	}
}

func (w *CW) readGroup(items []*item) {
	if len(items) == 0 {
		return
	}
	var defs []gologix.TagDef
	var use []*item
	for _, it := range items {
		if it.udt != nil || it.sl && (it.typ == tUSINT || it.typ == tWORD) {
			continue
		}
		typ := gologix.CIPType(it.typ)
		if it.bit >= 0 || it.mbit >= 0 {
			typ = gologix.CIPTypeBOOL
		}
		defs = append(defs, gologix.TagDef{Name: strings.ReplaceAll(it.name, "1", "{0}"), Type: typ, Elements: it.n})
		use = append(use, it)
	}
	if len(use) == 0 {
		return
	}
	var res *gologix.TagGroupResult
	op := fmt.Sprintf("ReadTagGroup(%s)", names(use))
	ci := w.call(op, func() (err error) { res, err = w.c.ReadTagGroup(gologix.NewTagGroup(defs...), 1); return })
	if ci.err != nil {
		return
	}
	for _, it := range use {
		v, err := res.Value(it.name)
		if err != nil {
			w.h.Violate("wrong-read", "%s: no result for %q", op, it.name)
			return
		}
		if !w.checkRead(op, it, v, ci.start, ci.end, ci.frags) || !w.groupAccess(op, res, it, v) {
			return
		}
	}
	if _, err := res.Int32("no such tag"); err == nil || len(res.Raw()) != len(use) {
		w.h.Violate("wrong-read", "%s has %d results (%v)", op, len(res.Raw()), err)
	}
}

// groupAccess asks for a result of a tag group with all typed accessors.
func (w *CW) groupAccess(op string, res *gologix.TagGroupResult, it *item, v any) bool {
	n := it.name
	var got [8]any
	var err [8]error
	got[0], err[0] = res.String(n)
	got[1], err[1] = res.Bool(n)
	got[2], err[2] = res.Int16(n)
	got[3], err[3] = res.Int32(n)
	got[4], err[4] = res.Uint32(n)
	got[5], err[5] = res.Float32(n)
	got[6], err[6] = res.Float64(n)
	for i, want := range []reflect.Type{goTypes[tSTRING], goTypes[tBOOL], goTypes[tINT], goTypes[tDINT], goTypes[tUDINT], goTypes[tREAL], goTypes[tLREAL]} {
		rt := reflect.TypeOf(v)
		fits := rt == want
		exp := v
		if i == 4 && rt == goTypes[tDINT] {
			fits, exp = true, uint32(v.(int32))
		}
		if fits != (err[i] == nil) || fits && !sameVal(got[i], exp) {
			w.h.Violate("wrong-read", "%s: %q is %T %v, accessor %d for %v returns %v (%v)", op, n, v, v, i, want, got[i], err[i])
			return false
		}
	}
	var el []any
	if it.sl {
		el = flatten(v, true)
	}
	is, ierr := res.Int32Slice(n)
	fs, ferr := res.Float32Slice(n)
	ok := (ierr == nil) == (it.sl && it.typ == tDINT) && (ferr == nil) == (it.sl && it.typ == tREAL)
	ok = ok && (ierr != nil || len(is) == len(el)) && (ferr != nil || len(fs) == len(el))
	for i := range el {
		ok = ok && (ierr != nil || is[i] == el[i]) && (ferr != nil || sameVal(fs[i], el[i]))
	}
	if !ok {
		w.h.Violate("wrong-read", "%s: %q is %T %v, as slices %v (%v) and %v (%v)", op, n, v, v, is, ierr, fs, ferr)
	}
	return ok
}

// sameVal compares values, NaNs by being NaNs.
func sameVal(a, b any) bool { return a == b || a != a && b != b }

func names(items []*item) string {
	var ns []string
	for _, it := range items {
		n := it.name
		if it.sl {
			n += fmt.Sprintf("x%d", it.n)
		}
		ns = append(ns, n)
	}
	return strings.Join(ns, " ")
}

// ---------------------------------------------------------------- writes

func wkey(tag *PTag, off, bit int, data []byte) string {
	return fmt.Sprintf("%d/%d/%d/%x", tag.ID, off, bit, data)
}

// genWrite draws a value for the item that no other write of the run uses.
func (w *CW) genWrite(it *item) (val any, key string, ok bool) {
	for try := 0; try < 4; try++ {
		w.nextVal++
		var data []byte
		if it.mbit >= 0 {
			data = []byte{byte(w.nextVal & 1)}
		} else {
			for i := 0; i < it.n; i++ {
				u := w.nextVal*3 + uint64(i)
				if it.udt != nil {
					data = append(data, genUDT(it.udt, u*32)...)
				} else {
					e := genElem(it.typ, u)
					if it.typ == tBOOL && e[0] != 0 {
						e[0] = 1
					}
					data = append(data, e...)
				}
			}
		}
		key = wkey(it.tag, it.off, it.mbit, data)
		if w.used[key] {
			continue
		}
		w.used[key] = true
		d := data
		x := *it
		x.off = 0
		els := x.elems(d)
		if it.mbit >= 0 {
			return d[0] == 1, key, true
		}
		if !it.sl {
			return els[0], key, true
		}
		sl := reflect.MakeSlice(it.goType(), 0, it.n)
		for _, e := range els {
			sl = reflect.Append(sl, reflect.ValueOf(e))
		}
		return sl.Interface(), key, true
	}
	return nil, "", false
}

type leafWrite struct {
	it  *item
	key string
}

// memberwise tells whether the client can write a structure member by member.
func memberwise(u *UDT) bool {
	if goUDT[u.Name] == nil || u.Str > 0 || goUDT[u.Name].NumField() != len(u.Members) || goUDT[u.Name].PkgPath() != goUDT["UA"].PkgPath() {
		return false
	}
	for _, m := range u.Members {
		if m.UDT != nil && (m.N > 0 || !memberwise(m.UDT)) || m.UDT == nil && m.N > 0 && (m.Type == tBOOL || m.Type == tDWORD) {
			return false
		}
	}
	return true
}

// genMembers fills v, a structure, with values for its members.
func (w *CW) genMembers(it *item, v reflect.Value, ls *[]*leafWrite) bool {
	for _, m := range it.udt.Members {
		f := v.FieldByNameFunc(func(n string) bool { return strings.EqualFold(n, m.Name) })
		x := *it
		x.name += "." + m.Name
		x.off += m.Off
		x.udt, x.typ, x.mbit = m.UDT, m.Type, m.Bit
		if m.UDT != nil {
			x.typ, x.es = tSTRUCT, m.UDT.Size
			if !w.genMembers(&x, f, ls) {
				return false
			}
			continue
		}
		x.es = typeSize(m.Type)
		if m.N > 0 {
			x.sl, x.n = true, m.N
		}
		val, key, ok := w.genWrite(&x)
		if !ok {
			return false
		}
		if m.N > 0 {
			reflect.Copy(f, reflect.ValueOf(val))
		} else {
			f.Set(reflect.ValueOf(val))
		}
		*ls = append(*ls, &leafWrite{&x, key})
	}
	return true
}

func (w *CW) onWrite(r *WriteRec) {
	d := r.Data
	if r.Bit < 0 && r.UDT != nil {
		for len(d)%r.UDT.Size != 0 {
			d = append(d, 0)
		}
	}
	o := w.wops[wkey(r.Tag, r.Off, r.Bit, d)]
	if o == nil {
		w.h.Violate("wrong-write", "the controller was told to write %s+%d with % x, which nobody asked for", r.Tag.Name, r.Off, trunc(r.Data, 24))
		return
	}
	o.count++
	if o.count > 1 {
		w.h.Violate("double-write", "%s: the write of %s was applied %d times", o.opDesc, o.name, o.count)
	}
	if o.done && o.ok {
		w.h.Violate("late-write", "%s: the write of %s was applied after the call had reported success", o.opDesc, o.name)
	}
}

func trunc(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func (w *CW) write(items []*item, kind int) {
	vals := map[string]any{}
	var ops []*wop
	var use []*item
	var top []*item // the tags named in the call, without the members of structures
	for _, it := range items {
		if it.udt != nil && kind == 2 {
			// a structure is written member by member
			v := reflect.New(it.goType()).Elem()
			var ls []*leafWrite
			if !memberwise(it.udt) || !w.genMembers(it, v, &ls) {
				continue
			}
			for _, l := range ls {
				o := &wop{name: l.it.name, start: w.h.Tick()}
				w.wops[l.key] = o
				ops = append(ops, o)
				use = append(use, l.it)
			}
			vals[it.name] = v.Interface()
			top = append(top, it)
			w.s.Stat("client.struct_members")
			continue
		}
		v, key, ok := w.genWrite(it)
		if !ok {
			continue
		}
		o := &wop{name: it.name, start: w.h.Tick()}
		w.wops[key] = o
		vals[it.name] = v
		ops = append(ops, o)
		use = append(use, it)
		top = append(top, it)
	}
	if len(use) == 0 {
		return
	}
	op := ""
	var f func() error
	switch kind {
	case 0:
		op = fmt.Sprintf("Write(%s,%s)", names(use), short(vals[use[0].name]))
		f = func() error { return w.c.Write(use[0].name, vals[use[0].name]) }
	case 1:
		op = fmt.Sprintf("WriteMap(%s)", names(use))
		f = func() error { return w.c.WriteMap(vals) }
	case 2:
		op = fmt.Sprintf("WriteMulti(%s)", names(top))
		var fs []reflect.StructField
		for i, it := range top {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(vals[it.name]), Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, it.name))})
		}
		v := reflect.New(w.structOf(fs)).Elem()
		for i, it := range top {
			v.FieldByName(fmt.Sprintf("F%d", i)).Set(reflect.ValueOf(vals[it.name]))
		}
		f = func() error { return w.c.WriteMulti(v.Interface()) }
	}
	if v, ok := vals[use[0].name].(string); ok && kind == 0 && w.s.Draw("client.lgxstring", 3) == 1 {
		op = fmt.Sprintf("Write(%s,lgxtypes.STRING %q)", names(use), v)
		f = func() error { return w.c.Write(use[0].name, lgxString(v)) }
	}
	for _, o := range ops {
		o.opDesc = op
	}
	ci := w.call(op, f)
	for i, o := range ops {
		o.done = true
		o.end = ci.end
		o.ok = ci.err == nil
		if o.ok && o.count == 0 {
			it := use[i]
			why := "the controller never applied it"
			if it.tag.ReadOnly {
				why = "the controller refused it (read only)"
			} else if ci.errs {
				why = "the controller answered with an error"
			}
			w.h.Violate("lost-write", "%s reported success, but for %s %s", op, it.name, why)
			return
		}
	}
}

// ---------------------------------------------------------------- attributes and generic messages

func (w *CW) attrs(st string) {
	s := w.s
	class := uint32(0x300 + s.Draw(st, 4))
	if s.Draw(st, 4) == 1 {
		class -= 0x300 - 0xC8
	}
	inst := uint32(1 + s.Draw(st, 52))
	if v := s.Draw(st, 24); v > 0 && v < 5 {
		inst = []uint32{0, 255, 256, 300, 70000}[v]
	}
	drawAttr := func() uint32 {
		a := uint32(1 + s.Draw(st, 40))
		if s.Draw(st, 5) == 1 {
			a = uint32(250 + s.Draw(st, 20))
		}
		return a
	}
	switch s.Draw(st, 6) {
	case 5:
		if w.hostile == nil {
			w.genericRead(st, w.genItem(st, 1))
		}
	case 0:
		attr := drawAttr()
		var it *gologix.CIPItem
		op := fmt.Sprintf("GetAttrSingle(%x,%d,%d)", class, inst, attr)
		ci := w.call(op, func() (err error) {
			it, err = w.c.GetAttrSingle(gologix.CIPClass(class), gologix.CIPInstance(inst), gologix.CIPAttribute(attr))
			return
		})
		w.keep(op, it)
		w.refusedAttr(op, ci, inst)
		if ci.err == nil {
			got, err := it.Uint32()
			if err != nil || !bytes.Equal(le32(got), objAttr(class, inst, attr)) || !genInst(inst) {
				w.h.Violate("wrong-attr", "%s succeeded with %x (instance exists: %v), the attribute is % x", op, got, genInst(inst), objAttr(class, inst, attr))
			}
		}
	case 1:
		n := 1 + s.Draw(st, 4)
		var as []gologix.CIPAttribute
		var want []byte
		want = le16(uint16(n))
		for i := 0; i < n; i++ {
			a := drawAttr()
			as = append(as, gologix.CIPAttribute(a))
			want = cat(want, le16(uint16(a)), le16(0), objAttr(class, inst, a))
		}
		var it *gologix.CIPItem
		op := fmt.Sprintf("GetAttrList(%x,%d,%v)", class, inst, as)
		ci := w.call(op, func() (err error) {
			it, err = w.c.GetAttrList(gologix.CIPClass(class), gologix.CIPInstance(inst), as...)
			return
		})
		w.keep(op, it)
		w.refusedAttr(op, ci, inst)
		if ci.err == nil {
			if !bytes.HasSuffix(want, it.Rest()) || len(it.Rest()) < len(want)-2 || !genInst(inst) {
				w.h.Violate("wrong-attr", "%s succeeded with % x, the attributes are % x", op, it.Rest(), want)
			}
		}
	case 2:
		w.props()
	default:
		w.nextVal++
		pay := cat(le64(w.nextVal*0x9E3779B97F4A7C15), make([]byte, s.Draw(st, 60)*2))
		for i := range pay[8:] {
			pay[8+i] = byte(w.nextVal*31 + uint64(i)*7)
		}
		var path []byte
		if s.Draw(st, 2) == 1 {
			path = gologix.NewPathBuilder().Class(gologix.CIPClass(class)).Instance(gologix.CIPInstance(inst)).Bytes()
		} else {
			b, _ := gologix.Serialize(gologix.CIPClass(class), gologix.CIPInstance(inst))
			path = b.Bytes()
		}
		if s.Draw(st, 4) == 1 {
			// values and strings
			x, v := strings.Repeat("s", s.Draw(st, 83)), w.nextVal
			b, err := gologix.Serialize(uint64(v), x, int16(-5), []uint16{1, 2})
			if err != nil {
				w.h.Violate("setup", "Serialize: %v", err)
				return
			}
			exp := cat(le64(v), le32(uint32(len(x))), []byte(x), make([]byte, 84-len(x)), le16(0xFFFB), le16(1), le16(2))
			if pay = b.Bytes(); !bytes.Equal(pay, exp) {
				w.h.Violate("wrong-attr", "Serialize of a number, a string of %d bytes and two numbers is % x", len(x), pay)
				return
			}
		}
		var it *gologix.CIPItem
		op := fmt.Sprintf("GenericCIPMessage(4B,%x,%d,#%d)", class, inst, w.nextVal)
		ci := w.call(op, func() (err error) {
			it, err = w.c.GenericCIPMessage(gologix.CIPService(0x4B), path, pay)
			return
		})
		w.keep(op, it)
		w.refusedAttr(op, ci, inst)
		want := cat(le16(uint16(class)), le16(uint16(inst)), pay)
		if ci.err == nil {
			if !bytes.Equal(it.Rest(), want) || !genInst(inst) {
				w.h.Violate("wrong-attr", "%s succeeded with % x instead of % x", op, trunc(it.Rest(), 40), trunc(want, 40))
				return
			}
			w.accessors(st, op, it, want)
		}
	}
}

// refusedAttr checks that the device has not refused a request for an object
// that it has.
func (w *CW) refusedAttr(op string, ci *callInfo, inst uint32) {
	if ci.err == nil || !ci.errs || !genInst(inst) || w.faulty || w.tasks > 1 || w.hostile != nil || w.lifeErr || w.s.StallSince(ci.t0) > 0 {
		return
	}
	w.h.Violate("wrong-attr", "%s failed (%v): the device refused it although the object exists", op, ci.err)
}

// genericRead reads a tag with the read service and a path of symbols and elements.
func (w *CW) genericRead(st string, it *item) {
	if it.bit >= 0 || it.mbit >= 0 || it.udt != nil || it.typ == tSTRING || it.typ == tBOOL || it.n*it.es > 300 {
		return
	}
	pb := gologix.NewPathBuilder()
	for _, part := range strings.Split(it.name, ".") {
		name, idx, ok := strings.Cut(strings.TrimSuffix(part, "]"), "[")
		pb = pb.Symbolic(name)
		if ok {
			for _, x := range strings.Split(idx, ",") {
				n, _ := strconv.Atoi(x)
				pb = pb.Element(gologix.CIPElement(n))
			}
		}
	}
	op := fmt.Sprintf("GenericCIPMessage(read,%q,%d)", it.name, it.n)
	if pb.Err != nil {
		w.h.Violate("malformed-request", "%s: no path: %v", op, pb.Err)
		return
	}
	var item *gologix.CIPItem
	ci := w.callX(op, true, func() (err error) {
		item, err = w.c.GenericCIPMessage(gologix.CIPService_Read, pb.Bytes(), le16(uint16(it.n)))
		return
	})
	w.keep(op, item)
	if ci.err != nil {
		return
	}
	w.s.Stat("client.generic_read")
	d := item.Rest()
	if len(d) != 2+it.n*it.es || d[0] != it.typ || d[1] != 0 {
		w.h.Violate("wrong-read", "%s succeeded with % x", op, trunc(d, 40))
		return
	}
	var got []any
	for i := 0; i < it.n; i++ {
		got = append(got, decodeElem(it.typ, d[2+i*it.es:]))
	}
	x := *it
	x.sl = true
	w.checkRead(op, &x, got, ci.start, ci.end, ci.frags)
}

// props reads the properties of the program.
func (w *CW) props() {
	was := w.p.props
	var eq [6]bool
	var got [15]uint32
	ci := w.call("GetControllerPropList()", func() error {
		r, err := w.c.GetControllerPropList()
		if err != nil {
			return err
		}
		got = [15]uint32{uint32(r.Attr1), uint32(r.Attr2), r.Attr3, r.Attr4, r.Attr5, uint32(r.Attr1_ID), uint32(r.Attr2_ID), uint32(r.Attr3_ID), uint32(r.Attr4_ID), uint32(r.Attr5_ID),
			uint32(r.Attr1_Status), uint32(r.Attr2_Status), uint32(r.Attr3_Status), uint32(r.Attr4_Status), uint32(r.Attr5_Status)}
		for i := range eq {
			q := r
			switch i {
			case 0:
				q.Attr1++
			case 1:
				q.Attr2++
			case 2:
				q.Attr3++
			case 3:
				q.Attr4++
			case 4:
				q.Attr5++
			}
			eq[i] = q.Match(r)
		}
		return nil
	})
	if ci.err != nil || w.p.props != was {
		return
	}
	if want := [15]uint32{uint32(uint16(was[0])), uint32(uint16(was[1])), was[2], was[3], was[4], 1, 2, 3, 4, 10}; got != want {
		w.h.Violate("wrong-attr", "GetControllerPropList() = %v, the properties are %v", got, want)
	}
	if eq != [6]bool{5: true} {
		w.h.Violate("wrong-attr", "of the properties with one changed and the unchanged ones these match: %v", eq)
	}
}

// accessors takes an answer apart with the accessors of items.
func (w *CW) accessors(st, op string, it *gologix.CIPItem, want []byte) {
	it.Pos = len(it.Data) - len(want)
	for n := 0; n < 12; n++ {
		var v any
		var err error
		k := w.s.Draw(st, 10)
		switch k {
		case 0:
			v, err = it.Byte()
		case 1:
			v, err = it.Uint16()
		case 2:
			v, err = it.Int16()
		case 3:
			v, err = it.Uint32()
		case 4:
			v, err = it.Int32()
		case 5:
			v, err = it.Uint64()
		case 6:
			v, err = it.Int64()
		case 7:
			var f float32
			f, err = it.Float32()
			v = math.Float32bits(f)
		case 8:
			var f float64
			f, err = it.Float64()
			v = math.Float64bits(f)
		case 9:
			var x struct {
				A uint16
				B [2]byte
			}
			err = it.DeSerialize(&x)
			v = binary.LittleEndian.Uint32(cat(le16(x.A), x.B[:]))
		}
		size := []int{1, 2, 2, 4, 4, 8, 8, 4, 8, 4}[k]
		if len(want) < size {
			if err == nil {
				w.h.Violate("wrong-attr", "%s: accessor %d found %v in the last % x of the answer", op, k, v, want)
			}
			return
		}
		var b [8]byte
		copy(b[:], want[:size])
		x := binary.LittleEndian.Uint64(b[:])
		var exp any
		switch k {
		case 0:
			exp = byte(x)
		case 1:
			exp = uint16(x)
		case 2:
			exp = int16(x)
		case 3, 9:
			exp = uint32(x)
		case 4:
			exp = int32(x)
		case 5:
			exp = x
		case 6:
			exp = int64(x)
		case 7:
			exp = uint32(x)
			if f := math.Float32frombits(uint32(x)); f != f {
				exp = v // NaNs may change their payload
			}
		case 8:
			exp = x
			if f := math.Float64frombits(x); f != f {
				exp = v
			}
		}
		if err != nil || v != exp {
			w.h.Violate("wrong-attr", "%s: accessor %d returned %v (%v) at % x", op, k, v, err, want[:size])
			return
		}
		want = want[size:]
	}
	it.Reset()
	if it.Pos != 0 {
		w.h.Violate("wrong-attr", "%s: Reset leaves position %d", op, it.Pos)
	}
}
