//go:build go1.23

package simrt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// LinkConfig shapes one TCP connection. The zero value is an ideal link.
type LinkConfig struct {
	LatMin, LatMax time.Duration
	Seg            int // 0 whole writes, 1 random segments, 2 mostly single bytes
	Window         int // send window, 0: 64 KiB
	// fault placed at a byte offset of one direction; Kind 0 none
	FaultKind int // see Fault*
	FaultDir  int // 0: bytes sent by the dialer, 1: bytes sent by the listener side
	FaultAt   int
	FaultDur  time.Duration
}

const (
	FaultNone = iota
	FaultReset
	FaultStall     // delivery stops for FaultDur
	FaultBlackhole // delivery stops until the network heals
	FaultFin       // orderly close by the far side
)

var faultNames = []string{"none", "tcp_reset", "tcp_stall", "tcp_blackhole", "tcp_fin"}

// Network is the simulated network.
type Network struct {
	s         *Sim
	endpoints map[string]func(c *Conn) // harness TCP endpoints by host:port
	listeners map[string]*Listener     // simulated listeners by port
	packets   map[string]*PacketConn   // UDP sockets by host:port or *:port
	Conns     []*Conn
	nextPort  int
	LocalIP   string // local address of the next dial (harness may set per client)
	// DialFault decides the fate of a dial: 0 ok, 1 refused, 2 time-out (no answer), 3 slow
	DialFault func(addr string) (kind int, delay time.Duration)
	// Link supplies the shape of a new connection
	Link func(id int, addr string) LinkConfig
	// UDP faults
	UDP        func(from, to string, b []byte) (drop bool, dup int, delay time.Duration)
	UDPErr     func(to string) error // error that writing a datagram returns
	AcceptErr  func() error          // error that accepting a connection returns
	UDPReadErr func() error          // error that reading a datagram returns
	Healed     bool
	OpenLib    int
	LibWrites  int // Write calls of the code under test on dialed connections
	LibDials   int
	MaxOpenLib int
}

func newNetwork(s *Sim) *Network {
	return &Network{s: s, endpoints: map[string]func(*Conn){}, listeners: map[string]*Listener{}, packets: map[string]*PacketConn{}, nextPort: 50000, LocalIP: "10.0.0.2"}
}

// Endpoint registers a harness TCP endpoint.
func (n *Network) Endpoint(addr string, accept func(c *Conn)) { n.endpoints[addr] = accept }
func (n *Network) RemoveEndpoint(addr string)                 { delete(n.endpoints, addr) }

// Heal ends all stalls and blackholes and disables further faults.
func (n *Network) Heal() {
	n.Healed = true
	for _, c := range n.Conns {
		c.out.release()
	}
}

type chunk struct {
	b   []byte
	fin bool
	at  time.Time
}

// dir is one direction of a connection.
type dir struct {
	from, to  *Conn
	infl      []chunk
	inflBytes int
	buf       []byte
	eof       bool
	sent      int // bytes accepted from the writer
	delivered int
	last      time.Time
	stalled   time.Time // no delivery before
	black     bool
	finned    bool
	fault     int // remaining byte offset of the fault, -1 none
	faultKind int
	faultDur  time.Duration
	pump      Event
}

// Conn is one end of a simulated TCP connection.
type Conn struct {
	ID            int
	n             *Network
	in, out       *dir
	peer          *Conn
	local, remote *net.TCPAddr
	rdl, wdl      time.Time
	Closed        bool
	reset         bool // RST received or sent
	Lib           bool // opened by the code under test
	Dialer        bool
	cfg           LinkConfig
	rTask, wTask  *Task
	OnData        func(c *Conn, b []byte) // event driven harness end
	OnClose       func(c *Conn, reset bool)
	OnLocalClose  func(c *Conn)
	Aux           any
	OpenedAt      time.Duration
}

func (n *Network) newPair(cfg LinkConfig, la, ra *net.TCPAddr) (a, b *Conn) {
	id := len(n.Conns) / 2
	a = &Conn{ID: id, n: n, local: la, remote: ra, cfg: cfg, Dialer: true, OpenedAt: n.s.Now()}
	b = &Conn{ID: id, n: n, local: ra, remote: la, cfg: cfg, OpenedAt: n.s.Now()}
	a.peer, b.peer = b, a
	ab := &dir{from: a, to: b, fault: -1}
	ba := &dir{from: b, to: a, fault: -1}
	if cfg.FaultKind != FaultNone {
		d := ab
		if cfg.FaultDir == 1 {
			d = ba
		}
		d.fault = cfg.FaultAt
		d.faultKind = cfg.FaultKind
		d.faultDur = cfg.FaultDur
	}
	a.out, a.in = ab, ba
	b.out, b.in = ba, ab
	n.Conns = append(n.Conns, a, b)
	return
}

func opErr(op string, c *Conn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

// Dial opens a simulated connection; timeout 0 means none.
func (n *Network) Dial(local, address string, timeout time.Duration, lib bool) (*Conn, error) {
	s := n.s
	if s.killing {
		return nil, net.ErrClosed
	}
	SyncPoint("dial")
	if local == "" {
		local = n.LocalIP
	}
	var deadline time.Time
	if timeout > 0 {
		deadline = time.Now().Add(timeout)
	}
	host, portS, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: err}
	}
	port, err := strconv.Atoi(portS)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: fmt.Errorf("unknown port %s", portS)}
	}
	ip := net.ParseIP(host)
	if ip == nil {
		ip = net.IPv4(10, 9, 9, 9)
	}
	n.nextPort++
	if lib {
		n.LibDials++
	}
	la := &net.TCPAddr{IP: net.ParseIP(local), Port: n.nextPort}
	ra := &net.TCPAddr{IP: ip, Port: port}
	kind, delay := 0, time.Duration(0)
	if n.DialFault != nil && !n.Healed {
		kind, delay = n.DialFault(address)
	}
	fail := func(e error) error { return &net.OpError{Op: "dial", Net: "tcp", Addr: ra, Err: e} }
	if kind == 2 {
		s.Stat("fault.dial_timeout")
		s.Logf("dial %s: no answer", address)
		if deadline.IsZero() {
			deadline = time.Now().Add(127 * time.Second) // kernel limit
		}
		s.Block("dial", func() bool { return false }, deadline)
		return nil, fail(os.ErrDeadlineExceeded)
	}
	if delay > 0 {
		end := time.Now().Add(delay)
		if !deadline.IsZero() && deadline.Before(end) {
			s.Block("dial", func() bool { return false }, deadline)
			return nil, fail(os.ErrDeadlineExceeded)
		}
		s.Block("dial", func() bool { return !time.Now().Before(end) }, end)
	}
	if s.killing {
		return nil, net.ErrClosed
	}
	if kind == 1 {
		s.Stat("fault.dial_refused")
		s.Logf("dial %s: refused", address)
		return nil, fail(syscall.ECONNREFUSED)
	}
	acc := n.endpoints[address]
	l := n.listeners[portS]
	if acc == nil && (l == nil || l.closed) {
		s.Logf("dial %s: refused (nobody listens)", address)
		return nil, fail(syscall.ECONNREFUSED)
	}
	var cfg LinkConfig
	if n.Link != nil {
		cfg = n.Link(len(n.Conns)/2, address)
	}
	if n.Healed {
		cfg.FaultKind = FaultNone
	}
	a, b := n.newPair(cfg, la, ra)
	a.Lib = lib
	if lib {
		n.OpenLib++
		if n.OpenLib > n.MaxOpenLib {
			n.MaxOpenLib = n.OpenLib
		}
	}
	s.Logf("dial %s: conn %d", address, a.ID)
	if acc != nil {
		acc(b)
	} else {
		b.Lib = true
		l.q = append(l.q, b)
	}
	return a, nil
}

func (c *Conn) String() string { return fmt.Sprintf("conn%d", c.ID) }

func (c *Conn) Read(p []byte) (int, error) {
	s := c.n.s
	SyncPoint("net read")
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if s.killing || c.Closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if c.reset {
			return 0, opErr("read", c, syscall.ECONNRESET)
		}
		if len(c.in.buf) > 0 {
			k := copy(p, c.in.buf)
			c.in.buf = c.in.buf[k:]
			return k, nil
		}
		if c.in.eof {
			return 0, io.EOF
		}
		c.rTask = cur
		s.park("net read "+c.String(), func() bool {
			return c.Closed || c.reset || len(c.in.buf) > 0 || c.in.eof || (!c.rdl.IsZero() && !time.Now().Before(c.rdl))
		}, c.rdl)
		c.rTask = nil
	}
}

func (c *Conn) window() int {
	if c.cfg.Window > 0 {
		return c.cfg.Window
	}
	return 65536
}

func (c *Conn) Write(p []byte) (int, error) {
	s := c.n.s
	SyncPoint("net write")
	done := 0
	if c.Lib && c.Dialer {
		c.n.LibWrites++
	}
	for {
		if s.killing || c.Closed {
			return done, opErr("write", c, net.ErrClosed)
		}
		if c.reset {
			return done, opErr("write", c, syscall.EPIPE)
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return done, opErr("write", c, os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return done, nil
		}
		room := c.window() - c.out.inflBytes - len(c.out.buf)
		if room > 0 {
			k := len(p)
			if k > room {
				k = room
			}
			c.Push(p[:k])
			p = p[k:]
			done += k
			continue
		}
		s.Stat("net.write_blocked")
		c.wTask = cur
		s.park("net write "+c.String(), func() bool {
			return c.Closed || c.reset || c.window()-c.out.inflBytes-len(c.out.buf) > 0 || (!c.wdl.IsZero() && !time.Now().Before(c.wdl))
		}, c.wdl)
		c.wTask = nil
	}
}

// Push sends bytes without blocking (used by event driven harness ends).
func (c *Conn) Push(b []byte) {
	if c.Closed || c.reset {
		return
	}
	d := c.out
	s := c.n.s
	st := "net"
	b = append([]byte(nil), b...)
	d.sent += len(b)
	for len(b) > 0 {
		k := len(b)
		switch c.cfg.Seg {
		case 1:
			if v := s.Draw(st, 8); v != 0 {
				k = 1 + s.Draw(st, len(b))
			}
		case 2:
			if v := s.Draw(st, 8); v != 0 {
				k = 1
			} else if len(b) > 1 {
				k = 1 + s.Draw(st, len(b))
			}
			if k > len(b) {
				k = len(b)
			}
		}
		if k < len(b) {
			s.Stat("net.split_segments")
		}
		d.send(chunk{b: b[:k]})
		b = b[k:]
	}
}

func (d *dir) send(ch chunk) {
	if d.finned {
		return
	}
	s := d.from.n.s
	cfg := d.from.cfg
	lat := s.Dur("net", cfg.LatMin, cfg.LatMax)
	at := time.Now().Add(lat)
	if at.Before(d.last) {
		at = d.last
	}
	d.last = at
	ch.at = at
	d.infl = append(d.infl, ch)
	d.inflBytes += len(ch.b)
	d.schedule()
}

func (d *dir) schedule() {
	if d.pump != nil || len(d.infl) == 0 || d.black {
		return
	}
	s := d.from.n.s
	at := d.infl[0].at
	if at.Before(d.stalled) {
		at = d.stalled
	}
	d.pump = s.AtTime(at, func() {
		d.pump = nil
		d.deliver()
	})
}

func (d *dir) release() {
	d.black = false
	d.stalled = time.Time{}
	d.fault = -1
	if d.pump != nil {
		d.from.n.s.Cancel(d.pump)
		d.pump = nil
	}
	d.schedule()
}

func (d *dir) deliver() {
	s := d.from.n.s
	if d.black || len(d.infl) == 0 || d.from.reset {
		return
	}
	ch := d.infl[0]
	if d.fault >= 0 && !d.from.n.Healed {
		if d.fault == 0 || d.fault < len(ch.b) {
			// deliver the part before the fault, then the fault
			k := d.fault
			if k > 0 {
				d.accept(ch.b[:k])
				d.infl[0].b = ch.b[k:]
				d.inflBytes -= k
			}
			d.fault = -1
			s.Stat("fault." + faultNames[d.faultKind])
			s.Logf("net: %v %s %s after %d bytes", d.from, d.dirName(), faultNames[d.faultKind], d.delivered)
			switch d.faultKind {
			case FaultReset:
				d.from.Reset()
				return
			case FaultStall:
				d.stalled = time.Now().Add(d.faultDur)
			case FaultBlackhole:
				d.black = true
				return
			case FaultFin:
				// the sending end disappears in an orderly way: rest is lost
				d.infl = []chunk{{fin: true, at: time.Now()}}
				d.inflBytes = 0
				d.finned = true
				d.schedule()
				if d.from.Lib {
					return // a middle box ended the stream; the sender does not know
				}
				d.from.Closed = true
				if d.from.OnLocalClose != nil {
					d.from.OnLocalClose(d.from)
				}
				if d.from.OnClose != nil {
					d.from.OnClose(d.from, false)
				}
				return
			}
			d.schedule()
			return
		}
		d.fault -= len(ch.b)
	}
	d.infl = d.infl[1:]
	d.inflBytes -= len(ch.b)
	if ch.fin {
		d.eof = true
		s.Logf("net: %v %s fin", d.from, d.dirName())
		if d.to.OnClose != nil && !d.to.Closed {
			d.to.OnClose(d.to, false)
		}
	} else {
		d.accept(ch.b)
	}
	d.schedule()
}

func (d *dir) dirName() string {
	if d.from.Dialer {
		return "c>s"
	}
	return "s>c"
}

func (d *dir) accept(b []byte) {
	c := d.to
	d.delivered += len(b)
	if c.Closed {
		// data for a closed socket is answered with a reset
		c.peerReset()
		return
	}
	if c.OnData != nil {
		c.OnData(c, b)
		return
	}
	d.buf = append(d.buf, b...)
}

// peerReset makes the other end see a connection reset.
func (c *Conn) peerReset() {
	p := c.peer
	if p.reset {
		return
	}
	p.reset = true
	p.in.buf = nil
	if p.OnClose != nil && !p.Closed {
		p.OnClose(p, true)
	}
}

// Reset aborts the connection for both ends.
func (c *Conn) Reset() {
	for _, x := range []*Conn{c, c.peer} {
		if !x.reset {
			x.reset = true
			x.in.buf = nil
			x.out.infl = nil
			x.out.inflBytes = 0
			if x.OnClose != nil && !x.Closed {
				x.OnClose(x, true)
			}
		}
	}
}

func (c *Conn) Close() error {
	SyncPoint("net close")
	return c.CloseNow()
}

// CloseNow closes without a scheduling point.
func (c *Conn) CloseNow() error {
	if c.Closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.Closed = true
	if c.Lib && c.Dialer {
		c.n.OpenLib--
	}
	if c.n.s.killing {
		return nil
	}
	c.n.s.Logf("net: %v closed by %s", c, map[bool]string{true: "dialer", false: "listener side"}[c.Dialer])
	if !c.reset {
		if len(c.in.buf) > 0 {
			c.peerReset()
		} else {
			c.out.send(chunk{fin: true})
		}
	}
	return nil
}

// LinkCfg is the shape of the connection.
func (c *Conn) LinkCfg() LinkConfig { return c.cfg }

// Listening tells whether the code under test accepts connections on a port.
func (n *Network) Listening(port string) bool {
	l := n.listeners[port]
	return l != nil && !l.closed
}

// UDPOpen tells whether a datagram socket is open.
func (n *Network) UDPOpen(key string) bool { return n.packets[key] != nil }

func (c *Conn) IsReset() bool        { return c.reset }
func (c *Conn) Peer() *Conn          { return c.peer }
func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }
func (c *Conn) Unread() int          { return len(c.in.buf) }
func (c *Conn) Delivered() int       { return c.in.delivered }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.Closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.rdl = t
	if c.rTask != nil {
		c.rTask.deadline = t
	}
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.Closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.wdl = t
	if c.wTask != nil {
		c.wTask.deadline = t
	}
	return nil
}

// harmless TCP specific setters
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetLinger(int) error                    { return nil }

// SetWindow changes the send window of the other end towards c.
func (c *Conn) SetPeerWindow(n int) { c.peer.cfg.Window = n }

// ---------------------------------------------------------------- listeners

type Listener struct {
	n      *Network
	addr   *net.TCPAddr
	q      []*Conn
	closed bool
}

func (l *Listener) Accept() (net.Conn, error) {
	s := l.n.s
	SyncPoint("accept")
	if !s.killing {
		s.Block("accept", func() bool { return l.closed || len(l.q) > 0 }, time.Time{})
	}
	if s.killing || l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	if l.n.AcceptErr != nil {
		if err := l.n.AcceptErr(); err != nil {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: err}
		}
	}
	c := l.q[0]
	l.q = l.q[1:]
	return c, nil
}
func (l *Listener) Close() error {
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	return nil
}
func (l *Listener) Addr() net.Addr { return l.addr }

func hostPort(address string) (string, string) {
	i := strings.LastIndex(address, ":")
	if i < 0 {
		return address, "0"
	}
	return address[:i], address[i+1:]
}

// ---------------------------------------------------------------- UDP

type packet struct {
	b    []byte
	from *net.UDPAddr
}

// PacketConn is a simulated UDP socket.
type PacketConn struct {
	n        *Network
	local    *net.UDPAddr
	remote   *net.UDPAddr
	q        []packet
	closed   bool
	rdl, wdl time.Time
	rTask    *Task
	OnPacket func(b []byte, from *net.UDPAddr)
	Lib      bool
}

func (n *Network) openUDP(local *net.UDPAddr, remote *net.UDPAddr) *PacketConn {
	p := &PacketConn{n: n, local: local, remote: remote}
	n.packets[udpKey(local)] = p
	return p
}

func udpKey(a *net.UDPAddr) string {
	if a.IP == nil || a.IP.IsUnspecified() {
		return "*:" + strconv.Itoa(a.Port)
	}
	return a.IP.String() + ":" + strconv.Itoa(a.Port)
}

// UDPEndpoint opens an event driven harness socket.
func (n *Network) UDPEndpoint(addr string, on func(b []byte, from *net.UDPAddr)) *PacketConn {
	h, p := hostPort(addr)
	port, _ := strconv.Atoi(p)
	pc := n.openUDP(&net.UDPAddr{IP: net.ParseIP(h), Port: port}, nil)
	pc.OnPacket = on
	return pc
}

func (p *PacketConn) sendTo(b []byte, to *net.UDPAddr) {
	n := p.n
	s := n.s
	b = append([]byte(nil), b...)
	from := p.local
	if from.IP == nil || from.IP.IsUnspecified() {
		from = &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: from.Port}
	}
	drop, dup, delay := false, 0, time.Duration(0)
	if n.UDP != nil {
		drop, dup, delay = n.UDP(udpKey(from), udpKey(to), b)
	}
	if drop {
		s.Stat("fault.udp_loss")
		return
	}
	if dup > 0 {
		s.Stat("fault.udp_dup")
	}
	for i := 0; i <= dup; i++ {
		s.After(delay*time.Duration(i+1), func() {
			d := n.packets[udpKey(to)]
			if d == nil || d.closed {
				d = n.packets["*:"+strconv.Itoa(to.Port)]
			}
			if d == nil || d.closed {
				return
			}
			if d.remote != nil && udpKey(d.remote) != udpKey(from) {
				return
			}
			if d.OnPacket != nil {
				d.OnPacket(b, from)
				return
			}
			if len(d.q) < 1000 {
				d.q = append(d.q, packet{b, from})
			}
		})
	}
}

func (p *PacketConn) ReadFrom(b []byte) (int, net.Addr, error) {
	s := p.n.s
	SyncPoint("udp read")
	for {
		if s.killing || p.closed {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: p.local, Err: net.ErrClosed}
		}
		if len(p.q) > 0 {
			if p.n.UDPReadErr != nil {
				if err := p.n.UDPReadErr(); err != nil {
					return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: p.local, Err: err}
				}
			}
			k := p.q[0]
			p.q = p.q[1:]
			m := copy(b, k.b)
			return m, k.from, nil
		}
		if !p.rdl.IsZero() && !time.Now().Before(p.rdl) {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Source: p.local, Err: os.ErrDeadlineExceeded}
		}
		p.rTask = cur
		s.park("udp read", func() bool {
			return p.closed || len(p.q) > 0 || (!p.rdl.IsZero() && !time.Now().Before(p.rdl))
		}, p.rdl)
		p.rTask = nil
	}
}
func (p *PacketConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	n, a, err := p.ReadFrom(b)
	if a == nil {
		return n, nil, err
	}
	return n, a.(*net.UDPAddr), err
}
func (p *PacketConn) WriteTo(b []byte, a net.Addr) (int, error) {
	SyncPoint("udp write")
	if p.closed || p.n.s.killing {
		return 0, &net.OpError{Op: "write", Net: "udp", Source: p.local, Err: net.ErrClosed}
	}
	u, ok := a.(*net.UDPAddr)
	if !ok {
		return 0, errors.New("not a UDP address")
	}
	p.sendTo(b, u)
	return len(b), nil
}
func (p *PacketConn) Read(b []byte) (int, error) { n, _, err := p.ReadFrom(b); return n, err }
func (p *PacketConn) Write(b []byte) (int, error) {
	SyncPoint("udp write")
	if p.closed || p.n.s.killing {
		return 0, &net.OpError{Op: "write", Net: "udp", Source: p.local, Err: net.ErrClosed}
	}
	if p.remote == nil {
		return 0, errors.New("not connected")
	}
	p.sendTo(b, p.remote)
	if p.n.UDPErr != nil {
		if err := p.n.UDPErr(udpKey(p.remote)); err != nil {
			p.n.s.Stat("fault.udp_error")
			return 0, &net.OpError{Op: "write", Net: "udp", Source: p.local, Err: err}
		}
	}
	return len(b), nil
}
func (p *PacketConn) Close() error {
	if p.closed {
		return net.ErrClosed
	}
	p.closed = true
	if p.n.packets[udpKey(p.local)] == p {
		delete(p.n.packets, udpKey(p.local))
	}
	return nil
}
func (p *PacketConn) LocalAddr() net.Addr { return p.local }
func (p *PacketConn) RemoteAddr() net.Addr {
	if p.remote == nil {
		return nil
	}
	return p.remote
}
func (p *PacketConn) SetDeadline(t time.Time) error      { return p.SetReadDeadline(t) }
func (p *PacketConn) SetWriteDeadline(t time.Time) error { p.wdl = t; return nil }
func (p *PacketConn) SetReadDeadline(t time.Time) error {
	p.rdl = t
	if p.rTask != nil {
		p.rTask.deadline = t
	}
	return nil
}

// OpenPacketSockets counts UDP sockets opened by the code under test.
func (n *Network) OpenPacketSockets() int {
	k := 0
	for _, p := range n.packets {
		if p.Lib && !p.closed && p.remote != nil {
			k++
		}
	}
	return k
}

// SendUDP injects a datagram.
func (n *Network) SendUDP(from, to string, b []byte) {
	h, p := hostPort(from)
	port, _ := strconv.Atoi(p)
	pc := &PacketConn{n: n, local: &net.UDPAddr{IP: net.ParseIP(h), Port: port}}
	h2, p2 := hostPort(to)
	port2, _ := strconv.Atoi(p2)
	pc.sendTo(b, &net.UDPAddr{IP: net.ParseIP(h2), Port: port2})
}

// ---------------------------------------------------------------- replaced net functions

var errNoSim = errors.New("simrt: network used outside a simulation")

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return dial(network, address, timeout)
}
func Dial(network, address string) (net.Conn, error) { return dial(network, address, 0) }

func dial(network, address string, timeout time.Duration) (net.Conn, error) {
	if S == nil {
		return nil, errNoSim
	}
	if strings.HasPrefix(network, "udp") {
		h, p := hostPort(address)
		port, err := strconv.Atoi(p)
		ip := net.ParseIP(h)
		if err != nil || (ip == nil && h != "") {
			return nil, &net.OpError{Op: "dial", Net: network, Err: &net.AddrError{Err: "bad address", Addr: address}}
		}
		n := S.Net
		n.nextPort++
		pc := n.openUDP(&net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: n.nextPort}, &net.UDPAddr{IP: ip, Port: port})
		pc.Lib = true
		return pc, nil
	}
	if !strings.HasPrefix(network, "tcp") {
		return nil, net.UnknownNetworkError(network)
	}
	local := ""
	if cur != nil {
		if t, ok := cur.Tag.(string); ok {
			local = t
		}
	}
	c, err := S.Net.Dial(local, address, timeout, true)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func Listen(network, address string) (net.Listener, error) {
	if S == nil {
		return nil, errNoSim
	}
	_, p := hostPort(address)
	if l := S.Net.listeners[p]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EADDRINUSE}
	}
	port, _ := strconv.Atoi(p)
	l := &Listener{n: S.Net, addr: &net.TCPAddr{IP: net.IPv4zero, Port: port}}
	S.Net.listeners[p] = l
	return l, nil
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	if S == nil {
		return nil, errNoSim
	}
	h, p := hostPort(address)
	port, _ := strconv.Atoi(p)
	pc := S.Net.openUDP(&net.UDPAddr{IP: net.ParseIP(h), Port: port}, nil)
	pc.Lib = true
	return pc, nil
}

func ListenUDP(network string, a *net.UDPAddr) (*PacketConn, error) {
	if S == nil {
		return nil, errNoSim
	}
	pc := S.Net.openUDP(a, nil)
	pc.Lib = true
	return pc, nil
}

func DialUDP(network string, l, r *net.UDPAddr) (*PacketConn, error) {
	c, err := dial("udp", r.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*PacketConn), nil
}

// Dialer replaces net.Dialer.
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	KeepAlive     time.Duration
	FallbackDelay time.Duration
	DualStack     bool
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	t := d.Timeout
	if !d.Deadline.IsZero() {
		u := time.Until(d.Deadline)
		if u <= 0 {
			return nil, &net.OpError{Op: "dial", Net: network, Err: os.ErrDeadlineExceeded}
		}
		if t == 0 || u < t {
			t = u
		}
	}
	return dial(network, address, t)
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	e := *d
	if dl, ok := ctx.Deadline(); ok {
		if e.Deadline.IsZero() || dl.Before(e.Deadline) {
			e.Deadline = dl
		}
	}
	return e.Dial(network, address)
}

// ListenConfig replaces net.ListenConfig.
type ListenConfig struct{ KeepAlive time.Duration }

func (l *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}
func (l *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}
