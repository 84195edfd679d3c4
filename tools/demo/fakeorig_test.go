package gologix

// A small originator and a server to talk to, for demonstrations.

import (
	"encoding/binary"
	"io"
	"log/slog"
	"net"
	"testing"
	"time"
)

// a server with its session and datagram listeners on free ports
func fakeServer(t *testing.T, routes map[string]CIPEndpoint) *Server {
	r := NewRouter()
	for p, e := range routes {
		r.Handle([]byte(p), e)
	}
	srv := NewServer(r)
	srv.Logger = slog.New(slog.NewTextHandler(io.Discard, nil))
	srv.ConnMgr.Init(srv.Logger)
	var err error
	srv.TCPListener, err = net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	srv.UDPListener, err = net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go srv.serveTCP()
	go srv.serveUDP()
	t.Cleanup(func() { srv.TCPListener.Close(); srv.UDPListener.Close() })
	return srv
}

type fakeOrig struct {
	t   *testing.T
	c   net.Conn
	udp net.Conn
	ctx uint64
	seq uint16
}

func newFakeOrig(t *testing.T, srv *Server, local string) *fakeOrig {
	d := net.Dialer{Timeout: time.Second, LocalAddr: &net.TCPAddr{IP: net.ParseIP(local)}}
	c, err := d.Dial("tcp", srv.TCPListener.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	u, err := net.Dial("udp", srv.UDPListener.LocalAddr().String())
	if err != nil {
		t.Fatal(err)
	}
	o := &fakeOrig{t: t, c: c, udp: u, ctx: 1}
	t.Cleanup(func() { c.Close(); u.Close() })
	o.exchange(0x65, []byte{1, 0, 0, 0})
	return o
}

func (o *fakeOrig) send(cmd uint16, ctx uint64, body []byte) {
	b := binary.LittleEndian.AppendUint16(nil, cmd)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(body)))
	b = append(b, make([]byte, 8)...)
	b = binary.LittleEndian.AppendUint64(b, ctx)
	b = append(b, 0, 0, 0, 0)
	if _, err := o.c.Write(append(b, body...)); err != nil {
		o.t.Fatal(err)
	}
}

// recv returns the header and the body of the next reply
func (o *fakeOrig) recv() (h, body []byte) {
	o.c.SetReadDeadline(time.Now().Add(3 * time.Second))
	h = make([]byte, 24)
	if _, err := io.ReadFull(o.c, h); err != nil {
		o.t.Fatal("no reply: ", err)
	}
	body = make([]byte, binary.LittleEndian.Uint16(h[2:]))
	if _, err := io.ReadFull(o.c, body); err != nil {
		o.t.Fatal("no reply: ", err)
	}
	return
}

func (o *fakeOrig) exchange(cmd uint16, body []byte) (h, b []byte) {
	o.ctx++
	o.send(cmd, o.ctx, body)
	return o.recv()
}

func foItems(items ...[]byte) []byte {
	b := []byte{0, 0, 0, 0, 0, 0, byte(len(items)), 0}
	for _, i := range items {
		b = append(b, i...)
	}
	return b
}

func foItem(id uint16, d []byte) []byte {
	b := binary.LittleEndian.AppendUint16(nil, id)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(d)))
	return append(b, d...)
}

// ucmm sends an unconnected request and returns what follows the service code of the reply: reserved, status, extended
// size, data
func (o *fakeOrig) ucmm(m []byte) []byte {
	_, b := o.exchange(0x6F, foItems(foItem(0, nil), foItem(0xB2, m)))
	return b[16:]
}

// open opens a connection and returns its identifier, 0 if it was refused
func (o *fakeOrig) open(serial uint16, ot, to uint32, trigger byte, rpi uint32, path []byte) uint32 {
	m := []byte{0x54, 2, 0x20, 6, 0x24, 1, 10, 14}
	m = binary.LittleEndian.AppendUint32(m, ot)
	m = binary.LittleEndian.AppendUint32(m, to)
	m = binary.LittleEndian.AppendUint16(m, serial)
	m = append(m, 0x4D, 0, 1, 2, 3, 4, 3, 0, 0, 0)
	m = binary.LittleEndian.AppendUint32(m, rpi)
	m = append(m, 0xF4, 0x43)
	m = binary.LittleEndian.AppendUint32(m, rpi)
	m = append(m, 0xF4, 0x43, trigger, byte(len(path)/2))
	r := o.ucmm(append(m, path...))
	if len(r) < 12 || r[2] != 0 {
		return 0
	}
	return binary.LittleEndian.Uint32(r[4:])
}

// unit sends a request on a connection and returns the service reply
func (o *fakeOrig) unit(id uint32, m []byte) []byte {
	o.seq++
	d := binary.LittleEndian.AppendUint16(nil, o.seq)
	_, b := o.exchange(0x70, foItems(foItem(0xA1, binary.LittleEndian.AppendUint32(nil, id)), foItem(0xB1, append(d, m...))))
	if len(b) < 22 {
		o.t.Fatalf("no reply to a connected request: % x", b)
	}
	return b[22:]
}

// output sends an I/O packet
func (o *fakeOrig) output(id, seq uint32, data []byte) {
	a := binary.LittleEndian.AppendUint32(nil, id)
	a = binary.LittleEndian.AppendUint32(a, seq)
	d := binary.LittleEndian.AppendUint32(nil, seq)
	d = append(d, 1, 0)
	p := foItems(foItem(0x8002, a), foItem(0xB1, append(d, data...)))[6:]
	if _, err := o.udp.Write(p); err != nil {
		o.t.Fatal(err)
	}
}

func foTag(tag string) []byte {
	p := append([]byte{0x91, byte(len(tag))}, tag...)
	if len(p)%2 == 1 {
		p = append(p, 0)
	}
	return append([]byte{byte(len(p) / 2)}, p...)
}
