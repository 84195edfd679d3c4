package gologix

// A small stand-in for a controller, for demonstrations.

import (
	"encoding/binary"
	"io"
	"net"
	"sync"
	"testing"
	"time"
)

type fakePLC struct {
	t      *testing.T
	l      net.Listener
	port   uint
	mu     sync.Mutex
	nextID uint32
	opens  int
	closes int
	// handle answers a connected request: reply service data after the 4 byte
	// header. nil status means no answer at all.
	handle func(n int, svc byte, path, data []byte) (status byte, body []byte, send bool)
	reqs   int
	live   int // open sockets
	maxReq int
	seqs   []uint16
	// status of the replies to forward closes
	closeStatus byte
	ext         []byte                                        // size in words of the extended status and the status, if any
	raw         func(n int, frame []byte, conn net.Conn) bool // true: handled
}

func newFakePLC(t *testing.T) *fakePLC {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	p := &fakePLC{t: t, l: l, port: uint(l.Addr().(*net.TCPAddr).Port), nextID: 0x1000}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			p.live++
			p.mu.Unlock()
			go p.serve(c)
		}
	}()
	t.Cleanup(func() { l.Close() })
	return p
}

func (p *fakePLC) client() *Client {
	c := NewClient("127.0.0.1")
	c.Controller.Port = p.port
	c.SocketTimeout = 500 * time.Millisecond
	c.knownFirmware = 20
	return c
}

func (p *fakePLC) count() (opens, closes, live, reqs int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.opens, p.closes, p.live, p.reqs
}

func fpReply(frame []byte, payload []byte) []byte {
	r := append([]byte(nil), frame[:24]...)
	binary.LittleEndian.PutUint16(r[2:], uint16(len(payload)))
	binary.LittleEndian.PutUint32(r[8:], 0)
	return append(r, payload...)
}

func fpItem(id uint16, d []byte) []byte {
	b := binary.LittleEndian.AppendUint16(nil, id)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(d)))
	return append(b, d...)
}

func (p *fakePLC) serve(c net.Conn) {
	defer func() {
		c.Close()
		p.mu.Lock()
		p.live--
		p.mu.Unlock()
	}()
	id := uint32(0)
	for {
		h := make([]byte, 24)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		body := make([]byte, binary.LittleEndian.Uint16(h[2:]))
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		frame := append(h, body...)
		switch binary.LittleEndian.Uint16(h) {
		case 0x65:
			r := fpReply(frame, body)
			binary.LittleEndian.PutUint32(r[4:], 0x55)
			c.Write(r)
		case 0x6F:
			m := body[16:]
			switch m[0] {
			case 0x54, 0x5B:
				p.mu.Lock()
				p.nextID++
				id = p.nextID
				p.opens++
				p.mu.Unlock()
				d := []byte{m[0] | 0x80, 0, 0, 0}
				d = binary.LittleEndian.AppendUint32(d, id)
				d = append(d, m[12:16]...)
				d = append(d, m[16:24]...)
				d = append(d, make([]byte, 10)...)
				c.Write(fpReply(frame, append([]byte{0, 0, 0, 0, 0, 0, 2, 0}, append(fpItem(0, nil), fpItem(0xB2, d)...)...)))
			case 0x4E:
				p.mu.Lock()
				p.closes++
				p.mu.Unlock()
				d := []byte{0xCE, 0, p.closeStatus, 0}
				d = append(d, m[8:16]...)
				d = append(d, 0, 0)
				c.Write(fpReply(frame, append([]byte{0, 0, 0, 0, 0, 0, 2, 0}, append(fpItem(0, nil), fpItem(0xB2, d)...)...)))
			default:
				return
			}
		case 0x70:
			p.mu.Lock()
			p.reqs++
			n := p.reqs
			p.mu.Unlock()
			if p.raw != nil && p.raw(n, frame, c) {
				continue
			}
			m := body[20:]
			p.mu.Lock()
			p.seqs = append(p.seqs, binary.LittleEndian.Uint16(m))
			if len(m) > p.maxReq {
				p.maxReq = len(m)
			}
			p.mu.Unlock()
			svc := m[2]
			pl := int(m[3]) * 2
			st, rb, send := p.handle(n, svc, m[4:4+pl], m[4+pl:])
			if !send {
				continue
			}
			ext := p.ext
			if ext == nil {
				ext = []byte{0}
			}
			d := append(append([]byte{m[0], m[1], svc | 0x80, 0, st}, ext...), rb...)
			to := binary.LittleEndian.AppendUint32(nil, id)
			c.Write(fpReply(frame, append([]byte{0, 0, 0, 0, 0, 0, 2, 0}, append(fpItem(0xA1, to), fpItem(0xB1, d)...)...)))
		default:
			return
		}
	}
}
