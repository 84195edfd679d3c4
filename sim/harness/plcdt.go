//go:build go1.23

package harness

// Data table buffers of the reference controller (class 0xB2).

type dtBuf struct {
	id     uint32
	serial int
	conn   *plcConn
	tags   []dtTag
	next   uint16 // index of the last tag added
	batch  uint16 // number of the last add request
}

type dtTag struct {
	idx, batch uint16
	tg         *target
}

func (p *PLC) refuse(b *dtBuf, st byte, why string) (bool, byte, []byte) {
	p.s.Logf("plc: data table request refused: %s", why)
	if p.dtRefused != nil {
		p.dtRefused(b, why)
	}
	return true, st, nil
}

// dataTable answers requests on the data table class.
func (p *PLC) dataTable(svc byte, path []seg, data []byte, c *plcConn) (bool, byte, []byte) {
	if len(path) != 2 || path[0].kind != 'c' || path[0].n != 0xB2 || path[1].kind != 'i' {
		return false, 0, nil
	}
	id := path[1].n
	if svc == 0x08 {
		if id != 0 || len(data) != 6 {
			p.bad("data table create on instance %d with %d bytes", id, len(data))
			return p.refuse(nil, 0x13, "malformed")
		}
		n := max(p.nextDT, p.dtBase) + 1
		if p.dtLow {
			for n = p.dtBase + 1; p.dt[n] != nil; n++ {
			}
		}
		if len(p.dt) >= 40 {
			return p.refuse(nil, 0x02, "resources")
		}
		p.nextDT = n
		p.dtSerial++
		b := &dtBuf{id: n, serial: p.dtSerial}
		if p.s.Draw("plc.dt", 3) == 1 {
			b.batch = uint16(p.s.Draw("plc.dt", 60000))
		}
		if !p.dtKeep {
			b.conn = c
		}
		p.dt[n] = b
		p.s.Logf("plc: data table %d created (#%d)", n, b.serial)
		p.s.Stat("dt.created")
		return true, 0, le16(uint16(n))
	}
	b := p.dt[id]
	if b == nil || b.conn != nil && b.conn != c {
		return p.refuse(nil, 0x05, "no such buffer")
	}
	switch svc {
	case 0x09:
		delete(p.dt, id)
		p.s.Logf("plc: data table %d deleted", id)
		return true, 0, nil
	case 0x4E:
		if len(data) < 5 || data[0] != 2 || data[1] != 0 || data[2] != 1 || data[3] != 1 {
			p.bad("data table add with % x", trunc(data, 8))
			return p.refuse(b, 0x13, "malformed")
		}
		n := int(data[4])
		r := data[5:]
		if n == 0 {
			return p.refuse(b, 0x13, "nothing to add")
		}
		var add []dtTag
		for i := 0; i < n; i++ {
			if len(r) < 3 || len(r) < 3+2*int(r[2]) {
				p.bad("data table add of %d tags ends in tag %d", n, i+1)
				return p.refuse(b, 0x13, "malformed")
			}
			size := int(g16(r))
			segs, err := parsePath(r[3 : 3+2*int(r[2])])
			r = r[3+2*int(r[2]):]
			if err != nil {
				return p.refuse(b, 0x04, "tag path")
			}
			tg, st := p.resolve(segs)
			if st != 0 {
				return p.refuse(b, st, "tag")
			}
			if size != tg.es {
				return p.refuse(b, 0xFF, "size")
			}
			add = append(add, dtTag{b.next + uint16(i) + 1, b.batch + 1, tg})
		}
		if len(r) != 0 {
			p.bad("data table add of %d tags with %d bytes left over", n, len(r))
			return p.refuse(b, 0x15, "malformed")
		}
		b.tags = append(b.tags, add...)
		b.next += uint16(n)
		b.batch++
		p.s.Logf("plc: data table %d: batch %d of %d tags", id, b.batch, n)
		return true, 0, le16(b.batch)
	case 0x4C:
		var out []byte
		last := uint16(0)
		for _, t := range b.tags {
			if t.batch != last {
				out = append(out, le16(t.batch)...)
				last = t.batch
			}
			out = append(out, t.tg.bytes(1)...)
		}
		if len(out) > c.Size-6 {
			return p.refuse(b, 0x11, "room")
		}
		return true, 0, out
	case 0x4F:
		if len(data) != 2 {
			p.bad("data table remove with %d bytes", len(data))
			return p.refuse(b, 0x13, "malformed")
		}
		for i, t := range b.tags {
			if t.idx == g16(data) {
				b.tags = append(b.tags[:i:i], b.tags[i+1:]...)
				p.s.Logf("plc: data table %d: tag %d removed", id, t.idx)
				return true, 0, nil
			}
		}
		return p.refuse(b, 0x05, "index")
	}
	return p.refuse(b, 0x08, "service")
}
