//go:build go1.23

package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// via is how a tag request travels.
type via struct {
	c     *oconn // on a connection, or
	route []byte // wrapped in an unconnected send
}

func (v via) String() string {
	if v.c != nil {
		return fmt.Sprintf("on connection %d", v.c.serial)
	}
	return fmt.Sprintf("unconnected to % x", v.route)
}

// send queues a tag request.
func (o *Orig) send(v via, r *sreq, m []byte) *sreq {
	r.desc += " " + v.String()
	if v.c != nil {
		return o.ud(r, v.c, m)
	}
	o.rr(r, embed(m, v.route))
	r.svc = m[0]
	return r
}

// tagReq is one read or write of a tag as it appears alone or in a list.
type tagReq struct {
	desc string
	m    []byte
	want int
	on   func(status byte, data []byte) // judges the reply
	size int                            // of the values read
	off  int                            // the bytes a conversion has to leave, and where
	vals []byte
}

// pre begins the names of the tags of an originator. A hostile one has names
// that no accident turns into those of another.
func (o *Orig) pre(inc int) string {
	if o.hostile {
		return fmt.Sprintf("zzattacker%dlife%d", o.idx, inc)
	}
	return fmt.Sprintf("o%di%d", o.idx, inc)
}

// owned lists the tags of a store that belong to this originator (in this incarnation).
func (o *Orig) owned(p *mprov, inc int) []*mtag {
	pre := o.pre(inc)
	var l []*mtag
	for _, n := range p.names {
		if strings.HasPrefix(n, pre) {
			l = append(l, p.tags[n])
		}
	}
	return l
}

// populate creates the tags of one incarnation of an originator.
func (w *SW) populate(p *mprov, o *Orig, inc int) {
	s := w.s
	pre := o.pre(inc)
	st := "cfg.tags"
	for i, n := 0, 2+s.Draw(st, 4); i < n; i++ {
		typ := srvTypes[s.Draw(st, len(srvTypes))]
		name := fmt.Sprintf("%s_s%d", pre, i)
		if s.Draw(st, 4) == 1 {
			name = fmt.Sprintf("%sprog.m%d", pre, i)
		}
		w.tag(p, name, typ, false, 1)
	}
	for i, n := 0, 1+s.Draw(st, 3); i < n; i++ {
		typ := srvTypes[s.Draw(st, len(srvTypes)-1)]
		sz := []int{2 + s.Draw(st, 8), 250 + s.Draw(st, 80)}[s.Pick(st, 5, 1)]
		name := fmt.Sprintf("%s_a%d", pre, i)
		if s.Draw(st, 5) == 1 {
			name = fmt.Sprintf("%sprog.arr%d", pre, i)
		}
		w.tag(p, name, typ, true, sz)
	}
	if w.crowd {
		w.crowd = false
		w.populateMany(p, pre)
	}
	if s.Pick(st, 12, 1) == 1 {
		w.tag(p, pre+"_big", []byte{tDINT, tREAL, tSINT, tLINT}[s.Draw(st, 4)], true, 17000+s.Draw(st, 9000))
	}
}

// populateMany creates more tags than fit in one list of their names.
func (w *SW) populateMany(p *mprov, pre string) {
	for i, n := 0, 200+w.s.Draw("cfg.tags", 150); i < n; i++ {
		w.tag(p, fmt.Sprintf("%s_%s%d", pre, strings.Repeat("n", 180+w.s.Draw("cfg.tags", 60)), i), tDINT, false, 1)
	}
}

// genTagReq draws a read or write of one of the originator's tags. The model
// follows at once: requests of one session are carried out in order.
func (o *Orig) genTagReq(st string, p *mprov, inc int, inList bool) *tagReq {
	w := o.w
	s := w.s
	l := o.owned(p, inc)
	t := l[s.Draw(st, len(l))]
	name := o.mixCase(st, t.name)
	es := t.es()
	q := &tagReq{}
	idx, k, off := -1, 1, 0
	if t.slice {
		switch s.Pick(st, 3, 3, 2) {
		case 1:
			idx = s.Draw(st, t.n)
			off = idx * es
		case 2:
			idx = s.Draw(st, t.n)
			off = idx * es
			k = 1 + s.Draw(st, t.n-idx)
		default:
			k = t.n
			if s.Draw(st, 3) == 1 {
				k = 1 + s.Draw(st, t.n)
			}
		}
	}
	path := tagPath(name, idx, s.Draw(st, 3))
	at := fmt.Sprintf("%s[%d]x%d", name, idx, k)
	large := t.n*es > 60000
	switch s.Pick(st, 10, 8, 3, 4, 2) {
	case 4: // write of values of another type, which are converted if they fit
		if o.genConvert(st, q, t, name) {
			return q
		}
		q.desc = "read " + at
		exp := t.data[off : off+k*es]
		q.size = len(exp)
		q.m = svcPath(0x4C, path, le16(uint16(k)))
		q.on = func(status byte, data []byte) { o.checkRead(q.desc, status, data, t.typ, exp, "wrong-data") }
	case 1: // write
		if t.slice && idx < 0 {
			k = t.n
		} else {
			k = 1
		}
		if large && idx < 0 {
			idx = s.Draw(st, t.n)
			off = idx * es
			k = 1
			path = tagPath(name, idx, 0)
		}
		var v []byte
		for i := 0; i < k; i++ {
			v = append(v, genElem(t.typ, w.next())...)
		}
		wire := v
		if t.typ == tSTRING && s.Draw(st, 3) == 1 {
			wire = nil // without the padding at the end of each string
			for i := 0; i < k; i++ {
				wire = append(wire, v[i*88:i*88+86]...)
			}
		}
		if len(wire)%2 == 1 && s.Draw(st, 2) == 1 {
			wire = append(append([]byte(nil), wire...), 0)
		}
		d := append([]byte(nil), t.data...)
		copy(d[off:], v)
		t.data = d
		q.desc = fmt.Sprintf("write %s[%d]x%d", name, idx, k)
		q.m = svcPath(0x4D, path, wireType(t.typ), le16(uint16(k)), wire)
		q.on = func(status byte, data []byte) {
			if len(data) != 0 {
				w.h.Violate("reply-mismatch", "%s: reply to %s has data: % x", o.name, q.desc, data)
			}
		}
	case 2: // fragmented read
		foff := 0
		if k > 1 {
			foff = es * s.Draw(st, k)
		}
		exp := t.data[off+foff : off+k*es]
		q.size = len(exp)
		q.desc = fmt.Sprintf("fragmented read %s from %d", at, foff)
		q.m = svcPath(0x52, path, le16(uint16(k)), le32(uint32(foff)))
		q.on = func(status byte, data []byte) { o.checkRead(q.desc, status, data, t.typ, exp, "wrong-data") }
	case 3: // what can't be served
		q.want = wantErr
		past := func(n int) int { return t.n + []int{0, s.Draw(st, n)}[s.Draw(st, 2)] }
		switch s.Draw(st, 12) {
		case 11: // a tag and then something else
			bad := cat(tagPath(name, -1, 0), [][]byte{{0x20, 0x6B}, {0x24, 1}, {0x30, 1}, {0x20, 0x6B, 0x24, 1}}[s.Draw(st, 4)])
			if s.Draw(st, 2) == 1 && !large {
				q.desc = fmt.Sprintf("write to a path that goes on after %s", name)
				var d []byte
				for i := 0; i < t.n; i++ {
					d = append(d, genElem(t.typ, w.next())...)
				}
				q.m = svcPath(0x4D, bad, wireType(t.typ), le16(uint16(t.n)), d)
				break
			}
			q.desc = fmt.Sprintf("read of a path that goes on after %s", name)
			q.m = svcPath(0x4C, bad, le16(1))
		case 9:
			q.desc = fmt.Sprintf("read over the end of %s", name)
			i := 0
			if t.slice {
				i = s.Draw(st, t.n)
			}
			q.m = svcPath(0x4C, tagPath(name, i, s.Draw(st, 3)), le16(uint16(t.n-i+1+[]int{0, s.Draw(st, 9)}[s.Draw(st, 2)])))
		case 10:
			if t.typ == tSTRING || large {
				q.desc = "read of a missing tag"
				q.m = svcPath(0x4C, tagPath("nosuch"+name, -1, 0), le16(1))
				break
			}
			q.desc = fmt.Sprintf("write with too much data to %s", name)
			d := make([]byte, t.n*es+2+s.Draw(st, 4))
			q.m = svcPath(0x4D, tagPath(name, -1, 0), wireType(t.typ), le16(uint16(t.n)), d)
		case 0:
			q.desc = "read of a missing tag"
			q.m = svcPath(0x4C, tagPath("nosuch"+name, -1, 0), le16(1))
		case 1:
			q.desc = fmt.Sprintf("read too much of %s", name)
			q.m = svcPath(0x4C, tagPath(name, -1, 0), le16(uint16(t.n+1+s.Draw(st, 5))))
		case 2:
			q.desc = fmt.Sprintf("read past the end of %s", name)
			q.m = svcPath(0x4C, tagPath(name, past(40), s.Draw(st, 3)), le16(1))
			if !t.slice {
				q.desc = "read an element of a scalar"
			}
		case 3:
			q.desc = fmt.Sprintf("write past the end of %s", name)
			q.m = svcPath(0x4D, tagPath(name, past(300), s.Draw(st, 3)), wireType(t.typ), le16(1), genElem(t.typ, w.next()))
		case 4:
			q.desc = "write to an element of a missing array"
			q.m = svcPath(0x4D, tagPath("nosuch"+name, 1, 0), wireType(t.typ), le16(1), genElem(t.typ, w.next()))
		case 5:
			q.desc = fmt.Sprintf("write with too few values to %s", name)
			q.m = svcPath(0x4D, tagPath(name, -1, 0), wireType(tLINT), le16(uint16(1+s.Draw(st, 9))), le32(77))
		case 6:
			q.desc = fmt.Sprintf("write of an unknown type to %s", name)
			q.m = svcPath(0x4D, tagPath(name, -1, 0), []byte{[]byte{0xB7, 0x00, 0x99, 0xA0}[s.Draw(st, 4)], 0}, le16(1), genElem(tLINT, w.next()))
		case 7:
			q.desc = fmt.Sprintf("write of an unknown structure to %s", name)
			q.m = svcPath(0x4D, tagPath(name, -1, 0), []byte{0xA0, 2, 0x34, 0x12}, le16(1), genElem(tSTRING, w.next()))
		case 8:
			q.desc = fmt.Sprintf("fragmented read past the end of %s", name)
			q.m = svcPath(0x52, tagPath(name, -1, 0), le16(uint16(t.n)), le32(uint32(t.n*es+1+[]int{s.Draw(st, 99999), s.Draw(st, 8), 1<<31 - 1 - t.n*es, 1 << 31, 1<<32 - 2 - t.n*es}[s.Draw(st, 5)])))
		}
	default:
		exp := t.data[off : off+k*es]
		q.size = len(exp)
		q.desc = "read " + at
		q.m = svcPath(0x4C, path, le16(uint16(k)))
		q.on = func(status byte, data []byte) { o.checkRead(q.desc, status, data, t.typ, exp, "wrong-data") }
	}
	return q
}

// intRange is the size in bits of an integer type and whether it has a sign.
func intRange(t byte) (bits uint, signed, ok bool) {
	switch t {
	case tSINT, tINT, tDINT, tLINT:
		return uint(typeSize(t)) * 8, true, true
	case tUSINT, tUINT, tUDINT, tLWORD:
		return uint(typeSize(t)) * 8, false, true
	}
	return 0, false, false
}

// inRange tells whether an integer type can hold v.
func inRange(t byte, v *big.Int) bool {
	bits, signed, _ := intRange(t)
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), bits)
	if signed {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	return v.Cmp(lo) >= 0 && v.Cmp(hi) < 0
}

// number is a value of an elementary type for numbers.
type number struct {
	i *big.Int // or a float
	f float64
}

// floor is the integer value of a finite number and whether it is all of it.
func (n number) floor() (*big.Int, bool) {
	if n.i != nil {
		return n.i, true
	}
	i, acc := big.NewFloat(n.f).Int(nil)
	return i, acc == big.Exact
}

func isFloat(t byte) bool { return t == tREAL || t == tLREAL }

// wire is the number as a value of type t, if t can hold it. The fraction of a
// float may be rounded.
func (n number) wire(t byte) ([]byte, bool) {
	if isFloat(t) {
		f := n.f
		if n.i != nil {
			f, _ = new(big.Float).SetInt(n.i).Float64()
		}
		if t == tLREAL {
			return le64(math.Float64bits(f)), true
		}
		if math.IsInf(float64(float32(f)), 0) && !math.IsInf(f, 0) {
			return nil, false
		}
		return le32(math.Float32bits(float32(f))), true
	}
	if n.i == nil && math.IsInf(n.f, 0) {
		return nil, false
	}
	i, exact := n.floor()
	if !exact || !inRange(t, i) {
		return nil, false
	}
	b := make([]byte, 8)
	m := new(big.Int).And(i, new(big.Int).SetUint64(1<<64-1)) // two's complement
	binary.LittleEndian.PutUint64(b, m.Uint64())
	return b[:typeSize(t)], true
}

// genConvert makes a write of numbers of another type than those of the array.
func (o *Orig) genConvert(st string, q *tagReq, t *mtag, name string) bool {
	s := o.w.s
	_, _, isInt := intRange(t.typ)
	if !t.slice || !isInt && !isFloat(t.typ) || t.n*t.es() > 60000 {
		return false
	}
	var from byte
	for {
		from = srvTypes[s.Draw(st, len(srvTypes))]
		if _, _, ok := intRange(from); (ok || isFloat(from)) && from != t.typ {
			break
		}
	}
	idx, k := -1, t.n
	if t.n*typeSize(from) > 60000 || s.Draw(st, 2) == 1 {
		idx, k = s.Draw(st, t.n), 1
	}
	fits := true
	var wire, vals []byte
	odd := s.Draw(st, 2*k) // where there may be a value that does not fit
	for i := 0; i < k; i++ {
		small := big.NewInt(int64(o.w.next() % 100))
		v := number{i: small}
		if isInt {
			bits, signed, _ := intRange(t.typ)
			lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), bits)
			if signed {
				hi.Rsh(hi, 1)
				lo.Neg(hi)
			}
			switch s.Draw(st, 4) {
			case 0:
				v.i = lo
			case 1:
				v.i = new(big.Int).Sub(hi, big.NewInt(1))
			}
			if i == odd {
				v.i = new(big.Int).Add([]*big.Int{hi, new(big.Int).Sub(lo, big.NewInt(2))}[s.Draw(st, 2)], big.NewInt(int64(s.Draw(st, 2))))
			}
			if isFloat(from) {
				f, _ := new(big.Float).SetInt(v.i).Float64()
				if from == tREAL {
					f = float64(float32(f))
				}
				if i == odd {
					f = []float64{f, math.Inf(1), math.Inf(-1), 0.5, 1e30}[s.Draw(st, 5)]
				}
				v = number{f: f}
			}
		} else {
			// what a REAL can hold without rounding, but for the big ones
			if s.Draw(st, 3) == 0 {
				small.Neg(small)
			}
			if isFloat(from) {
				f, _ := new(big.Float).SetInt(small).Float64()
				v = number{f: f / 4}
				if i == odd {
					v.f = []float64{math.Inf(1), math.Inf(-1), 1e300, -1e39, 3e38}[s.Draw(st, 5)]
				}
			}
		}
		b, ok := v.wire(from)
		if !ok {
			v = number{i: big.NewInt(int64(o.w.next() % 100))}
			b, _ = v.wire(from)
		} else if isFloat(from) && v.i == nil && v.f == 0 {
			v.f = 0 // no negative zero
			b, _ = v.wire(from)
		}
		if from == tREAL && v.i == nil {
			v.f = float64(math.Float32frombits(binary.LittleEndian.Uint32(b)))
		}
		x, ok := v.wire(t.typ)
		if !ok {
			fits = false
		}
		wire = append(wire, b...)
		vals = append(vals, x...)
	}
	q.desc = fmt.Sprintf("write %s[%d]x%d as type %#x", name, idx, k, from)
	q.m = svcPath(0x4D, tagPath(name, idx, s.Draw(st, 3)), wireType(from), le16(uint16(k)), wire)
	if !fits {
		q.desc += " with a value that does not fit"
		q.want = wantErr
		return true
	}
	q.off, q.vals = max(idx, 0)*t.es(), vals
	d := append([]byte(nil), t.data...)
	copy(d[q.off:], vals)
	t.data = d
	return true
}

// sendTag queues one tag request.
func (o *Orig) sendTag(v via, q *tagReq) *sreq {
	if v.c == nil && q.m[0] == 0x52 {
		q.want, q.on = wantAny, nil // the server does not offer it without a connection
	}
	r := &sreq{desc: q.desc, want: q.want}
	r.on = func(r *sreq) {
		if q.on != nil && (r.rep.status == 0 || r.rep.status == 6) && r.want == wantOK {
			q.on(r.rep.status, r.rep.data)
		}
	}
	return o.send(v, r, q.m)
}

// sendMulti queues a list of tag requests.
func (o *Orig) sendMulti(v via, qs []*tagReq) *sreq {
	var body []byte
	offs := le16(uint16(len(qs)))
	pos := 2 + 2*len(qs)
	names := ""
	for _, q := range qs {
		offs = append(offs, le16(uint16(pos))...)
		body = append(body, q.m...)
		pos += len(q.m)
		names += "; " + q.desc
	}
	r := &sreq{desc: fmt.Sprintf("list of %d%s", len(qs), names)}
	r.on = func(r *sreq) {
		bad := func(f string, a ...any) {
			o.w.h.Violate("reply-mismatch", "%s: reply to %s: %s: % x", o.name, r.desc, fmt.Sprintf(f, a...), r.rep.data[:min(len(r.rep.data), 120)])
		}
		parts, e := multiParts(r.rep.data, len(qs))
		if e != "" {
			bad("%s", e)
			return
		}
		failed, partial := false, false
		total := 0
		for _, q := range qs {
			total += q.size
		}
		for i, q := range qs {
			p := parts[i]
			if len(p) < 4 || len(p) < 4+2*int(p[3]) {
				bad("item %d is too short", i)
				return
			}
			if p[0] != q.m[0]|0x80 {
				bad("item %d has service %#x", i, p[0])
				return
			}
			if p[2] != 0 && p[2] != 6 {
				failed = true
			}
			if p[2] == 6 {
				partial = true
			}
			switch {
			case q.size > 0 && total > 60000 && p[2] == 0x11:
				continue // does not fit in the reply
			case q.want == wantOK && p[2] != 0 && p[2] != 6:
				o.w.h.Violate("wrong-status", "%s: item %d of %s was refused with status %#x", o.name, i, r.desc, p[2])
				return
			case q.want == wantErr && p[2] == 0:
				o.w.h.Violate("wrong-status", "%s: item %d of %s was answered with success although it can't be served", o.name, i, r.desc)
				return
			}
			if q.want == wantOK && q.on != nil {
				q.on(p[2], p[4+2*int(p[3]):])
			}
		}
		if failed && r.rep.status == 0 {
			o.w.h.Violate("wrong-status", "%s: %s has a failed item but status 0", o.name, r.desc)
		}
		if !failed && !partial && r.rep.status == 0x1E {
			o.w.h.Violate("wrong-status", "%s: %s has no failed item but status 0x1E", o.name, r.desc)
		}
	}
	return o.send(v, r, svcPath(0x0A, []byte{0x20, 2, 0x24, 1}, offs, body))
}

func multiParts(d []byte, n int) ([][]byte, string) {
	if len(d) < 2 || int(g16(d)) != n {
		return nil, "wrong number of items"
	}
	if len(d) < 2+2*n {
		return nil, "truncated offsets"
	}
	var out [][]byte
	for i := 0; i < n; i++ {
		a, b := int(g16(d[2+2*i:])), len(d)
		if i+1 < n {
			b = int(g16(d[4+2*i:]))
		}
		if a < 2+2*n || b < a || b > len(d) {
			return nil, "offsets out of order"
		}
		out = append(out, d[a:b])
	}
	return out, ""
}

// identity attributes of the server as NewServer sets them up
func (w *SW) attr(n int) []byte {
	switch v := anyAttr(w, n).(type) {
	case int16:
		return le16(uint16(v))
	case uint32:
		return le32(v)
	}
	return nil
}

// product is the name of the product as it can be told: a string of at most 255 bytes.
func (w *SW) product() string {
	v, _ := anyAttr(w, 7).(string)
	return v[:min(len(v), 255)]
}

// attrConfig gives the server another identity, as applications do.
func (w *SW) attrConfig() {
	s := w.s
	if s.Draw("cfg.ident", 3) > 0 {
		return
	}
	for n := 1; n <= 7; n++ {
		k := gologix.CIPAttribute(n)
		switch {
		case n <= 5:
			w.srv.Attributes[k] = int16(s.Draw("cfg.ident", 65536))
			if n == 4 {
				// clients address the tags of later revisions by number, which this server does not offer
				w.srv.Attributes[k] = int16(s.Draw("cfg.ident", 21) + s.Draw("cfg.ident", 128)<<8)
			}
		case n == 7:
			l := []int{0, 1, 31, 32, 33, 127, 128, 254, 255, 256, 257, 300, 256, 256}[s.Draw("cfg.ident", 14)]
			w.srv.Attributes[k] = strings.Repeat("Product#", l/8+1)[:l]
		}
	}
}

func anyAttr(w *SW, n int) any {
	for k, v := range w.srv.Attributes {
		if int(k) == n {
			return v
		}
	}
	return nil
}

// genOther queues a request that is not about tags by name.
func (o *Orig) genOther(st string, conns []*oconn) {
	w := o.w
	s := w.s
	h := w.h
	ok := func(desc string, cond bool, d []byte) {
		if !cond {
			h.Violate("wrong-data", "%s: reply to %s has the wrong data: % x", o.name, desc, d[:min(len(d), 80)])
		}
	}
	ident := func() []byte {
		d := cat(w.attr(1), w.attr(2), w.attr(3), w.attr(4), w.attr(5), w.attr(6))
		name := w.product()
		return cat(d, []byte{byte(len(name))}, []byte(name))
	}
	pick := func(r *sreq, m []byte) *sreq {
		if len(conns) > 0 && s.Draw(st, 2) == 1 {
			return o.ud(r, conns[s.Draw(st, len(conns))], m)
		}
		if s.Draw(st, 2) == 1 {
			x := o.rr(r, embed(m, []byte{1, 0}))
			x.svc = m[0]
			return x
		}
		return o.rr(r, m)
	}
	switch s.Draw(st, 14) {
	case 13:
		cmd := []uint16{0x6F, 0x70}[s.Draw(st, 2)]
		n := []int{0, 1, 5, 7, 8, 16, 40}[s.Draw(st, 7)]
		o.add(&sreq{cmd: cmd, encErr: true, desc: fmt.Sprintf("command %#x with a body of %d zeros", cmd, n)}, make([]byte, n))
	case 0:
		o.add(&sreq{cmd: 0, desc: "NOP"}, make([]byte, s.Draw(st, 5)))
	case 1:
		r := &sreq{cmd: 0x04, desc: "ListServices"}
		r.on = func(r *sreq) {
			ok(r.desc, len(r.raw) >= 26 && g16(r.raw) == 1 && g16(r.raw[2:]) == 0x100 && int(g16(r.raw[4:])) == len(r.raw)-6, r.raw)
			if len(r.raw) >= 10 {
				// version 1 of the protocol, over TCP, with class 1 connections over UDP
				ok(r.desc, g16(r.raw[6:]) == 1 && g16(r.raw[8:])&0x120 == 0x120, r.raw)
			}
		}
		o.add(r, nil)
	case 2:
		r := &sreq{cmd: 0x63, desc: "ListIdentity"}
		r.on = func(r *sreq) {
			b := r.raw
			ok(r.desc, len(b) > 6 && g16(b) == 1 && g16(b[2:]) == 0x0C && int(g16(b[4:])) == len(b)-6 &&
				len(b) > 6+18 && bytes.HasPrefix(b[24:], ident()), b)
			if len(b) > 24 {
				// version 1 of the protocol, an address of the family 2
				ok(r.desc, g16(b[6:]) == 1 && b[8] == 0 && b[9] == 2, b)
			}
		}
		o.add(r, nil)
	case 3:
		cmd := []uint16{0x64, 0x72, 0x01, 0x99, 0xFFFF, 0x72, 0x71}[s.Draw(st, 7)]
		o.add(&sreq{cmd: cmd, encErr: true, desc: fmt.Sprintf("unknown command %#x", cmd)}, make([]byte, []int{0, 1, 30, 700}[s.Draw(st, 4)]))
	case 4:
		svc := []byte{0x32, 0x4B, 0x06, 0x18, 0x7F}[s.Draw(st, 5)]
		pick(&sreq{want: wantErr, desc: fmt.Sprintf("unknown service %#x", svc)}, svcPath(svc, []byte{0x20, 1, 0x24, 1}, make([]byte, s.Draw(st, 20))))
	case 5:
		a := 1 + s.Draw(st, 7)
		r := &sreq{desc: fmt.Sprintf("identity attribute %d", a)}
		r.on = func(r *sreq) {
			if a == 7 {
				n := w.product()
				ok(r.desc, bytes.Contains(r.rep.data, []byte(n[:min(len(n), 82)])), r.rep.data)
				return
			}
			ok(r.desc, bytes.HasSuffix(r.rep.data, w.attr(a)) && len(r.rep.data) <= len(w.attr(a))+2, r.rep.data)
		}
		pick(r, svcPath(0x0E, []byte{0x20, 1, 0x24, 1, 0x30, byte(a)}))
	case 6:
		p := [][]byte{{0x20, 1, 0x24, 1, 0x30, 77}, {0x20, 0xF4, 0x24, 1, 0x30, 1}, {0x20, 1, 0x24, 9, 0x30, 1}, {0x21, 0, 0x47, 1, 0x24, 1, 0x30, 1}}[s.Draw(st, 4)]
		pick(&sreq{want: wantErr, desc: fmt.Sprintf("missing attribute % x", p)}, svcPath(0x0E, p))
	case 7:
		r := &sreq{desc: "all identity attributes"}
		r.on = func(r *sreq) { ok(r.desc, bytes.HasPrefix(r.rep.data, ident()), r.rep.data) }
		pick(r, svcPath(0x01, []byte{0x20, 1, 0x24, 1}))
	case 8:
		p := [][]byte{{0x20, 0xF5, 0x24, 1}, {0x20, 1, 0x24, 2}, {0x20, 0x64, 0x24, 3}}[s.Draw(st, 3)]
		pick(&sreq{want: wantErr, desc: fmt.Sprintf("all attributes of % x", p)}, svcPath(0x01, p))
	case 9:
		r := &sreq{desc: "all program attributes"}
		name := w.product()
		r.on = func(r *sreq) {
			ok(r.desc, bytes.HasPrefix(r.rep.data, append([]byte{byte(len(name))}, name...)), r.rep.data)
		}
		pick(r, svcPath(0x01, []byte{0x20, 0x64, 0x24, 1}))
	case 10:
		bad := &oconn{o: o, ot: 0xDEAD0000 + uint32(s.Draw(st, 1000)), seq: uint16(s.Draw(st, 60000))}
		o.ud(&sreq{want: wantErr, desc: "read on a connection that does not exist"}, bad, svcPath(0x4C, tagPath("x", -1, 0), le16(1)))
	case 11:
		// unconnected request to a route nobody serves
		x := o.rr(&sreq{want: wantErr, desc: "read from a route nobody serves"}, embed(svcPath(0x4C, tagPath("x", -1, 0), le16(1)), []byte{1, 9}))
		x.svc = 0x4C
	case 12:
		o.rr(&sreq{want: wantErr, desc: "forward close of a connection that does not exist"}, fcMsg(60000+uint16(s.Draw(st, 1000)), 77, 5))
	}
}

// custom queues a request through the 0xC8 class, by which the tags of the
// default store can be addressed by number. Only on stores without new tags.
func (o *Orig) custom(st string, p *mprov, inc int) {
	w := o.w
	s := w.s
	l := o.owned(p, inc)
	t := l[s.Draw(st, len(l))]
	names := append([]string(nil), p.names...)
	sort.Strings(names)
	inst := 0
	for i, n := range names {
		if n == t.name {
			inst = i + 1
		}
	}
	wrong := s.Draw(st, 6) == 0
	attr := byte(1)
	if wrong {
		switch s.Draw(st, 3) {
		case 0:
			inst = 0
		case 1:
			inst = len(names) + 1 + s.Draw(st, 1000)
		case 2:
			attr = []byte{0, 2, 255}[s.Draw(st, 3)]
		}
	}
	path := cat([]byte{0x20, 0xC8}, []byte{0x24, byte(inst)}, []byte{0x30, attr})
	if inst > 255 {
		path = cat([]byte{0x20, 0xC8}, []byte{0x25, 0}, le16(uint16(inst)), []byte{0x30, attr})
	}
	m := svcPath(0x0E, path)
	r := &sreq{desc: fmt.Sprintf("value of tag number %d (%s)", inst, t.name)}
	if wrong {
		r = &sreq{want: wantErr, desc: fmt.Sprintf("attribute %d of tag number %d of %d", attr, inst, len(names))}
		if s.Draw(st, 2) == 1 {
			m = svcPath(0x10, path, wireType(t.typ), le16(1), genElem(t.typ, 1))
		}
	} else if !t.slice && s.Draw(st, 2) == 1 {
		v := genElem(t.typ, w.next())
		t.data = v
		m = svcPath(0x10, path, wireType(t.typ), le16(1), v)
		r.desc = fmt.Sprintf("set tag number %d (%s)", inst, t.name)
	} else {
		exp := t.data[:t.es()]
		r.on = func(r *sreq) {
			if t.slice && t.typ == tSTRING {
				return
			}
			o.checkRead(r.desc, r.rep.status, r.rep.data, t.typ, exp, "wrong-data")
		}
	}
	if s.Draw(st, 2) == 1 {
		o.rr(r, embed(m, []byte{1, 0})).svc = m[0]
		return
	}
	o.rr(r, m)
}

// symType is the type of a tag in the symbol list.
func symType(t *mtag) uint16 {
	n := uint16(t.typ)
	if t.typ == tSTRING {
		n = 0x0FCE
	}
	if t.slice {
		n |= 1 << 13
	}
	return n
}

// symbols queues a listing of a store's tags. What does not fit in a reply is asked for again.
func (o *Orig) symbols(st string, c *oconn, p *mprov, start int, attrs []int) {
	w := o.w
	s := w.s
	if attrs == nil {
		attrs = [][]int{{1, 2}, {1, 2, 8}, {2, 1}, {1}, {8, 2}, {1, 2, 8, 1}}[s.Pick(st, 4, 3, 1, 1, 1, 1)]
		start = []int{0, 1, s.Draw(st, len(p.names)+3)}[s.Pick(st, 3, 1, 2)]
		if k := s.Draw(st, 12); k < 2 {
			path := []byte{0x20, []byte{0x6C, 0x68}[s.Draw(st, 2)], 0x25, 0, 0, 0}
			al := cat(le16(1), le16(1))
			if k == 1 {
				path[1] = 0x6B
				al = cat(le16(2), le16(1), le16(77))
			}
			o.ud(&sreq{want: wantErr, desc: fmt.Sprintf("instance list of % x, attributes % x", path, al)}, c, svcPath(0x55, path, al))
			return
		}
	}
	var al []byte
	for _, a := range attrs {
		al = append(al, le16(uint16(a))...)
	}
	r := &sreq{desc: fmt.Sprintf("symbol list of % x from %d, attributes %v", p.path, start, attrs)}
	r.on = func(r *sreq) {
		names := append([]string(nil), p.names...)
		sort.Strings(names)
		d := r.rep.data
		at := max(start, 1)
		for ; len(d) > 0; at++ {
			if at > len(names) {
				w.h.Violate("wrong-data", "%s: %s has more than the %d entries there are", o.name, r.desc, len(names))
				return
			}
			t := p.tags[names[at-1]]
			exp := le32(uint32(at))
			for _, a := range attrs {
				switch a {
				case 1:
					exp = cat(exp, le16(uint16(len(t.name))), []byte(t.name))
				case 2:
					exp = cat(exp, le16(symType(t)))
				case 8:
					n := 0
					if t.slice {
						n = t.n
					}
					exp = cat(exp, le32(uint32(n)), le32(0), le32(0))
				}
			}
			// the types of the same size are different names of the same thing
			if got := d[:min(len(d), len(exp))]; !bytes.Equal(got, exp) && !(len(got) == len(exp) && sameSym(got, exp, attrs, t)) {
				w.h.Violate("wrong-data", "%s: in the reply to %s the entry of instance %d (%s) is % x instead of % x", o.name, r.desc, at, t.name, got, exp)
				return
			}
			d = d[len(exp):]
		}
		switch {
		case r.rep.status == 0 && at <= len(names):
			w.h.Violate("wrong-data", "%s: the reply to %s ends before instance %d, but there are %d", o.name, r.desc, at, len(names))
		case r.rep.status == 6 && at == max(start, 1):
			w.h.Violate("wrong-data", "%s: the reply to %s has nothing", o.name, r.desc)
		case r.rep.status == 6:
			if at > len(names) {
				w.h.Violate("wrong-data", "%s: the reply to %s has all instances but status 6", o.name, r.desc)
			}
			if c.open && !o.dead {
				o.symbols(st, c, p, at, attrs)
				o.flush()
			}
		}
	}
	in := []byte{0x20, 0x6B, 0x25, 0, byte(start), byte(start >> 8)}
	if start < 256 && s.Draw(st, 3) == 1 {
		in = []byte{0x20, 0x6B, 0x24, byte(start)}
	}
	o.ud(r, c, svcPath(0x55, in, le16(uint16(len(attrs))), al))
}

// sameSym compares entries whose type may be given by another name of it.
func sameSym(got, exp []byte, attrs []int, t *mtag) bool {
	pos := 4
	for _, a := range attrs {
		n := []int{1: 2 + len(t.name), 2: 2, 8: 12}[a]
		g, e := got[pos:pos+n], exp[pos:pos+n]
		if a == 2 {
			if t.typ == tSTRING {
				// there is no template to refer to; only that it is (not) an array counts
				if (g16(g)^g16(e))&(3<<13) != 0 {
					return false
				}
			} else if g[1] != e[1] || !sameType(g[0], e[0]) {
				return false
			}
		} else if !bytes.Equal(g, e) {
			return false
		}
		pos += n
	}
	return bytes.Equal(got[:4], exp[:4])
}

// session is one TCP session of a well-behaved originator on its own tags.
func (o *Orig) session(st string, inc, batches int) {
	w := o.w
	s := w.s
	if s.Stopped() || !o.dial() {
		return
	}
	if s.Draw(st, 3) == 1 {
		o.add(&sreq{cmd: 0x63, desc: "ListIdentity before the session"}, nil)
	}
	o.register()
	o.flush()
	if !o.wait() {
		return
	}
	nc := s.Draw(st, 3)
	for i := 0; i < nc; i++ {
		p := w.provs[s.Draw(st, len(w.provs))]
		o.open(foParams{large: s.Draw(st, 2) == 1, ot: 0, to: uint32(0x1000*(o.idx+1)+inc*16+i) + 1, serial: uint16(s.Draw(st, 65536)), vendor: uint16(o.idx), osn: uint32(inc*16 + i), path: p.path, trigger: 0xA3, rpi: 2000000, size: 500}, wantOK)
		if s.Draw(st, 2) == 1 {
			o.flush()
		}
	}
	o.flush()
	if !o.wait() {
		return
	}
	for b := 0; b < batches && !s.Stopped() && !o.dead; b++ {
		bst := fmt.Sprintf("%s/b%d", st, b)
		n := 1 + s.Pick(bst, 4, 2, 2, 1, 1, 1)
		for i := 0; i < n; i++ {
			if s.Pick(bst, 4, 1) == 1 {
				o.flush() // requests pipelined in several segments
			}
			o.genReq(bst, inc)
		}
		o.flush()
		if s.Draw(bst, 4) == 1 && b+1 < batches {
			// more requests follow before the replies
			simrt.Sleep(s.Dur(bst, 0, 20*time.Millisecond))
			continue
		}
		if !o.wait() {
			return
		}
		if s.Draw(bst, 5) == 1 {
			simrt.Sleep(s.Dur(bst, 0, 3*time.Second))
		}
	}
	if s.Stopped() || o.dead {
		return
	}
	if !o.wait() {
		return
	}
	switch s.Draw(st, 4) {
	case 0:
		for _, c := range append([]*oconn(nil), o.conns...) {
			o.closeConn(c)
		}
		o.flush()
		o.wait()
		o.close(2)
	case 1:
		o.close(1)
	case 2:
		o.close(2)
	default:
		o.close(0)
	}
}

// genReq queues one request of any kind.
func (o *Orig) genReq(st string, inc int) {
	w := o.w
	s := w.s
	p := w.provs[s.Draw(st, len(w.provs))]
	v := via{route: p.path}
	var on []*oconn
	for _, c := range o.conns {
		if !c.io && !c.idle && c.open {
			on = append(on, c)
		}
	}
	for _, c := range on {
		if s.Draw(st, 3) > 0 {
			v = via{c: c}
			for _, q := range w.provs {
				if bytes.Equal(q.path, c.path) {
					p = q
				}
			}
			break
		}
	}
	switch s.Pick(st, 12, 5, 5, 1, 2) {
	case 1:
		if v.c == nil {
			o.sendTag(v, o.genTagReq(st, p, inc, false))
			return
		}
		var qs []*tagReq
		var last *tagReq
		n := 1 + s.Draw(st, 6)
		if s.Pick(st, 15, 1) == 1 {
			n = 20 + s.Draw(st, 50)
		}
		for i := 0; i < n; i++ {
			q := o.genTagReq(st, p, inc, true)
			if len(q.m) > 1000 {
				last = q // too large for a list
				break
			}
			qs = append(qs, q)
		}
		defer func() {
			if last != nil {
				o.sendTag(v, last)
			}
		}()
		if len(qs) > 0 {
			o.sendMulti(v, qs)
		}
	case 2:
		o.genOther(st, on)
	case 3:
		if w.attacked {
			o.genOther(st, on) // others may add tags, which changes the numbers
			return
		}
		o.custom(st, w.provs[0], inc)
	case 4:
		if v.c != nil && !w.attacked {
			o.symbols(st, v.c, p, 0, nil)
			return
		}
		fallthrough
	default:
		o.sendTag(v, o.genTagReq(st, p, inc, false))
	}
}

// runRequests is one run of the C10 check.
func runRequests(h *H) {
	w := newSW(h)
	s := w.s
	switch h.Pick("cfg.faulty", 5, 3, 3) {
	case 1:
		w.faultLinks(false, 70)
	case 2:
		w.faultLinks(true, 60)
	}
	w.store(false, 1, 0)
	w.store(false, 1, 1)
	w.crowd = h.Pick("cfg.crowd", 24, 1) == 1
	no := 1 + h.Pick("cfg.origs", 4, 3, 2)
	incs := 2
	for i := 0; i < no; i++ {
		o := w.orig()
		for k := 0; k < incs; k++ {
			for _, p := range w.provs {
				w.populate(p, o, k)
			}
		}
	}
	w.attrConfig()
	w.start()
	if s.Stopped() {
		return
	}
	var ts []*simrt.Task
	for _, o := range w.origs {
		o := o
		n := 2 + s.Draw("cfg.nops", 6)
		ts = append(ts, s.Go(o.name, func() {
			for k := 0; k < incs && !s.Stopped(); k++ {
				o.session(fmt.Sprintf("op/%s/%d", o.name, k), k, n)
			}
		}))
	}
	s.Join(ts...)
	if s.Stopped() {
		return
	}
	w.closing()
	w.checkStores()
	h.Nontrivial = true
}

// checkStores compares the stores with the model once all is done.
func (w *SW) checkStores() {
	if w.cuts || w.s.Stopped() {
		return
	}
	for _, p := range w.provs {
		for _, n := range p.names {
			if strings.HasPrefix(n, "zz") {
				continue
			}
			t := p.tags[n]
			qty := int16(1)
			if t.slice {
				qty = int16(t.n)
			}
			v, err := p.m.TagRead(n, qty)
			if err != nil {
				w.h.Violate("wrong-data", "application reads %s: %v", n, err)
				return
			}
			if fmt.Sprint(v) != fmt.Sprint(goTagValue(t)) {
				w.h.Violate("wrong-data", "the store has %s = %.80v instead of %.80v", n, v, goTagValue(t))
				return
			}
		}
	}
}

var srvKeys = []string{"serve-ended", "not-serving", "session-ended", "no-reply", "extra-reply", "reply-mismatch", "wrong-status", "wrong-data", "leaked-task", "not-released"}

func init() {
	register(&Check{Prop: "C10", Keys: srvKeys, Scen: []Scen{{Name: "requests", Weight: 1, Run: runRequests}}})
}
