//go:build go1.23

package harness

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// The library's own client against its own server: several real clients, the
// application that shares the tags, and a network that may fail for some of
// the clients.

// refuser is a tag store of an application that refuses some tags, and takes
// its time for others.
type refuser struct {
	*gologix.MapTagProvider
	s *simrt.Sim
}

var errRefused = errors.New("not for you")

func (r *refuser) TagRead(tag string, qty int16) (any, error) {
	tag = strings.ToLower(tag)
	if strings.HasPrefix(tag, "noread") {
		return nil, errRefused
	}
	if strings.HasPrefix(tag, "slow") {
		simrt.Sleep(slowTime)
	}
	return r.MapTagProvider.TagRead(tag, qty)
}

func (r *refuser) TagWrite(tag string, value any) error {
	tag = strings.ToLower(tag)
	if strings.HasPrefix(tag, "nowrite") {
		return errRefused
	}
	return r.MapTagProvider.TagWrite(tag, value)
}

const slowTime = 4 * time.Second

// iop is one operation on one tag in the history.
type iop struct {
	*lop
	frag bool
}

// interop is the world of one run.
type interop struct {
	w     *SW
	l     *lin
	cs    []*icl
	hist  map[string][]*iop
	provs map[byte]*mprov
	fresh int
	links map[*icl]int
}

// icl is one real client.
type icl struct {
	x      *interop
	c      *gologix.Client
	name   string
	slot   byte
	p      *mprov
	faulty bool
	tasks  int
	life   bool // several tasks, one of which may disconnect
	ka     bool
	T      time.Duration
	conns  int
	own    map[string]int32 // tags created by this client
}

func (x *interop) key(p *mprov, t *mtag) string { return fmt.Sprintf("%d/%s", p.path[1], t.name) }

// add puts an operation into the history.
func (x *interop) add(c *icl, t *mtag, o *lop, frag bool) {
	x.l.nsess++
	o.sess = x.l.nsess
	x.l.nord++
	o.ord = x.l.nord
	o.who = c.name
	k := x.key(c.p, t)
	x.hist[k] = append(x.hist[k], &iop{o, frag})
}

func (x *interop) pick(c *icl, st string) *mtag {
	s := x.w.s
	return c.p.tags[c.p.names[s.Draw(st, len(c.p.names))]]
}

// ireq is a place a client reads or writes.
type ireq struct {
	t    *mtag
	name string
	off  int // bytes
	n    int
	sl   bool
	idx  int
}

func (c *icl) mix(st, name string) string {
	switch c.x.w.s.Draw(st, 4) {
	case 1:
		return strings.ToUpper(name)
	}
	return name
}

// place draws what to access.
func (c *icl) place(st string, write, scalar bool) *ireq {
	x := c.x
	s := x.w.s
	for {
		t := x.pick(c, st)
		if strings.HasPrefix(t.name, "noread") && !write || strings.HasPrefix(t.name, "nowrite") && write || strings.HasPrefix(t.name, "slow") {
			if s.Draw(st, 4) > 0 {
				continue
			}
		}
		if strings.HasPrefix(t.name, "big") && (scalar || s.Draw(st, 3) > 0) && s.Draw(st, 2) == 0 {
			continue
		}
		r := &ireq{t: t, name: c.mix(st, t.name), n: 1, idx: -1}
		if !t.slice {
			return r
		}
		k := s.Draw(st, 3)
		if scalar {
			k = 1
		}
		switch k {
		case 1: // one element
			r.idx = s.Draw(st, t.n)
			if s.Draw(st, 4) == 1 {
				r.idx = t.n - 1
			}
		case 2: // from an element on
			if write {
				r.sl, r.n = true, t.n
				return r
			}
			r.sl = true
			r.idx = s.Draw(st, t.n)
			r.n = 1 + s.Draw(st, t.n-r.idx)
		default:
			r.sl, r.n = true, t.n
			if !write && s.Draw(st, 3) == 1 {
				r.n = 1 + s.Draw(st, t.n)
			}
		}
		if r.idx >= 0 {
			r.name += fmt.Sprintf("[%d]", r.idx)
			r.off = r.idx * t.es()
		}
		return r
	}
}

func (r *ireq) zero() any {
	rt := goTypes[r.t.typ]
	if r.sl {
		return reflect.MakeSlice(reflect.SliceOf(rt), r.n, r.n).Interface()
	}
	return reflect.Zero(rt).Interface()
}

func (r *ireq) String() string {
	if r.sl {
		return fmt.Sprintf("%s x%d", r.name, r.n)
	}
	return r.name
}

// icall is one call of a client function.
type icall struct {
	start, end uint64
	dur        time.Duration
	err        error
	stalled    bool
}

// call runs one client function. want tells what has to come out of it when nothing goes wrong.
func (c *icl) call(op string, want int, slow int, f func() error) *icall {
	x := c.x
	s := x.w.s
	net := s.Net
	r := &icall{start: x.w.h.Tick()}
	t0 := s.Now()
	wr, di := net.LibWrites, net.LibDials
	s.Logf("%s: call %s", c.name, op)
	r.err = f()
	r.end = x.w.h.Tick()
	r.dur = s.Now() - t0
	stall := s.StallSince(t0)
	r.stalled = stall > 0
	s.Logf("%s: done %s: %v after %v", c.name, op, r.err == nil, r.dur)
	if r.err != nil {
		s.Notef("    error: %v", r.err)
	}
	if s.Stopped() {
		return r
	}
	calm := !c.faulty && !c.life
	if want == wantErr && r.err == nil {
		x.w.h.Violate("not-told", "%s: %s succeeded although the server must have refused it", c.name, op)
	}
	if want == wantOK && r.err != nil && calm && stall == 0 {
		x.w.h.Violate("spurious-error", "%s: %s failed (%v) although neither the network nor the server had a reason to", c.name, op, r.err)
	}
	// what the call has to wait for: other tasks of the same client that use the connection as well
	limit := time.Duration(slow)*slowTime*time.Duration(c.tasks) + 3*time.Second
	if c.tasks > 1 && c.p.rec == nil && c.slot == 1 {
		limit += slowTime * time.Duration(8*c.tasks)
	}
	if calm && r.dur > limit+stall {
		x.w.h.Violate("slow-call", "%s: %s took %v of simulated time on a working network", c.name, op, r.dur)
	}
	n := net.LibWrites - wr + 1
	d := net.LibDials - di
	if b := 3*c.T*time.Duration(n) + c.T*time.Duration(d) + stall + time.Second; r.dur > b {
		x.w.h.Violate("unbounded", "%s: %s took %v, more than %v", c.name, op, r.dur, b)
	}
	return r
}

// got judges a value that was read.
func (c *icl) got(op string, r *ireq, ci *icall, v any) {
	x := c.x
	b, ok := encodeVal(r.t.typ, v)
	if !ok || len(b) != r.n*r.t.es() {
		x.w.h.Violate("wrong-value", "%s: %s returned %T %.100v for %d elements of %s", c.name, op, v, v, r.n, typeName(r.t.typ))
		return
	}
	x.add(c, r.t, &lop{off: r.off, val: b, start: ci.start, end: ci.end, desc: op}, len(b) > 60000)
}

func (c *icl) wantRead(rs ...*ireq) (want, slow int) {
	for _, r := range rs {
		if strings.HasPrefix(r.t.name, "noread") {
			want = wantErr
		}
		if strings.HasPrefix(r.t.name, "slow") {
			slow++
		}
		// the client does not put structures together from several replies
		if r.t.typ == tSTRING && r.n*r.t.es() > 60000 && want == wantOK {
			want = wantAny
		}
	}
	return
}

func (c *icl) read(st string) {
	r := c.place(st, false, false)
	want, slow := c.wantRead(r)
	op := fmt.Sprintf("Read(%s)", r)
	if r.sl {
		dst := reflect.ValueOf(r.zero())
		ci := c.call(op, want, slow, func() error { return c.c.Read(r.name, dst.Interface()) })
		if ci.err == nil {
			c.got(op, r, ci, dst.Interface())
		}
		return
	}
	dst := reflect.New(goTypes[r.t.typ])
	ci := c.call(op, want, slow, func() error { return c.c.Read(r.name, dst.Interface()) })
	if ci.err == nil {
		c.got(op, r, ci, dst.Elem().Interface())
	}
}

// several draws places for a request for several tags.
func (c *icl) several(st string, max int) []*ireq {
	seen := map[string]bool{}
	var out []*ireq
	for i, n := 0, 1+c.x.w.s.Draw(st, max); i < n; i++ {
		r := c.place(st, false, true)
		if c.x.w.s.Draw(st, 3) == 1 {
			if q := c.place(st, false, false); q.n <= 20 && !(q.sl && q.n == 1) {
				r = q
			}
		}
		if !seen[strings.ToLower(r.name)] {
			seen[strings.ToLower(r.name)] = true
			out = append(out, r)
		}
	}
	return out
}

func reqNames(rs []*ireq) string {
	var ns []string
	for _, r := range rs {
		ns = append(ns, r.String())
	}
	return strings.Join(ns, " ")
}

func (c *icl) readMap(st string) {
	rs := c.several(st, 6)
	m := map[string]any{}
	for _, r := range rs {
		m[r.name] = r.zero()
	}
	want, slow := c.wantRead(rs...)
	op := "ReadMap(" + reqNames(rs) + ")"
	ci := c.call(op, want, slow, func() error { return c.c.ReadMap(m) })
	if ci.err != nil {
		return
	}
	for _, r := range rs {
		c.got(op, r, ci, m[r.name])
	}
}

func (c *icl) readList(st string) {
	rs := c.several(st, 12)
	var ns []string
	var ts []any
	var es []int
	for _, r := range rs {
		ns = append(ns, r.name)
		ts = append(ts, r.zero())
		es = append(es, r.n)
	}
	want, slow := c.wantRead(rs...)
	op := "ReadList(" + reqNames(rs) + ")"
	var out []any
	ci := c.call(op, want, slow, func() (err error) { out, err = c.c.ReadList(ns, ts, es); return })
	if ci.err != nil {
		return
	}
	if len(out) != len(rs) {
		c.x.w.h.Violate("wrong-value", "%s: %s returned %d results", c.name, op, len(out))
		return
	}
	for i, r := range rs {
		v := out[i]
		if r.sl && r.n == 1 {
			if rv := reflect.ValueOf(v); rv.Kind() != reflect.Slice {
				v = []any{v}
				r.sl = false
				v = out[i]
			}
		}
		c.got(op, r, ci, flattenAs(r, v))
	}
}

// flattenAs makes a typed slice of the []any some functions return.
func flattenAs(r *ireq, v any) any {
	l, ok := v.([]any)
	if !ok {
		return v
	}
	out := reflect.MakeSlice(reflect.SliceOf(goTypes[r.t.typ]), 0, len(l))
	for _, e := range l {
		rv := reflect.ValueOf(e)
		if !rv.IsValid() || rv.Type() != goTypes[r.t.typ] {
			return v
		}
		out = reflect.Append(out, rv)
	}
	return out.Interface()
}

func (c *icl) readMulti(st string) {
	rs := c.several(st, 5)
	var fs []reflect.StructField
	for i, r := range rs {
		rt := goTypes[r.t.typ]
		if r.sl {
			rt = reflect.SliceOf(rt)
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: rt, Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, r.name))})
	}
	v := reflect.New(structOf(fs))
	for i, r := range rs {
		if r.sl {
			v.Elem().Field(i).Set(reflect.ValueOf(r.zero()))
		}
	}
	want, slow := c.wantRead(rs...)
	op := "ReadMulti(" + reqNames(rs) + ")"
	ci := c.call(op, want, slow, func() error { return c.c.ReadMulti(v.Interface()) })
	if ci.err != nil {
		return
	}
	for i, r := range rs {
		c.got(op, r, ci, v.Elem().Field(i).Interface())
	}
}

var structTypes = map[string]reflect.Type{}

// structOf avoids making the same type again and again; types are never freed.
func structOf(fs []reflect.StructField) reflect.Type {
	k := fmt.Sprint(fs)
	if t := structTypes[k]; t != nil {
		return t
	}
	t := reflect.StructOf(fs)
	structTypes[k] = t
	return t
}

// value draws a value for a place. Only the value is new if the type can tell.
func (c *icl) value(r *ireq) ([]byte, any) {
	var b []byte
	for i := 0; i < r.n; i++ {
		b = append(b, genElem(r.t.typ, c.x.w.next())...)
	}
	return b, goTagValue(&mtag{typ: r.t.typ, slice: r.sl, n: r.n, data: b})
}

func canon(t byte, b []byte) []byte {
	if t != tBOOL {
		return b
	}
	o := make([]byte, len(b))
	for i := range b {
		if b[i] != 0 {
			o[i] = 1
		}
	}
	return o
}

func (c *icl) wrote(op string, r *ireq, ci *icall, b []byte) {
	o := &lop{write: true, off: r.off, val: canon(r.t.typ, b), start: ci.start, end: ci.end, desc: op}
	if ci.err != nil {
		o.end = never
	}
	c.x.add(c, r.t, o, false)
}

// writeWant tells how a write has to end.
func (c *icl) writeWant(rs ...*ireq) int {
	want := wantOK
	for _, r := range rs {
		switch {
		case strings.HasPrefix(r.t.name, "nowrite"):
			return wantErr
		case r.sl && (r.t.typ == tBOOL || r.t.typ == tSTRING || len(r.t.data) > 30000):
			want = wantAny
		}
	}
	return want
}

func (c *icl) write(st string) {
	r := c.place(st, true, false)
	b, v := c.value(r)
	op := fmt.Sprintf("Write(%s)", r)
	ci := c.call(op, c.writeWant(r), 0, func() error { return c.c.Write(r.name, v) })
	c.wrote(op, r, ci, b)
}

func (c *icl) writeMap(st string) {
	s := c.x.w.s
	m := map[string]any{}
	seen := map[*mtag]bool{}
	var rs []*ireq
	var bs [][]byte
	for i, n := 0, 1+s.Draw(st, 5); i < n; i++ {
		r := c.place(st, true, s.Draw(st, 2) == 0)
		if seen[r.t] || len(r.t.data) > 2000 && r.sl {
			continue
		}
		seen[r.t] = true
		b, v := c.value(r)
		m[r.name] = v
		rs = append(rs, r)
		bs = append(bs, b)
	}
	if len(rs) == 0 {
		return
	}
	op := "WriteMap(" + reqNames(rs) + ")"
	if s.Draw(st, 3) == 1 {
		var fs []reflect.StructField
		for i, r := range rs {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(m[r.name]), Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, r.name))})
		}
		v := reflect.New(structOf(fs)).Elem()
		for i, r := range rs {
			v.Field(i).Set(reflect.ValueOf(m[r.name]))
		}
		op = "WriteMulti(" + reqNames(rs) + ")"
		ci := c.call(op, c.writeWant(rs...), 0, func() error { return c.c.WriteMulti(v.Interface()) })
		for i, r := range rs {
			c.wrote(op, r, ci, bs[i])
		}
		return
	}
	ci := c.call(op, c.writeWant(rs...), 0, func() error { return c.c.WriteMap(m) })
	for i, r := range rs {
		c.wrote(op, r, ci, bs[i])
	}
}

// wrong asks for what the server can't give.
func (c *icl) wrong(st string) {
	s := c.x.w.s
	t := c.x.pick(c, st)
	slow := 0
	if strings.HasPrefix(t.name, "slow") {
		slow = 1
	}
	switch s.Draw(st, 6) {
	case 0:
		var v int32
		c.call("Read(missing tag)", wantErr, 0, func() error { return c.c.Read("not_there", &v) })
	case 1:
		m := map[string]any{"not_there": int32(0), t.name: (&ireq{t: t, n: t.n, sl: t.slice}).zero()}
		c.call("ReadMap(missing tag and "+t.name+")", wantErr, slow, func() error { return c.c.ReadMap(m) })
	case 2:
		if t.slice {
			dst := reflect.New(goTypes[t.typ])
			c.call(fmt.Sprintf("Read(%s[%d]) of %d", t.name, t.n, t.n), wantErr, slow, func() error { return c.c.Read(fmt.Sprintf("%s[%d]", t.name, t.n), dst.Interface()) })
			return
		}
		dst := reflect.MakeSlice(reflect.SliceOf(goTypes[t.typ]), 2+s.Draw(st, 3), 6)
		c.call(fmt.Sprintf("Read(%s) of %d elements of a scalar", t.name, dst.Len()), wantErr, slow, func() error { return c.c.Read(t.name, dst.Interface()) })
	case 3:
		if t.slice {
			r := &ireq{t: t, n: 1}
			_, v := c.value(r)
			c.call(fmt.Sprintf("Write(%s[%d]) of %d", t.name, t.n, t.n), wantErr, 0, func() error { return c.c.Write(fmt.Sprintf("%s[%d]", t.name, t.n), v) })
			return
		}
		fallthrough
	case 4:
		if t.typ == tSTRING {
			return
		}
		dst := ""
		c.call(fmt.Sprintf("Read(%s) as a string", t.name), wantErr, slow, func() error { return c.c.Read(t.name, &dst) })
	case 5:
		k := s.Draw(st, 3)
		c.call(fmt.Sprintf("unsupported service %d", k), wantErr, 0, func() (err error) {
			switch k {
			case 0:
				_, err = c.c.GetAttrList(0xAC, 1, 1, 2)
			case 1:
				_, err = c.c.GenericCIPMessage(0x4B, []byte{0x20, 1, 0x24, 1}, []byte{1, 2})
			default:
				_, err = c.c.GetAttrSingle(1, 1, 99)
			}
			return
		})
	}
}

// create writes a tag the store does not have, or uses it again.
func (c *icl) create(st string) {
	x := c.x
	s := x.w.s
	if c.tasks > 1 {
		return
	}
	v := int32(x.w.next()) * 77
	name := fmt.Sprintf("made_%s_%d", c.name, s.Draw(st, 3))
	if old, ok := c.own[name]; ok && s.Draw(st, 3) > 0 {
		var got int32
		ci := c.call("Read("+name+")", wantOK, 0, func() error { return c.c.Read(c.mix(st, name), &got) })
		if ci.err == nil && got != old {
			x.w.h.Violate("wrong-value", "%s: reading back %s gave %d instead of %d", c.name, name, got, old)
		}
		return
	}
	delete(c.own, name)
	ci := c.call("Write("+name+")", wantOK, 0, func() error { return c.c.Write(c.mix(st, name), v) })
	if ci.err == nil {
		c.own[name] = v
	}
}

// attrs asks for what the server says about itself.
func (c *icl) attrs(st string) {
	w := c.x.w
	s := w.s
	// these need a connection
	up := wantOK
	if !c.c.Connected() || c.ka {
		up = wantAny
	}
	switch s.Draw(st, 3) {
	case 0:
		a := 1 + s.Draw(st, 6)
		var it *gologix.CIPItem
		op := fmt.Sprintf("GetAttrSingle(identity, %d)", a)
		ci := c.call(op, wantOK, 0, func() (err error) {
			it, err = c.c.GetAttrSingle(gologix.CIPClass(1), 1, gologix.CIPAttribute(a))
			return
		})
		if ci.err == nil && !bytes.Equal(it.Rest(), w.attr(a)) {
			w.h.Violate("wrong-value", "%s: %s returned % x instead of % x", c.name, op, it.Rest(), w.attr(a))
		}
	case 1:
		ci := c.call("ListIdentity()", up, 0, func() error {
			id, err := c.c.ListIdentity()
			if err != nil {
				return err
			}
			name := w.product()
			if uint16(id.Vendor) != g16(w.attr(1)) || id.ProductName != name || !bytes.Equal(le32(id.SerialNumber), w.attr(6)) {
				w.h.Violate("wrong-value", "%s: ListIdentity returned %+v", c.name, *id)
			}
			return nil
		})
		_ = ci
	case 2:
		c.call("ListServices()", up, 0, func() error {
			l, err := c.c.ListServices()
			if err == nil && (len(l) != 1 || l[0].Capabilities&0x120 != 0x120) {
				w.h.Violate("wrong-value", "%s: ListServices returned %d services", c.name, len(l))
			}
			return err
		})
	}
}

// list compares the client's catalogue with the store.
func (c *icl) list() {
	x := c.x
	ci := c.call("ListAllTags()", wantOK, 0, func() error { return c.c.ListAllTags(0) })
	if ci.err != nil || x.w.s.Stopped() || c.tasks > 1 {
		return
	}
	names := map[string]bool{}
	for k, kt := range c.c.KnownTags {
		names[strings.ToLower(k)] = true
		t := c.p.tags[strings.ToLower(k)]
		if t == nil {
			if !strings.HasPrefix(strings.ToLower(k), "made_") {
				x.w.h.Violate("wrong-catalogue", "%s: ListAllTags found %q, which does not exist", c.name, k)
			}
			continue
		}
		dims := kt.Array_Order
		if t.slice && (len(dims) == 0 || dims[0] != t.n) || !t.slice && len(dims) > 0 && dims[0] > 1 {
			x.w.h.Violate("wrong-catalogue", "%s: ListAllTags says that %s has dimensions %v", c.name, k, dims)
		}
	}
	var missing []string
	for n := range c.p.tags {
		// symbols named like programs are taken for programs
		if !names[n] && !strings.HasPrefix(n, "program:") {
			missing = append(missing, n)
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		x.w.h.Violate("wrong-catalogue", "%s: ListAllTags did not find %v", c.name, missing)
	}
}

func (c *icl) connect() {
	was := c.c.Connected()
	want := wantOK
	if was {
		want = wantErr
	}
	if c.tasks > 1 || c.ka || c.faulty {
		want = wantAny
	}
	ci := c.call("Connect()", want, 0, func() error { return c.c.Connect() })
	if c.tasks == 1 && !was && ci.err == nil && !c.c.Connected() && !c.faulty && !c.ka {
		c.x.w.h.Violate("lifecycle", "%s: not connected after Connect", c.name)
	}
}

func (c *icl) disconnect() {
	was := c.c.Connected()
	want := wantOK
	if !was {
		want = wantErr
	}
	if c.tasks > 1 || c.ka || c.faulty {
		want = wantAny
	}
	c.call("Disconnect()", want, 0, func() error { return c.c.Disconnect() })
	if c.tasks == 1 && c.c.Connected() {
		c.x.w.h.Violate("lifecycle", "%s: connected after Disconnect", c.name)
	}
}

func (c *icl) op(st string) {
	s := c.x.w.s
	life := 3
	if c.tasks > 1 && !c.life {
		life = 0
	}
	switch s.Pick(st, 10, 6, 5, 5, 12, 8, 4, 2, 1, life, life, 3, 3) {
	case 1:
		c.readMap(st)
	case 2:
		c.readList(st)
	case 3:
		c.readMulti(st)
	case 4:
		c.write(st)
	case 5:
		c.writeMap(st)
	case 6:
		c.wrong(st)
	case 7:
		c.attrs(st)
	case 8:
		c.list()
	case 9:
		c.connect()
	case 10:
		c.disconnect()
	case 11:
		simrt.Sleep(s.Dur(st, 0, []time.Duration{300 * time.Millisecond, 20 * time.Second}[s.Pick(st, 3, 1)]))
	case 12:
		c.create(st)
	default:
		c.read(st)
	}
}

// tags fills a store.
func (x *interop) tags(p *mprov, extra bool) {
	w := x.w
	s := w.s
	all := []byte{tDINT, tSINT, tINT, tREAL, tLINT, tLREAL, tUSINT, tUINT, tUDINT, tLWORD, tSTRING, tBOOL, tDINT, tDINT}
	names := []string{"speed", "pump.speed", "line[2].rate", "program:main.local", "a_rather_long_tag_name_to_have_around", "x"}
	for i, n := 0, 2+s.Draw("cfg.tags", 6); i < n; i++ {
		t := all[s.Draw("cfg.tags", len(all))]
		name := fmt.Sprintf("tag%d", i)
		if s.Draw("cfg.tags", 3) == 1 {
			name = names[i%len(names)]
		}
		// arrays of BOOL are arrays of DWORD for the client
		if s.Draw("cfg.tags", 2) == 0 || t == tBOOL {
			w.tag(p, name, t, false, 1)
		} else {
			w.tag(p, name, t, true, []int{2, 9, 40, 300}[s.Draw("cfg.tags", 4)])
		}
	}
	if s.Draw("cfg.tags", 4) == 1 {
		w.tag(p, "bigarr", []byte{tDINT, tLINT, tSTRING, tINT}[s.Draw("cfg.tags", 4)], true, []int{900, 17000, 32767}[s.Draw("cfg.tags", 3)])
	}
	if s.Draw("cfg.tags", 25) == 1 {
		w.populateMany(p, "crowd")
	}
	if extra {
		w.tag(p, "noread1", tDINT, false, 1)
		w.tag(p, "nowrite1", tDINT, false, 1)
		w.tag(p, "nowrite2", tINT, true, 5)
		w.tag(p, "slow1", tDINT, false, 1)
	}
	for _, t := range p.tags {
		t.data = canon(t.typ, t.data)
		x.l.init[x.key(p, t)] = t.data
	}
}

func runInterop(h *H) {
	w := newSW(h)
	s := w.s
	x := &interop{w: w, hist: map[string][]*iop{}, provs: map[byte]*mprov{}}
	x.l = &lin{w: w, hist: map[string][]*lop{}, init: map[string][]byte{}}
	p0 := w.store(false, 1, 0)
	p1 := &mprov{path: []byte{1, 1}, m: &gologix.MapTagProvider{}, tags: map[string]*mtag{}}
	w.router.Handle(p1.path, &refuser{p1.m, s})
	w.provs = append(w.provs, p1)
	x.tags(p0, false)
	x.tags(p1, true)
	x.l.p = p0
	faulty := h.Pick("cfg.faulty", 2, 3) == 1
	h.Faulty = faulty
	lat := []time.Duration{0, time.Millisecond, 30 * time.Millisecond}[s.Pick("cfg.lat", 2, 4, 2)]
	seg := s.Pick("cfg.seg", 3, 4, 1)
	win := []int{0, 3000}[s.Pick("cfg.win", 3, 1)]
	if lat > time.Millisecond {
		win = 0
	}
	w.maxLat = lat
	for i, n := 0, 1+s.Pick("cfg.clients", 2, 3, 2); i < n; i++ {
		c := &icl{x: x, name: fmt.Sprintf("c%d", i), own: map[string]int32{}, tasks: 1 + s.Pick("cfg.tasks", 4, 2, 1)}
		ip := fmt.Sprintf("10.0.%d.9", i)
		c.c = gologix.NewClient(ip)
		c.c.Logger = nolog{}
		c.T = []time.Duration{10 * time.Second, 20 * time.Second}[s.Draw("cfg.T", 2)]
		c.c.SocketTimeout = c.T
		c.c.ConnectionSize = []uint16{4000, 511, 504, 1000}[s.Draw("cfg.cs", 4)]
		c.slot = byte(s.Pick("cfg.slot", 3, 1))
		c.p = []*mprov{p0, p1}[c.slot]
		c.c.Controller.Path, _ = gologix.ParsePath(fmt.Sprintf("1,%d", c.slot))
		c.ka = s.Draw("cfg.ka", 3) == 1
		c.c.KeepAliveAutoStart = c.ka
		c.c.KeepAliveFrequency = []time.Duration{30 * time.Second, 5 * time.Second}[s.Draw("cfg.ka", 2)]
		c.faulty = faulty && s.Draw("cfg.faulty", 2) == 1
		c.life = c.tasks > 1 && s.Draw("cfg.life", 3) == 1
		x.cs = append(x.cs, c)
	}
	s.Net.Link = func(id int, addr string) simrt.LinkConfig {
		l := simrt.LinkConfig{LatMin: lat / 4, LatMax: lat, Seg: seg, Window: win}
		for _, c := range x.cs {
			if c.c.Controller.IpAddress+":44818" != addr || !c.faulty {
				continue
			}
			if s.Chance("fault.link", 60) {
				kinds := []int{simrt.FaultStall, simrt.FaultReset, simrt.FaultFin, simrt.FaultBlackhole}
				l.FaultKind = kinds[s.Draw("fault.link", 4)]
				l.FaultDir = s.Draw("fault.link", 2)
				l.FaultAt = s.Draw("fault.link", []int{200, 1000, 6000}[s.Draw("fault.link", 3)])
				l.FaultDur = s.Dur("fault.link", time.Millisecond, c.T*2)
			}
		}
		return l
	}
	w.attrConfig()
	w.start()
	if s.Stopped() {
		return
	}
	var ts []*simrt.Task
	for _, c := range x.cs {
		for k := 0; k < c.tasks; k++ {
			name := fmt.Sprintf("%s.%d", c.name, k)
			n := 2 + s.Draw("cfg.nops", 9)
			ts = append(ts, s.Go(name, func() {
				for i := 0; i < n && !s.Stopped(); i++ {
					c.op(opStream(name, i))
				}
			}))
		}
	}
	for i, na := 0, s.Pick("cfg.apps", 2, 2, 1); i < na; i++ {
		name := fmt.Sprintf("app%d", i)
		n := 2 + s.Draw("cfg.nops", 10)
		ts = append(ts, s.Go(name, func() { x.app(name, n) }))
	}
	s.Join(ts...)
	if s.Stopped() {
		return
	}
	s.Logf("workload done")
	if n := s.Net.OpenLib; n > len(x.cs) {
		h.Violate("two-sockets", "%d clients have %d sockets open", len(x.cs), n)
	}
	s.Net.Heal()
	x.recover()
	if s.Stopped() {
		return
	}
	for _, c := range x.cs {
		if c.c.Connected() {
			c.disconnect()
		}
		if s.Stopped() {
			return
		}
	}
	// keep-alives end within a period
	simrt.Sleep(time.Minute + s.Cfg.StallMax)
	if s.Stopped() {
		return
	}
	if n := s.Net.OpenLib; n > 0 {
		h.Violate("leaked-socket", "all clients are disconnected but %d sockets are open", n)
	}
	w.closing()
	if s.Stopped() {
		return
	}
	x.judge()
}

// app is the application at work on the tags.
func (x *interop) app(name string, n int) {
	w := x.w
	s := w.s
	for i := 0; i < n && !s.Stopped(); i++ {
		st := opStream(name, i)
		p := w.provs[s.Draw(st, 2)]
		t := p.tags[p.names[s.Draw(st, len(p.names))]]
		c := &icl{x: x, name: name, p: p}
		idx, off, k := x.l.span(st, t)
		tag := t.name
		if idx >= 0 {
			tag = fmt.Sprintf("%s[%d]", tag, idx)
		}
		o := &lop{off: off, start: w.h.Tick()}
		if s.Draw(st, 2) == 1 {
			if idx >= 0 {
				k = 1
			}
			var b []byte
			for e := 0; e < k; e++ {
				b = append(b, genElem(t.typ, w.next())...)
			}
			err := p.m.TagWrite(tag, goTagValue(&mtag{typ: t.typ, slice: t.slice && idx < 0, n: k, data: b}))
			if err != nil {
				w.h.Violate("app-error", "application write of %s: %v", tag, err)
				return
			}
			o.write, o.val, o.desc = true, canon(t.typ, b), "application writes "+tag
		} else {
			v, err := p.m.TagRead(tag, int16(k))
			if err != nil {
				w.h.Violate("app-error", "application read of %d elements of %s: %v", k, tag, err)
				return
			}
			b, ok := encodeVal(t.typ, v)
			if !ok || len(b) != k*t.es() {
				w.h.Violate("wrong-value", "application read of %d elements of %s returned %T %.100v", k, tag, v, v)
				return
			}
			o.val, o.desc = b, "application reads "+tag
		}
		o.end = w.h.Tick()
		x.add(c, t, o, false)
		if s.Draw(st, 3) > 0 {
			simrt.Sleep(s.Dur(st, 0, 500*time.Millisecond))
		}
	}
}

// recover checks that every client works again on a healed network.
func (x *interop) recover() {
	s := x.w.s
	for _, c := range x.cs {
		c.tasks, c.life = 1, false
		fails := 0
		for i := 0; i < 5; i++ {
			t := c.p.tags[c.p.names[0]]
			r := &ireq{t: t, name: t.name, n: t.n, sl: t.slice}
			if t.slice {
				r.n, r.sl = 1, false
				r.name += "[0]"
			}
			dst := reflect.New(goTypes[t.typ])
			was := c.faulty
			if fails == 0 && i < 3 {
				c.faulty = true // the connection may be broken already
			}
			ci := c.call("recovery Read("+r.name+")", wantAny, 0, func() error { return c.c.Read(r.name, dst.Interface()) })
			c.faulty = was
			if s.Stopped() {
				return
			}
			if ci.err == nil {
				c.got("recovery read", r, ci, dst.Elem().Interface())
				break
			}
			if fails++; fails >= 4 {
				x.w.h.Violate("no-recovery", "%s: %d reads in a row failed after the faults had stopped, the last with: %v", c.name, fails, ci.err)
				return
			}
		}
	}
}

// judge looks at the history.
func (x *interop) judge() {
	w := x.w
	s := w.s
	for _, p := range w.provs {
		for _, n := range p.names {
			t := p.tags[n]
			o := &lop{desc: "final read of " + n, start: w.h.Tick()}
			v, err := p.m.TagRead(n, int16(t.n))
			if err != nil {
				w.h.Violate("app-error", "final read of %s: %v", n, err)
				return
			}
			b, ok := encodeVal(t.typ, v)
			if !ok || len(b) != len(t.data) {
				w.h.Violate("wrong-value", "final read of %s returned %T %.100v", n, v, v)
				return
			}
			o.val, o.end = b, w.h.Tick()
			x.add(&icl{x: x, name: "final", p: p}, t, o, false)
			k := x.key(p, t)
			ops := x.hist[k]
			frag := len(t.data) > 60000
			for _, o := range ops {
				frag = frag || o.frag
			}
			if frag || len(t.data) > 5000 {
				if !x.bytewise(k, t, ops) {
					return
				}
				continue
			}
			var use []*lop
			for _, o := range ops {
				use = append(use, o.lop)
			}
			ok, decided, best := linearize(x.l.init[k], use, 200000)
			s.StatN("lin.ops", int64(len(use)))
			if !decided {
				s.Stat("lin.undecided")
				continue
			}
			if !ok {
				w.h.Violate("not-linearizable", "%s", explain(k, x.l.init[k], use, best, t))
				return
			}
		}
	}
	w.h.Nontrivial = true
}

// bytewise checks each element of a large array on its own: a read has to return what some write
// left there that was not replaced before the read began.
func (x *interop) bytewise(k string, t *mtag, ops []*iop) bool {
	es := t.es()
	init := x.l.init[k]
	for _, r := range ops {
		if r.write {
			continue
		}
		for e := 0; e < len(r.val); e += es {
			at := r.off + e
			got := r.val[e : e+es]
			// the latest write that was over before the read began decides what is out of date
			covers := func(o *iop) bool { return o.write && o.off <= at && at+es <= o.off+len(o.val) }
			stale := func(end uint64) bool { // was a value whose write ended then replaced before the read
				for _, o := range ops {
					if covers(o) && o.start > end && o.end != never && o.end < r.start {
						return true
					}
				}
				return false
			}
			ok := bytes.Equal(got, init[at:at+es]) && !stale(0)
			for _, o := range ops {
				if ok {
					break
				}
				if covers(o) && o.start <= r.end && bytes.Equal(got, o.val[at-o.off:][:es]) && (o.end == never || !stale(o.end)) {
					ok = true
				}
			}
			if !ok {
				x.w.h.Violate("not-linearizable", "%s: %s [%d,%d]: element %d is % x, which is not a value it had then", r.who, r.desc, r.start, r.end, at/es, got)
				return false
			}
		}
	}
	return true
}

func init() {
	register(&Check{Prop: "C18", Keys: []string{"not-linearizable", "wrong-value", "wrong-catalogue", "not-told", "spurious-error", "slow-call", "unbounded", "lifecycle",
		"two-sockets", "leaked-socket", "leaked-task", "not-released", "no-recovery", "app-error", "serve-ended"},
		Scen: []Scen{{Name: "interop", Weight: 1, Run: runInterop}}})
}
