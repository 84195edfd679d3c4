//go:build go1.23

package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// dtw is a client with data table buffers.
type dtw struct {
	w       *CW
	d       *disc
	listed  bool // the client knows the tags
	refused []refusal
	seq     int
	bad     int // percent of tags the controller refuses
}

type refusal struct {
	serial int
	why    string
}

// dtBufC is a buffer as its user sees it.
type dtBufC struct {
	x      *dtw
	b      *gologix.DataTableBuffer
	name   string
	serial int
	tags   []*dtExp
	groups []dtGroup
	doubt  bool // a call failed in a way that leaves the controller's state open
	raw    bool // holds structures: read raw only
	closed bool
	tried  bool // Close has been called
}

type dtExp struct {
	name  string
	it    *item
	valid int           // 1 the controller accepts it, 0 it may refuse it
	ptr   reflect.Value // variable to be updated
}

type dtGroup struct {
	base  string
	names []string
	whole bool // ReadAllTyped has to return it as a list
}

type DTEmb struct {
	EA int32   `gologix:"sDINT1"`
	EB float32 `gologix:"sREAL{0}"`
}
type DTOuter struct {
	A int16 `gologix:"sINT{0}"`
	N int32
	DTEmb
	B string  `gologix:"sSTRING1"`
	C []int32 `gologix:"aDINT[1]"`
}

func (x *dtw) plcBuf(serial int) *dtBuf {
	var f *dtBuf
	for _, b := range x.w.p.dt {
		if b.serial == serial {
			f = b
		}
	}
	return f
}

func (t *dtBufC) alive() bool { return !t.closed && t.x.plcBuf(t.serial) != nil }

func (x *dtw) newBuf(st, name string) *dtBufC {
	w := x.w
	x.seq++
	t := &dtBufC{x: x, name: fmt.Sprintf("%s.buf%d", name, x.seq), raw: w.s.Draw(st, 5) == 1}
	before := w.p.dtSerial
	ci := w.callX("NewDataTableBuffer() "+t.name, len(w.p.dt) >= 30, func() (err error) { t.b, err = w.c.NewDataTableBuffer(); return })
	if ci.err != nil {
		return nil
	}
	id := uint32(t.b.InstanceID())
	pb := w.p.dt[id]
	if pb == nil && w.p.dtSerial == before {
		w.h.Violate("phantom-buffer", "NewDataTableBuffer succeeded with instance %d, which the controller did not create", id)
		return nil
	}
	if pb != nil {
		t.serial = pb.serial
	}
	return t
}

// item draws a place for a buffer.
func (t *dtBufC) item(st string) *item {
	w := t.x.w
	s := w.s
	for try := 0; try < 40; try++ {
		if s.Draw(st, 6) == 0 && (t.x.listed || t.x.bad > 0) {
			c := []string{"cstr20", "cstr120", "cstrs[1]"}[s.Draw(st, 3)]
			tg := w.p.tags[strings.TrimSuffix(c, "[1]")]
			it := &item{name: c, tag: tg, es: tg.ES, n: 1, typ: tSTRING, bit: -1, mbit: -1}
			if strings.HasSuffix(c, "]") {
				it.off = tg.ES
			}
			if t.raw {
				it.udt, it.typ = tg.UDT, tSTRUCT
			}
			return it
		}
		it := w.genItem(st, 0)
		if it.sl || it.udt != nil && !t.raw {
			continue
		}
		if it.tag.N > 1 && !strings.Contains(it.name, "[") {
			continue
		}
		if t.x.bad == 0 && it.bit < 0 && t.x.validity(it) != 1 {
			continue
		}
		return it
	}
	tg := w.p.tags["sdint0"]
	return &item{name: "sDINT0", tag: tg, es: 4, n: 1, typ: tDINT, bit: -1, mbit: -1}
}

func (it *item) cipType() gologix.CIPType {
	switch {
	case it.bit >= 0 || it.mbit >= 0:
		return gologix.CIPTypeBOOL
	case it.udt != nil:
		return gologix.CIPTypeStruct
	}
	return gologix.CIPType(it.typ)
}

// validity tells whether the controller has to accept the tag.
func (x *dtw) validity(it *item) int {
	if it.bit >= 0 || it.tag == nil {
		return 0
	}
	if it.udt != nil || it.tag.UDT != nil && it.tag.UDT.Str > 0 {
		// the size is known only from the listing
		if !x.listed || it.tag.Prog != "" || strings.Contains(it.name, "[") || it.udt != nil && it.udt != it.tag.UDT {
			return 0
		}
	}
	return 1
}

// values are the possible Go values of a slot.
func (it *item) slot(d []byte) any {
	if it.typ == tSTRING && it.tag.UDT != nil {
		b := d[it.off : it.off+it.es]
		return string(b[4 : 4+g32(b)])
	}
	return it.elems(d)[0]
}

func (t *dtBufC) pendingInvalid() bool {
	for _, e := range t.tags {
		if e.valid != 1 {
			return true
		}
	}
	return false
}

// do runs one call on the buffer.
func (t *dtBufC) do(op string, mayFail bool, f func() error) *callInfo {
	x := t.x
	w := x.w
	n0 := len(x.refused)
	alive := t.alive()
	inv := t.pendingInvalid()
	op = t.name + "." + op
	ci := w.callX(op, mayFail || !alive || inv || t.doubt, f)
	why := ""
	for _, r := range x.refused[n0:] {
		if r.serial == 0 && !w.faulty && w.tasks == 1 && alive && t.alive() {
			w.h.Violate("buffer-broken", "%s made the controller refuse a request (%s) although the buffer exists", op, r.why)
		}
		if r.serial == 0 || r.serial != t.serial {
			continue
		}
		why = r.why
		ok := false
		switch r.why {
		case "room":
			ok = true
		case "tag", "size":
			ok = inv
		}
		if !ok && !t.doubt {
			w.h.Violate("buffer-broken", "%s made the controller refuse a request (%s) although everything asked for so far was possible", op, r.why)
		}
	}
	if why != "" && ci.err == nil && !t.doubt {
		w.h.Violate("hidden-error", "%s reported success although the controller refused a request (%s)", op, why)
	}
	if ci.err != nil && why == "" && (w.faulty || w.lifeErr || !alive || w.s.StallSince(ci.t0) > 0) {
		t.doubt = true
	}
	return ci
}

func slotKey(tag *PTag, off, es, bit int) string {
	return fmt.Sprintf("%s+%d/%d/%d", tag.Name, off, es, bit)
}

// sameTags compares the tags of the buffer in the controller with the user's.
func (t *dtBufC) sameTags(op string, exact bool) {
	w := t.x.w
	t.look(op, exact)
	pb := t.x.plcBuf(t.serial)
	if pb == nil || t.doubt || w.s.Stopped() {
		return
	}
	want := map[string]int{}
	for _, e := range t.tags {
		b := e.it.mbit
		if e.it.udt != nil || e.it.tag.UDT == nil {
			b = -1
		}
		want[slotKey(e.it.tag, e.it.off, e.it.es, b)]++
	}
	var diff []string
	for _, g := range pb.tags {
		b := g.tg.bit
		if g.tg.tag.UDT == nil || g.tg.typ != tBOOL {
			b = -1
		}
		k := slotKey(g.tg.tag, g.tg.off, g.tg.es, b)
		want[k]--
		if want[k] < 0 {
			diff = append(diff, "unexpected "+k)
		}
	}
	if exact {
		for _, k := range sortedKeys(want) {
			if want[k] > 0 {
				diff = append(diff, "missing "+k)
			}
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		w.h.Violate("buffer-differs", "after %s.%s the controller's buffer does not hold the user's tags: %s", t.name, op, short(diff))
	}
}

// look compares what Tags tells about the buffer with the user's tags, and after a read (synced) with the controller's.
func (t *dtBufC) look(op string, synced bool) {
	w := t.x.w
	if t.b == nil || t.doubt || t.closed || w.s.Stopped() {
		return
	}
	got := t.b.Tags()
	want := map[string]int{}
	for _, e := range t.tags {
		want[e.name]++
	}
	var diff []string
	for _, g := range got {
		k := g.Name
		if want[k]--; want[k] < 0 {
			diff = append(diff, "unexpected "+k)
		}
	}
	for _, k := range sortedKeys(want) {
		if want[k] > 0 {
			diff = append(diff, "missing "+k)
		}
	}
	if len(diff) > 0 {
		sort.Strings(diff)
		w.h.Violate("buffer-differs", "after %s.%s Tags() does not tell the tags that were added: %s", t.name, op, short(diff))
		return
	}
	if pb := t.x.plcBuf(t.serial); synced && pb != nil {
		at := map[uint16]*target{}
		for _, g := range pb.tags {
			at[g.idx] = g.tg
		}
		for _, g := range got {
			e, tg := t.find(g.Name), at[g.Index()]
			if e != nil && (tg == nil || tg.tag != e.it.tag || tg.off != e.it.off || int(g.DataTypeSize) != e.it.es) {
				w.h.Violate("buffer-differs", "after %s.%s Tags() says that %q (%d bytes) has index %d; the controller has something else there", t.name, op, g.Name, g.DataTypeSize, g.Index())
				return
			}
		}
	}
	for i := range got {
		got[i] = gologix.DataTableBufferTag{Name: "overwritten"} // it is a copy
	}
}

func (t *dtBufC) exp(it *item) *dtExp {
	e := &dtExp{name: it.name, it: it, valid: t.x.validity(it)}
	if t.x.bad > 0 && t.x.w.s.Chance("dt.bad", t.x.bad) && it.bit < 0 {
		// a tag the controller does not have
		e.name, e.valid = "no_"+strings.ReplaceAll(it.name, ":", "_"), 0
	}
	return e
}

func (t *dtBufC) add(st string, ref bool) {
	w := t.x.w
	e := t.exp(t.item(st))
	it := e.it
	if ref && it.udt == nil {
		rt := it.goType()
		ptr := reflect.New(rt)
		ci := t.do(fmt.Sprintf("AddTagRef(%q,%v)", e.name, rt), it.bit >= 0, func() error { return t.b.AddTagRef(e.name, ptr.Interface()) })
		if ci.err == nil {
			e.ptr = ptr
			t.tags = append(t.tags, e)
		}
		return
	}
	ct := it.cipType()
	ci := t.do(fmt.Sprintf("AddTag(%q,%v)", e.name, ct), it.bit >= 0, func() error { return t.b.AddTag(e.name, ct) })
	if ci.err == nil {
		t.tags = append(t.tags, e)
	}
	_ = w
}

func (t *dtBufC) addTags(st string) {
	s := t.x.w.s
	bit := false // single bits are refused
	n := 1 + s.Draw(st, 8)
	if s.Draw(st, 6) == 1 {
		n = 10 + s.Draw(st, 30)
	}
	m := map[string]gologix.CIPType{}
	var es []*dtExp
	for i := 0; i < n; i++ {
		e := t.exp(t.item(st))
		if _, dup := m[e.name]; dup || e.it.bit >= 0 && s.Draw(st, 8) > 0 {
			continue
		}
		bit = bit || e.it.bit >= 0
		m[e.name] = e.it.cipType()
		es = append(es, e)
	}
	if len(es) == 0 {
		return
	}
	ci := t.do(fmt.Sprintf("AddTags(%d)", len(es)), bit, func() error { return t.b.AddTags(m) })
	if ci.err == nil {
		t.tags = append(t.tags, es...)
	}
}

// run draws several elements of an array, for groups and structures.
func (t *dtBufC) run(st string, max int) (it *item, names []string) {
	w := t.x.w
	s := w.s
	cands := []string{"aDINT", "aREAL", "aINT", "aSINT", "aLINT", "bigDINT", "bigINT", "aSTRING", "mDINT", "m3INT", "Program:Main.pREAL", "uUE.Arr"}
	c := cands[s.Draw(st, len(cands))]
	tn, member := c, ""
	if i := strings.Index(c, "."); i > 0 && !strings.HasPrefix(c, "Program:") {
		tn, member = c[:i], c[i+1:]
	}
	tg := w.p.tags[strings.ToLower(tn)]
	it = &item{name: c, tag: tg, es: tg.ES, typ: tg.Type, bit: -1, mbit: -1}
	dims := tg.Dims
	if member != "" {
		m := tg.UDT.Members[0]
		it.es, it.typ, dims = typeSize(m.Type), m.Type, []int{m.N}
	}
	idx := 0
	var parts []string
	left := 0
	for k, d := range dims {
		v := s.Draw(st, d)
		if k == len(dims)-1 {
			if v > d-2 {
				v = d - 2
			}
			left = d - v
		}
		idx = idx*d + v
		parts = append(parts, fmt.Sprint(v))
	}
	n := 2 + s.Draw(st, min(left-1, max))
	prefix := strings.Join(parts[:len(parts)-1], ",")
	if prefix != "" {
		prefix += ","
	}
	first := idx % dims[len(dims)-1]
	if len(dims) == 1 && s.Draw(st, 4) == 0 {
		first, idx = 0, 0 // no index: from the first element
	} else {
		it.name = c + "[" + prefix + fmt.Sprint(first) + "]"
	}
	it.off = idx * it.es
	it.n = n
	it.sl = true
	for k := 0; k < n; k++ {
		names = append(names, fmt.Sprintf("%s[%s%d]", c, prefix, first+k))
	}
	return it, names
}

func (t *dtBufC) elems(it *item, names []string, ptr func(i int) reflect.Value) (out []*dtExp) {
	for i, n := range names {
		x := *it
		x.name, x.n, x.sl, x.off = n, 1, false, it.off+i*it.es
		e := &dtExp{name: n, it: &x, valid: 1}
		if ptr != nil {
			e.ptr = ptr(i)
		}
		out = append(out, e)
	}
	return
}

func (t *dtBufC) addGroup(st string) {
	w := t.x.w
	s := w.s
	var defs []gologix.TagDef
	var es []*dtExp
	var gs []dtGroup
	bit := false
	seen := map[string]bool{}
	for i, n := 0, 1+s.Draw(st, 4); i < n; i++ {
		if s.Draw(st, 2) == 0 {
			max := 6
			if s.Draw(st, 8) == 0 {
				max = 400
			}
			it, names := t.run(st, max)
			clash := seen[it.name]
			for _, n := range names {
				clash = clash || seen[n]
			}
			if clash {
				continue
			}
			seen[it.name] = true
			for _, n := range names {
				seen[n] = true
			}
			defs = append(defs, gologix.TagDef{Name: strings.ReplaceAll(it.name, "1", "{0}"), Type: it.cipType(), Elements: it.n})
			es = append(es, t.elems(it, names, nil)...)
			gs = append(gs, dtGroup{it.name, names, true})
			continue
		}
		e := t.exp(t.item(st))
		if seen[e.name] || e.it.bit >= 0 && s.Draw(st, 4) > 0 || e.it.udt != nil {
			continue
		}
		bit = bit || e.it.bit >= 0
		seen[e.name] = true
		defs = append(defs, gologix.TagDef{Name: strings.ReplaceAll(e.name, "1", "{0}"), Type: e.it.cipType(), Elements: s.Draw(st, 3) - 1})
		es = append(es, e)
		gs = append(gs, dtGroup{e.name, []string{e.name}, false})
	}
	if len(defs) == 0 {
		return
	}
	ci := t.do(fmt.Sprintf("AddTagGroup(%d tags)", len(es)), bit, func() error { return t.b.AddTagGroup(gologix.NewTagGroup(defs...), 1) })
	if ci.err == nil {
		t.tags = append(t.tags, es...)
		t.groups = append(t.groups, gs...)
	}
}

func (t *dtBufC) addStruct(st string) {
	w := t.x.w
	s := w.s
	var es []*dtExp
	var gs []dtGroup
	scalar := func(name string, ptr reflect.Value) {
		tg := w.p.tags[strings.ToLower(name)]
		es = append(es, &dtExp{name: name, it: &item{name: name, tag: tg, es: tg.ES, n: 1, typ: tg.Type, bit: -1, mbit: -1}, valid: 1, ptr: ptr})
		gs = append(gs, dtGroup{name, []string{name}, false})
	}
	var arg any
	bit := false
	kind := s.Draw(st, 4)
	switch kind {
	case 0: // embedded structure, untagged field
		v := &DTOuter{N: 77, C: make([]int32, 3)}
		rv := reflect.ValueOf(v).Elem()
		k := s.Draw(st, 2)
		scalar(fmt.Sprintf("sINT%d", k), rv.FieldByName("A").Addr())
		scalar("sDINT1", rv.FieldByName("EA").Addr())
		scalar(fmt.Sprintf("sREAL%d", k), rv.FieldByName("EB").Addr())
		scalar("sSTRING1", rv.FieldByName("B").Addr())
		tg := w.p.tags["adint"]
		it := &item{tag: tg, es: 4, typ: tDINT, bit: -1, mbit: -1, off: 4}
		names := []string{"aDINT[1]", "aDINT[2]", "aDINT[3]"}
		es = append(es, t.elems(it, names, func(i int) reflect.Value { return rv.FieldByName("C").Index(i).Addr() })...)
		gs = append(gs, dtGroup{"aDINT[1]", names, false})
		ci := t.do(fmt.Sprintf("AddTaggedStruct(DTOuter,%d)", k), false, func() error { return t.b.AddTaggedStruct(v, k) })
		if ci.err == nil {
			t.tags, t.groups = append(t.tags, es...), append(t.groups, gs...)
		}
		return
	case 1: // not a pointer: nothing can be stored
		ci := t.do("AddTaggedStruct(DTEmb value)", true, func() error { return t.b.AddTaggedStruct(DTEmb{}, 0) })
		if ci.err == nil {
			scalar("sDINT1", reflect.Value{})
			scalar("sREAL0", reflect.Value{})
			t.tags, t.groups = append(t.tags, es...), append(t.groups, gs...)
		}
		return
	}
	var fs []reflect.StructField
	type fld struct {
		name  string
		it    *item
		names []string
	}
	var fl []fld
	seen := map[string]bool{}
	for i, n := 0, 1+s.Draw(st, 5); i < n; i++ {
		var f fld
		if s.Draw(st, 3) == 0 {
			f.it, f.names = t.run(st, 6)
		} else {
			f.it = t.item(st)
			if f.it.bit >= 0 && s.Draw(st, 4) > 0 || f.it.udt != nil {
				continue
			}
			bit = bit || f.it.bit >= 0
		}
		clash := seen[f.it.name]
		for _, n := range f.names {
			clash = clash || seen[n]
		}
		if clash {
			continue
		}
		seen[f.it.name] = true
		for _, n := range f.names {
			seen[n] = true
		}
		f.name = fmt.Sprintf("F%d", i)
		fs = append(fs, reflect.StructField{Name: f.name, Type: f.it.goType(), Tag: reflect.StructTag(fmt.Sprintf("gologix:%q", strings.ReplaceAll(f.it.name, "0", "{0}")))})
		fl = append(fl, f)
	}
	if len(fl) == 0 {
		return
	}
	v := reflect.New(reflect.StructOf(fs))
	for _, f := range fl {
		fv := v.Elem().FieldByName(f.name)
		if f.names == nil {
			es = append(es, &dtExp{name: f.it.name, it: f.it, valid: t.x.validity(f.it), ptr: fv.Addr()})
			gs = append(gs, dtGroup{f.it.name, []string{f.it.name}, false})
			continue
		}
		fv.Set(reflect.MakeSlice(f.it.goType(), f.it.n, f.it.n))
		es = append(es, t.elems(f.it, f.names, func(i int) reflect.Value { return fv.Index(i).Addr() })...)
		gs = append(gs, dtGroup{f.it.name, f.names, false})
	}
	arg = v.Interface()
	ci := t.do(fmt.Sprintf("AddTaggedStruct(%d tags)", len(es)), bit, func() error { return t.b.AddTaggedStruct(arg, 0) })
	if ci.err == nil {
		t.tags, t.groups = append(t.tags, es...), append(t.groups, gs...)
	}
}

func (t *dtBufC) sync() {
	t.do("SyncTags()", false, func() error { return t.b.SyncTags() })
	t.sameTags("SyncTags", false)
}

func (t *dtBufC) find(name string) *dtExp {
	for _, e := range t.tags {
		if e.name == name {
			return e
		}
	}
	return nil
}

// slotOK judges one value of a successful read.
func (t *dtBufC) slotOK(op, key string, e *dtExp, v any, ci *callInfo) bool {
	w := t.x.w
	vers := e.it.tag.versionsIn(ci.start, ci.end)
	if strings.HasPrefix(e.name, "no_") {
		w.h.Violate("wrong-read", "%s.%s returned %s for %q, which does not exist", t.name, op, short(v), e.name)
		return false
	}
	for _, d := range vers {
		if eqVal(e.it.slot(d), v) {
			return true
		}
	}
	w.h.Violate("wrong-read", "%s.%s returned %s (%T) for %q; the controller held %s during the call", t.name, op, short(v), v, key, short(e.it.slot(vers[0])))
	return false
}

func (t *dtBufC) read(st string) {
	w := t.x.w
	kind := w.s.Pick(st, 5, 2, 3)
	if t.raw {
		kind = 1
	}
	names := map[string]bool{}
	for _, e := range t.tags {
		names[e.name] = true
	}
	empty := len(t.tags) == 0
	mayFail := empty
	switch kind {
	case 1:
		var m map[string][]byte
		ci := t.do("ReadAllRaw()", mayFail, func() (err error) { m, err = t.b.ReadAllRaw(); return })
		if ci.err != nil {
			return
		}
		t.keys("ReadAllRaw", names, sortedKeys(m))
		for _, k := range sortedKeys(m) {
			e := t.find(k)
			if e == nil {
				return
			}
			ok := false
			for _, d := range e.it.tag.versionsIn(ci.start, ci.end) {
				x := d[e.it.off : e.it.off+e.it.es]
				if e.it.mbit >= 0 {
					x = []byte{x[0] >> e.it.mbit & 1}
				}
				ok = ok || bytes.Equal(x, m[k])
			}
			if !ok {
				w.h.Violate("wrong-read", "%s.ReadAllRaw returned % x for %q, which the tag did not hold during the call", t.name, trunc(m[k], 24), k)
				return
			}
		}
		t.sameTags("ReadAllRaw", true)
		return
	case 2:
		var r *gologix.TagGroupResult
		ci := t.do("ReadAllTyped()", mayFail, func() (err error) { r, err = t.b.ReadAllTyped(); return })
		if ci.err != nil {
			return
		}
		m := r.Raw()
		last := map[string]dtGroup{}
		for _, g := range t.groups {
			last[g.base] = g
		}
		for _, k := range sortedKeys(last) {
			if sl, ok := m[k].([]any); last[k].whole && (!ok || len(sl) != len(last[k].names)) {
				w.h.Violate("missing-entry", "%s.ReadAllTyped returned %v for %q, added as %d elements", t.name, m[k], k, len(last[k].names))
				return
			}
		}
		for _, k := range sortedKeys(m) {
			if sl, ok := m[k].([]any); ok {
				hit := false
				for _, g := range t.groups {
					if g.base != k || len(g.names) != len(sl) {
						continue
					}
					hit = true
					for i, n := range g.names {
						delete(names, n)
						e := t.find(n)
						if e == nil {
							w.h.Violate("extra-entry", "%s.ReadAllTyped returned %d elements for %q although %q had been removed", t.name, len(sl), k, n)
							return
						}
						if !t.slotOK("ReadAllTyped", n, e, sl[i], ci) {
							return
						}
					}
					break
				}
				if !hit {
					w.h.Violate("extra-entry", "%s.ReadAllTyped returned %d elements for %q, which were not asked for", t.name, len(sl), k)
					return
				}
				continue
			}
			e := t.find(k)
			if e == nil {
				w.h.Violate("extra-entry", "%s.ReadAllTyped returned an entry for %q, which is not in the buffer", t.name, k)
				return
			}
			delete(names, k)
			if !t.slotOK("ReadAllTyped", k, e, m[k], ci) {
				return
			}
		}
		for _, k := range sortedKeys(names) {
			w.h.Violate("missing-entry", "%s.ReadAllTyped returned nothing for %q", t.name, k)
			return
		}
		t.pointers("ReadAllTyped", ci)
		t.sameTags("ReadAllTyped", true)
		return
	}
	var m map[string]any
	ci := t.do("ReadAll()", mayFail, func() (err error) { m, err = t.b.ReadAll(); return })
	if ci.err != nil {
		return
	}
	w.s.Stat("dt.reads")
	if len(t.tags) > 255 {
		w.s.Stat("dt.reads_over_255")
	}
	t.keys("ReadAll", names, sortedKeys(m))
	for _, k := range sortedKeys(m) {
		e := t.find(k)
		if e == nil || !t.slotOK("ReadAll", k, e, m[k], ci) {
			return
		}
	}
	t.pointers("ReadAll", ci)
	t.sameTags("ReadAll", true)
}

func (t *dtBufC) keys(op string, names map[string]bool, got []string) {
	for _, k := range got {
		if !names[k] {
			t.x.w.h.Violate("extra-entry", "%s.%s returned an entry for %q, which is not in the buffer", t.name, op, k)
		}
	}
	if len(got) < len(names) {
		have := map[string]bool{}
		for _, k := range got {
			have[k] = true
		}
		for _, k := range sortedKeys(names) {
			if !have[k] {
				t.x.w.h.Violate("missing-entry", "%s.%s returned nothing for %q", t.name, op, k)
			}
		}
	}
}

func (t *dtBufC) pointers(op string, ci *callInfo) {
	for _, e := range t.tags {
		if e.ptr.IsValid() && !t.slotOK(op+" (variable)", e.name, e, e.ptr.Elem().Interface(), ci) {
			return
		}
	}
}

func (t *dtBufC) remove(st string) {
	w := t.x.w
	s := w.s
	name := "not_in_it"
	k := -1
	if len(t.tags) > 0 && s.Draw(st, 12) > 0 {
		k = s.Draw(st, len(t.tags))
		if s.Draw(st, 2) == 0 {
			for i, e := range t.tags {
				if e.valid != 1 {
					k = i
				}
			}
		}
		name = t.tags[k].name
	}
	inv := t.pendingInvalid()
	_ = inv
	ci := t.do(fmt.Sprintf("RemoveTag(%q)", name), k < 0, func() error { return t.b.RemoveTag(name) })
	if ci.err != nil {
		if t.alive() && k >= 0 && !w.faulty && !w.lifeErr && w.s.StallSince(ci.t0) == 0 {
			w.h.Violate("buffer-broken", "%s.RemoveTag(%q) failed: %v", t.name, name, ci.err)
		}
		return
	}
	if k < 0 {
		w.h.Violate("hidden-error", "%s.RemoveTag(%q) succeeded although there is no such tag", t.name, name)
		return
	}
	for i, e := range t.tags {
		if e.name == name { // the first of that name
			t.tags = append(t.tags[:i:i], t.tags[i+1:]...)
			break
		}
	}
	for i, g := range t.groups {
		for _, n := range g.names {
			if n == name {
				t.groups[i].whole = false
			}
		}
	}
	t.sameTags("RemoveTag", false)
}

func (t *dtBufC) close() {
	w := t.x.w
	ci := t.do("Close()", false, func() error { return t.b.Close() })
	again := t.tried // a buffer counts as closed even if Close failed
	t.tried = true
	if ci.err == nil && !again && t.alive() {
		w.h.Violate("buffer-left", "%s.Close succeeded, but the controller still has the buffer", t.name)
	}
	if t.x.plcBuf(t.serial) != nil {
		return
	}
	t.closed = true
	if w.s.Draw("dt.after", 3) == 0 {
		n := len(t.x.refused)
		if _, err := t.b.ReadAll(); err == nil {
			w.h.Violate("hidden-error", "%s.ReadAll succeeded after Close", t.name)
		}
		_ = n
	}
}

func runDataTable(h *H) {
	s := h.S
	faulty := h.Pick("cfg.faulty", 2, 3) == 1
	w := newCW(h, faulty)
	p := w.p
	x := &dtw{w: w, d: &disc{w: w}}
	for i, n := range []int{20, 120} {
		u := &UDT{Name: fmt.Sprintf("STRING%d", n), ID: uint16(0x700 + i), Size: 4 + n, Handle: uint16(0x4321 + i), Str: n,
			Members: []UMember{{"LEN", tDINT, -1, 0, nil, 0}, {"DATA", tSINT, -1, 4, nil, n}}}
		p.udts = append(p.udts, u)
		p.AddTag(fmt.Sprintf("cstr%d", n), tSTRUCT, u)
		if i == 0 {
			p.AddTag("cstrs", tSTRUCT, u, 3)
		}
	}
	w.allTags = append([]*PTag(nil), p.tagList...)
	p.progIDs = []uint32{1, 2}
	p.dtHook = p.dataTable
	p.dtKeep = h.Pick("cfg.dt", 3, 2) == 1
	p.dtLow = h.Pick("cfg.dt", 1, 1) == 1
	p.dtBase = []uint32{0, 252, 4096, 60000}[h.Pick("cfg.dtbase", 4, 1, 1, 1)]
	p.dtRefused = func(b *dtBuf, why string) {
		r := refusal{why: why}
		if b != nil {
			r.serial = b.serial
		}
		x.refused = append(x.refused, r)
	}
	x.bad = []int{0, 2, 15}[h.Pick("cfg.bad", 4, 1, 1)]
	w.tasks = 1 + h.Pick("cfg.tasks", 5, 2, 1)
	life := h.Pick("cfg.life", 3, 2) == 1
	if w.tasks > 1 && life {
		w.lifeErr = true
	}
	w.c.KeepAliveAutoStart = h.Pick("cfg.ka", 2, 1) == 1
	w.c.KeepAliveFrequency = 5 * time.Second
	if h.Pick("cfg.list", 2, 1) == 1 {
		// the client knows the tags
		x.d.limit()
		fp := p.FaultPM
		p.FaultPM = 0
		lf := x.d.lfault
		ok := false
		for i := 0; i < 3 && !ok && !s.Stopped(); i++ {
			ok = x.d.listAll(0)
		}
		p.FaultPM = fp
		x.d.lfault = lf
		w.maxEx = 0
		for _, tg := range p.tagList {
			if tg.UDT != nil && tg.Prog == "" && ok {
				ok = w.c.KnownTags[strings.ToLower(tg.Name)].UDT != nil
			}
		}
		x.listed = ok
		if s.Stopped() {
			return
		}
		if ok {
			s.Stat("dt.listed")
		}
	}
	var ts []*simrt.Task
	for i := 0; i < w.tasks; i++ {
		name := fmt.Sprintf("t%d", i)
		n := 4 + s.Draw("cfg.nops", 26)
		ts = append(ts, s.Go(name, func() { x.user(name, n, life) }))
	}
	s.Join(ts...)
	if s.Stopped() {
		return
	}
	s.Logf("workload done")
	s.Net.Heal()
	p.Healed = true
	w.tasks = 1
	w.lifeErr = false
	x.recover()
	if !s.Stopped() {
		w.recover()
	}
	if !s.Stopped() {
		w.finish()
	}
}

func (x *dtw) user(name string, n int, life bool) {
	w := x.w
	s := w.s
	var bufs []*dtBufC
	for k := 0; k < n && !s.Stopped(); k++ {
		st := opStream(name, k)
		if len(bufs) == 0 || len(bufs) < 4 && s.Draw(st, 10) == 1 {
			if b := x.newBuf(st, name); b != nil {
				bufs = append(bufs, b)
			}
			continue
		}
		i := s.Draw(st, len(bufs))
		b := bufs[i]
		op := s.Pick(st, 1, 10, 5, 6, 4, 4, 3, 22, 9, 2, 3, 3, 2, 1)
		s.Stat(fmt.Sprintf("dt.op%d", op))
		switch op {
		case 1:
			b.add(st, false)
		case 2:
			b.addTags(st)
		case 3:
			b.add(st, true)
		case 4:
			b.addGroup(st)
		case 5:
			b.addStruct(st)
		case 6:
			b.sync()
		case 7:
			b.read(st)
		case 8:
			b.remove(st)
		case 9:
			b.close()
			if b.closed || s.Draw(st, 2) == 0 {
				bufs = append(bufs[:i:i], bufs[i+1:]...)
			}
		case 10:
			w.readScalarOrSlice(w.genItem(st, 0))
		case 11:
			simrt.Sleep(s.Dur(st, time.Millisecond, []time.Duration{50 * time.Millisecond, 10 * time.Second}[s.Draw(st, 2)]))
		case 12:
			if life {
				if s.Draw(st, 2) == 0 {
					w.connect()
				} else {
					w.disconnect()
				}
			}
		case 13:
			if w.faulty {
				s.After(0, func() {
					if !w.p.Healed {
						w.p.Restart()
					}
				})
				simrt.Sleep(time.Millisecond)
			}
		}
	}
	for _, b := range bufs {
		if s.Draw("dt.end", 2) == 0 && !s.Stopped() {
			b.close()
		}
	}
}

// recover checks that buffers work again once the faults have stopped.
func (x *dtw) recover() {
	w := x.w
	s := w.s
	var last error
	for i := 0; i < 4 && !s.Stopped(); i++ {
		fl := w.faulty
		w.faulty = true
		var vals map[string]any
		ci := w.call("recovery of data tables", func() error {
			b, err := w.c.NewDataTableBuffer()
			if err != nil {
				return err
			}
			if err = b.AddTag("sDINT0", gologix.CIPTypeDINT); err != nil {
				return err
			}
			if err = b.AddTag("sREAL1", gologix.CIPTypeREAL); err != nil {
				return err
			}
			if vals, err = b.ReadAll(); err != nil {
				return err
			}
			return b.Close()
		})
		w.faulty = fl
		if ci.err == nil {
			for _, n := range []string{"sDINT0", "sREAL1"} {
				tg := w.p.tags[strings.ToLower(n)]
				it := &item{name: n, tag: tg, es: 4, n: 1, typ: tg.Type, bit: -1, mbit: -1}
				if !w.checkRead("recovery of data tables", it, vals[n], ci.start, ci.end, false) {
					return
				}
			}
			return
		}
		last = ci.err
	}
	if !s.Stopped() {
		w.h.Violate("no-recovery", "no recovery: four attempts to use a new data table buffer failed after the faults had stopped; the last with: %v", last)
	}
}

func init() {
	register(&Check{Prop: "C16", Keys: []string{"buffer-broken", "buffer-differs", "buffer-left", "oversize", "hidden-error", "extra-entry", "missing-entry", "wrong-read", "phantom-buffer",
		"no-recovery", "unbounded", "malformed-request", "spurious-error", "stale-read"},
		Scen: []Scen{{Name: "datatable", Weight: 1, Run: runDataTable}}})
}
