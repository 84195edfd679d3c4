//go:build go1.23

package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"time"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// lop is one operation in the history of a tag.
type lop struct {
	who   string
	sess  int // operations of one session happen in the order of ord
	ord   int
	write bool
	off   int
	val   []byte
	start uint64
	end   uint64 // 0: never answered
	desc  string
}

const never = math.MaxUint64

// linearize looks for an order of the operations that explains all results.
// Unanswered writes may or may not have happened. It returns the longest prefix found.
func linearize(init []byte, ops []*lop, budget int) (ok, decided bool, best []*lop) {
	sort.SliceStable(ops, func(i, j int) bool {
		if ops[i].start != ops[j].start {
			return ops[i].start < ops[j].start
		}
		return ops[i].ord < ops[j].ord
	})
	n := len(ops)
	done := make([]bool, n)
	must := 0
	for _, o := range ops {
		if o.end != never {
			must++
		}
	}
	seen := map[string]bool{}
	var order []*lop
	key := func(state []byte) string {
		b := make([]byte, (n+7)/8, (n+7)/8+len(state))
		for i, d := range done {
			if d {
				b[i/8] |= 1 << (i % 8)
			}
		}
		return string(append(b, state...))
	}
	steps := 0
	decided = true
	var rec func(state []byte, left int) bool
	rec = func(state []byte, left int) bool {
		if left == 0 {
			return true
		}
		if steps++; steps > budget {
			decided = false
			return true
		}
		k := key(state)
		if seen[k] {
			return false
		}
		seen[k] = true
		// operations that start after the end of another open one have to wait
		minEnd := uint64(never)
		for i, o := range ops {
			if !done[i] && o.end < minEnd {
				minEnd = o.end
			}
		}
		for i, o := range ops {
			if done[i] {
				continue
			}
			if o.start > minEnd {
				break
			}
			blocked := false
			for j, p := range ops {
				if !done[j] && j != i && p.sess == o.sess && p.ord < o.ord {
					blocked = true
					break
				}
			}
			if blocked {
				continue
			}
			if !o.write && !bytes.Equal(state[o.off:o.off+len(o.val)], o.val) {
				continue
			}
			next := state
			if o.write {
				next = append([]byte(nil), state...)
				copy(next[o.off:], o.val)
			}
			done[i] = true
			order = append(order, o)
			if len(order) > len(best) {
				best = append([]*lop(nil), order...)
			}
			l := left
			if o.end != never {
				l--
			}
			if rec(next, l) {
				return true
			}
			done[i] = false
			order = order[:len(order)-1]
		}
		return false
	}
	ok = rec(init, must)
	return
}

// lin is the shared store workload.
type lin struct {
	w     *SW
	p     *mprov
	hist  map[string][]*lop
	init  map[string][]byte
	nsess int
	nord  int
}

func (l *lin) rec(t *mtag, o *lop) *lop {
	l.nord++
	o.ord = l.nord
	l.hist[t.name] = append(l.hist[t.name], o)
	return o
}

// encodeVal is the bytes of a Go value of a tag.
func encodeVal(typ byte, v any) ([]byte, bool) {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice {
		var b []byte
		for i := 0; i < rv.Len(); i++ {
			e, ok := encodeVal(typ, rv.Index(i).Interface())
			if !ok {
				return nil, false
			}
			b = append(b, e...)
		}
		return b, true
	}
	if rv.Type() != goTypes[typ] {
		return nil, false
	}
	if s, ok := v.(string); ok {
		b := make([]byte, 88)
		binary.LittleEndian.PutUint32(b, uint32(len(s)))
		copy(b[4:86], s)
		return b, true
	}
	b, err := binary.Append(nil, binary.LittleEndian, v)
	return b, err == nil
}

// span draws a part of a tag: index (-1 none), offset and number of elements.
func (l *lin) span(st string, t *mtag) (idx, off, k int) {
	s := l.w.s
	if !t.slice {
		return -1, 0, 1
	}
	switch s.Pick(st, 4, 3, 2) {
	case 1:
		idx = s.Draw(st, t.n)
		return idx, idx * t.es(), 1
	case 2:
		idx = s.Draw(st, t.n)
		return idx, idx * t.es(), 1 + s.Draw(st, t.n-idx)
	}
	return -1, 0, t.n
}

// request makes a read or write request for the history.
func (l *lin) request(st string, o *Orig, sess int) (*tagReq, []*lop) {
	s := l.w.s
	t := l.p.tags[l.p.names[s.Draw(st, len(l.p.names))]]
	idx, off, k := l.span(st, t)
	q := &tagReq{}
	name := o.mixCase(st, t.name)
	switch s.Pick(st, 5, 5, 1, 2) {
	case 1:
		if idx >= 0 {
			k = 1
		}
		var v []byte
		for i := 0; i < k; i++ {
			v = append(v, genElem(t.typ, l.w.next())...)
		}
		q.desc = fmt.Sprintf("write %s[%d]x%d", name, idx, k)
		q.m = svcPath(0x4D, tagPath(name, idx, 0), wireType(t.typ), le16(uint16(k)), v)
		op := l.rec(t, &lop{who: o.name, sess: sess, write: true, off: off, val: v, desc: q.desc})
		q.on = func(byte, []byte) {}
		return q, []*lop{op}
	case 3: // of another type
		if !o.genConvert(st, q, t, name) {
			q.m = svcPath(0x4C, tagPath(name, -1, 0), le16(1))
			q.desc, q.want = "read of "+name, wantAny
			return q, nil
		}
		q.on = func(byte, []byte) {}
		if q.want == wantErr {
			return q, nil // refused as a whole
		}
		return q, []*lop{l.rec(t, &lop{who: o.name, sess: sess, write: true, off: q.off, val: q.vals, desc: q.desc})}
	case 2: // refused, must have no effect
		q.want = wantErr
		q.desc = fmt.Sprintf("impossible write to %s", name)
		if t.slice && t.typ != tSTRING {
			q.m = svcPath(0x4D, tagPath(name, -1, 0), wireType(tSTRING), le16(uint16(t.n)), bytes.Repeat(genElem(tSTRING, l.w.next()), t.n))
		} else if t.slice {
			q.m = svcPath(0x4D, tagPath(name, t.n, 0), wireType(t.typ), le16(1), genElem(t.typ, l.w.next()))
		} else {
			q.m = svcPath(0x4D, tagPath(name, -1, 0), wireType(t.typ), le16(3), genElem(t.typ, l.w.next()))
		}
		return q, nil
	}
	q.desc = fmt.Sprintf("read %s[%d]x%d", name, idx, k)
	q.m = svcPath(0x4C, tagPath(name, idx, 0), le16(uint16(k)))
	op := &lop{who: o.name, sess: sess, off: off, desc: q.desc}
	l.nord++
	op.ord = l.nord
	q.on = func(status byte, d []byte) {
		vals, bad := takeType(d, t.typ)
		if bad != "" || len(vals) != k*t.es() {
			l.w.h.Violate("mixture", "%s: reply to %s (%d bytes) %s: % x", o.name, q.desc, len(vals), bad, d[:min(len(d), 60)])
			return
		}
		op.val = vals
		l.hist[t.name] = append(l.hist[t.name], op)
	}
	return q, []*lop{op}
}

func (l *lin) session(st string, o *Orig, batches int) {
	w := l.w
	s := w.s
	if s.Stopped() || !o.dial() {
		return
	}
	l.nsess++
	sess := l.nsess
	o.register()
	for i, n := 0, s.Draw(st, 3); i < n; i++ {
		o.flush()
		if !o.wait() {
			return
		}
		path := []byte{1, byte(s.Draw(st, 2))}
		o.open(foParams{large: s.Draw(st, 2) == 1, to: uint32(0x1000*(o.idx+1)+l.nsess*16+i) + 1, serial: uint16(l.nsess*8 + i), vendor: uint16(o.idx), osn: uint32(i), path: path, trigger: 0xA3, rpi: 2000000, size: 500}, wantOK)
	}
	o.flush()
	if !o.wait() {
		return
	}
	for b := 0; b < batches && !s.Stopped() && !o.dead; b++ {
		bst := fmt.Sprintf("%s/b%d", st, b)
		var pend [][]*lop
		var reqs []*sreq
		for i, n := 0, 1+s.Pick(bst, 5, 2, 1); i < n; i++ {
			v := via{route: []byte{1, byte(s.Draw(bst, 2))}}
			if len(o.conns) > 0 && s.Draw(bst, 3) > 0 {
				v = via{c: o.conns[s.Draw(bst, len(o.conns))]}
			}
			if v.c != nil && s.Draw(bst, 4) == 1 {
				var qs []*tagReq
				var ops []*lop
				for k, m := 0, 1+s.Draw(bst, 5); k < m; k++ {
					q, lo := l.request(bst, o, sess)
					if len(q.m) > 1500 {
						q.m = svcPath(0x4C, tagPath(l.p.names[0], -1, 0), le16(1))
						q.want, q.on = wantAny, nil
						l.drop(lo)
						lo = nil
					}
					qs = append(qs, q)
					ops = append(ops, lo...)
				}
				reqs = append(reqs, o.sendMulti(v, qs))
				pend = append(pend, ops)
				continue
			}
			q, lo := l.request(bst, o, sess)
			reqs = append(reqs, o.sendTag(v, q))
			pend = append(pend, lo)
		}
		o.flush()
		for i, r := range reqs {
			r := r
			ops := pend[i]
			for _, x := range ops {
				x.start = r.start
				x.end = never
			}
			old := r.on
			r.on = func(r *sreq) {
				for _, x := range ops {
					x.end = r.end
				}
				if old != nil {
					old(r)
				}
			}
		}
		if s.Draw(bst, 4) == 1 && b+1 < batches {
			continue
		}
		if !o.wait() {
			return
		}
		if s.Draw(bst, 4) == 1 {
			simrt.Sleep(s.Dur(bst, 0, 300*time.Millisecond))
		}
	}
	if !s.Stopped() && !o.dead {
		o.wait()
	}
	o.close(s.Draw(st, 3))
}

func (l *lin) drop(ops []*lop) {
	for name, h := range l.hist {
		for _, d := range ops {
			for i, x := range h {
				if x == d {
					h = append(h[:i:i], h[i+1:]...)
					break
				}
			}
		}
		l.hist[name] = h
	}
}

// app is the application using the store directly.
func (l *lin) app(name string, n int) {
	w := l.w
	s := w.s
	l.nsess++
	sess := l.nsess
	for i := 0; i < n && !s.Stopped(); i++ {
		st := fmt.Sprintf("op/%s/%d", name, i)
		t := l.p.tags[l.p.names[s.Draw(st, len(l.p.names))]]
		idx, off, k := l.span(st, t)
		tag := t.name
		if idx >= 0 {
			tag = fmt.Sprintf("%s[%d]", tag, idx)
		}
		op := &lop{who: name, sess: sess, off: off}
		if s.Draw(st, 2) == 1 {
			if idx >= 0 {
				k = 1
			}
			var b []byte
			for e := 0; e < k; e++ {
				b = append(b, genElem(t.typ, w.next())...)
			}
			v := goTagValue(&mtag{typ: t.typ, slice: t.slice && idx < 0, n: k, data: b})
			op.write, op.val = true, b
			op.desc = "application writes " + tag
			op.start = w.h.Tick()
			err := l.p.m.TagWrite(tag, v)
			op.end = w.h.Tick()
			if s.Stopped() {
				return
			}
			if err != nil {
				w.h.Violate("app-error", "application write of %s: %v", tag, err)
				return
			}
			l.rec(t, op)
			l.scribble(st, t, v)
		} else {
			op.desc = "application reads " + tag
			op.start = w.h.Tick()
			v, err := l.p.m.TagRead(tag, int16(k))
			op.end = w.h.Tick()
			if s.Stopped() {
				return
			}
			if err != nil {
				w.h.Violate("app-error", "application read of %d elements of %s: %v", k, tag, err)
				return
			}
			b, ok := encodeVal(t.typ, v)
			if !ok || len(b) != k*t.es() {
				w.h.Violate("mixture", "application read of %d elements of %s returned %T %.100v", k, tag, v, v)
				return
			}
			op.val = b
			l.rec(t, op)
			l.scribble(st, t, v)
		}
		if s.Draw(st, 3) > 0 {
			simrt.Sleep(s.Dur(st, 0, 200*time.Millisecond))
		}
	}
}

// scribble lets the application go on using its slice.
func (l *lin) scribble(st string, t *mtag, v any) {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Slice || l.w.s.Draw(st, 2) == 0 {
		return
	}
	for i := 0; i < rv.Len(); i++ {
		rv.Index(i).Set(reflect.ValueOf(decodeElem(t.typ, genElem(t.typ, l.w.next()))))
	}
}

func runLin(h *H) {
	w := newSW(h)
	s := w.s
	switch h.Pick("cfg.faulty", 4, 2, 4) {
	case 1:
		w.faultLinks(false, 60)
	case 2:
		w.faultLinks(true, 60)
	}
	l := &lin{w: w, hist: map[string][]*lop{}, init: map[string][]byte{}}
	l.p = w.store(false, 1, 0)
	w.router.Handle([]byte{1, 1}, l.p.m)
	types := []byte{tDINT, tLINT, tSTRING, tREAL, tUDINT}
	for i, n := 0, 1+s.Draw("cfg.tags", 3); i < n; i++ {
		t := types[s.Draw("cfg.tags", len(types))]
		if s.Draw("cfg.tags", 3) == 0 {
			w.tag(l.p, fmt.Sprintf("scalar%d", i), t, false, 1)
		} else {
			w.tag(l.p, fmt.Sprintf("arr%d", i), t, true, 2+s.Draw("cfg.tags", []int{4, 40}[s.Pick("cfg.tags", 3, 1)]))
		}
	}
	for n, t := range l.p.tags {
		l.init[n] = t.data
	}
	w.start()
	if s.Stopped() {
		return
	}
	var ts []*simrt.Task
	for i, no := 0, 1+s.Pick("cfg.origs", 1, 3, 3, 1); i < no; i++ {
		o := w.orig()
		n := 2 + s.Draw("cfg.nops", 5)
		ts = append(ts, s.Go(o.name, func() {
			for k := 0; k < 2 && !s.Stopped(); k++ {
				l.session(fmt.Sprintf("op/%s/%d", o.name, k), o, n)
			}
		}))
	}
	for i, na := 0, s.Pick("cfg.apps", 2, 3, 1); i < na; i++ {
		name := fmt.Sprintf("app%d", i)
		n := 2 + s.Draw("cfg.nops", 10)
		ts = append(ts, s.Go(name, func() { l.app(name, n) }))
	}
	s.Join(ts...)
	if s.Stopped() {
		return
	}
	w.closing()
	if s.Stopped() {
		return
	}
	// the final state, read by the application
	l.nsess++
	for _, n := range l.p.names {
		t := l.p.tags[n]
		op := &lop{who: "final", sess: l.nsess, desc: "final read of " + n, start: h.Tick()}
		v, err := l.p.m.TagRead(n, int16(t.n))
		if err != nil {
			h.Violate("app-error", "final read of %s: %v", n, err)
			return
		}
		b, ok := encodeVal(t.typ, v)
		if !ok || len(b) != len(t.data) {
			h.Violate("mixture", "final read of %s returned %T %.100v", n, v, v)
			return
		}
		op.val = b
		op.end = h.Tick()
		l.rec(t, op)
	}
	for _, n := range l.p.names {
		ops := l.hist[n]
		var use []*lop
		for _, o := range ops {
			if o.start != 0 {
				use = append(use, o)
			}
		}
		ok, decided, best := linearize(l.init[n], use, 200000)
		s.StatN("lin.ops", int64(len(use)))
		if !decided {
			s.Stat("lin.undecided")
			continue
		}
		if !ok {
			h.Violate("not-linearizable", "%s", explain(n, l.init[n], use, best, l.p.tags[n]))
			return
		}
	}
	h.Nontrivial = true
}

func explain(name string, init []byte, ops, best []*lop, t *mtag) string {
	in := map[*lop]bool{}
	for _, o := range best {
		in[o] = true
	}
	m := fmt.Sprintf("no order explains the %d operations on %s; the longest one explains %d, not", len(ops), name, len(best))
	for _, o := range ops {
		if !in[o] {
			m += fmt.Sprintf("\n  %s: %s [%d,%d] % x", o.who, o.desc, o.start, o.end, o.val[:min(len(o.val), 40)])
		}
	}
	m += "\n after"
	for _, o := range best[max(0, len(best)-8):] {
		m += fmt.Sprintf("\n  %s: %s [%d,%d] % x", o.who, o.desc, o.start, o.end, o.val[:min(len(o.val), 40)])
	}
	return m
}

func init() {
	register(&Check{Prop: "C11", Keys: []string{"not-linearizable", "mixture", "app-error", "wrong-status", "reply-mismatch", "session-ended", "no-reply"},
		Scen: []Scen{{Name: "shared store", Weight: 1, Run: runLin}}})
}
