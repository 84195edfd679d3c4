//go:build go1.23

package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/canned"
)

// Objects of the controller beyond its tags: the fault log, the forces, the clock, parameters that can be set
// and a service with an effect. What they hold has a history, as tags have.

type statusObj struct {
	p      *PLC
	faults *PTag // one element of 138 bytes
	forces *PTag
	params *PTag // parameters 1..40, 2 bytes each; those above 30 cannot be set
	clock0 int64 // the controller's clock when the run begins, in microseconds
	total  uint32
	vers   uint64
	onSvc  func(kind string, id uint64) *svcOp
}

// svcOp is one requested service with an effect.
type svcOp struct {
	desc  string
	count int
	old   uint32
	done  bool
	ok    bool
}

const nParams = 40

func newStatus(p *PLC) *statusObj {
	so := &statusObj{p: p}
	so.clock0 = int64(p.s.Draw("cfg.clock", 1<<30))*1_000_000_007%4_000_000_000_000_000 + 1
	mk := func(name string, es int) *PTag {
		t := &PTag{ID: -1, Name: name, N: 1, ES: es, Data: make([]byte, es)}
		t.Hist = []Version{{p.h.Tick(), t.Data}}
		return t
	}
	so.faults, so.forces, so.params = mk("faults", 138), mk("forces", 2), mk("params", 2*nParams)
	so.params.apply(p, 0, func() (b []byte) {
		for i := 0; i < nParams; i++ {
			b = append(b, le16(uint16(i*257+3))...)
		}
		return
	}())
	so.mutate()
	return so
}

// faultCodes lists the documented faults.
var faultCodes = func() (out [][2]int) {
	for t, m := range canned.FaultDescriptions {
		for c := range m {
			out = append(out, [2]int{t, c})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1]
	})
	return
}()

// mutate is the controller having, or clearing, a fault, a force or a parameter change.
func (so *statusObj) mutate() {
	s := so.p.s
	so.vers++
	v := so.vers
	switch s.Draw("plc.status", 4) {
	case 0:
		so.forces.apply(so.p, 0, le16(uint16(s.Draw("plc.status", 1<<16))))
	case 1:
		i := s.Draw("plc.status", nParams)
		so.params.apply(so.p, 2*i, le16(uint16(v*37+1)))
	default:
		b := cat(le32(1<<s.Draw("plc.status", 22)|uint32(v)<<24), le32(uint32(s.Draw("plc.status", 1<<22))), le16(uint16(v)), le16(uint16(s.Draw("plc.status", 9))))
		for i := 0; i < 3; i++ {
			var class, code int
			switch s.Draw("plc.status", 5) {
			case 0:
			case 1:
				class, code = s.Draw("plc.status", 30), s.Draw("plc.status", 300)
			default:
				x := faultCodes[s.Draw("plc.status", len(faultCodes))]
				class, code = x[0], x[1]
			}
			b = cat(b, le64(v<<40|uint64(s.Draw("plc.status", 1<<30))), le16(uint16(class)), le16(uint16(code)))
			for k := 0; k < 30; k++ {
				b = append(b, byte(v)*11+byte(k*i))
			}
		}
		so.faults.apply(so.p, 0, b)
	}
}

func (so *statusObj) clock() int64 { return so.clock0 + int64(so.p.s.Now()/time.Microsecond) }

// attrs answers a request for a list of attributes.
func (so *statusObj) attrs(svc byte, data []byte, fail func(byte, ...uint16) []byte, get func(id uint16) []byte) []byte {
	if len(data) < 2 || len(data) != 2+2*int(g16(data)) {
		so.p.bad("attribute list of %d bytes", len(data))
		return fail(0x13)
	}
	out := data[:2:2]
	st := byte(0)
	for i := 0; i < int(g16(data)); i++ {
		id := g16(data[2+2*i:])
		v := get(id)
		if v == nil {
			so.p.ErrReplies++
			st = 0x0A
			out = cat(out, le16(id), le16(0x14))
			continue
		}
		out = cat(out, le16(id), le16(0), v)
	}
	return cipReply(svc, st, nil, out)
}

// object answers for the objects of this file; nil means that the object is another one.
func (so *statusObj) object(svc byte, class, inst, attr uint32, data []byte, fail func(byte, ...uint16) []byte) []byte {
	p := so.p
	switch class {
	case 0x73:
		if inst != 1 {
			p.refused("fault log %d", inst)
			return fail(5)
		}
		if svc != 1 || len(data) != 0 || attr != 0 {
			p.refused("service %#x for attribute %d of the fault log with %d bytes", svc, attr, len(data))
			return fail(8)
		}
		return cipReply(svc, 0, nil, so.faults.Data)
	case 0x69:
		if inst != 0 || svc != 3 {
			p.refused("service %#x of forces %d", svc, inst)
			return fail(5)
		}
		return so.attrs(svc, data, fail, func(id uint16) []byte {
			if id == 9 {
				return so.forces.Data
			}
			return nil
		})
	case 0x8B:
		if inst != 1 {
			return fail(5)
		}
		get := func(id uint16) []byte {
			if id == 0x0B {
				return le64(uint64(so.clock()))
			}
			return nil
		}
		switch svc {
		case 3:
			return so.attrs(svc, data, fail, get)
		case 0x0E:
			if v := get(uint16(attr)); v != nil && attr < 0x10000 {
				return cipReply(svc, 0, nil, v)
			}
			return fail(0x14)
		}
		return fail(8)
	case 0x0F:
		if inst < 1 || inst > nParams {
			return fail(5, 0x2104)
		}
		if attr != 1 {
			return fail(0x14)
		}
		switch svc {
		case 0x0E:
			return cipReply(svc, 0, nil, so.params.Data[2*inst-2:2*inst])
		case 0x10:
			if inst > 30 {
				return fail(0x0E)
			}
			if len(data) < 2 {
				p.bad("a parameter set to % x", data)
				return fail(0x13)
			}
			if len(data) > 2 {
				p.bad("a parameter set to % x", data)
				return fail(0x15)
			}
			o := so.onSvc("set", uint64(inst)<<32|uint64(g16(data)))
			if o == nil {
				return fail(0x0F)
			}
			so.params.apply(p, int(2*inst-2), data)
			return cipReply(svc, 0, nil, nil)
		}
		return fail(8)
	case 0x93:
		if inst != 0 || svc != 0x32 && svc != 0x34 {
			return fail(8)
		}
		if len(data)%4 != 0 || len(data) == 0 {
			p.bad("a scattered access of %d bytes", len(data))
			return fail(0x13)
		}
		var out []byte
		for i := 0; i < len(data); i += 4 {
			n := g16(data[i:])
			if n < 1 || n > nParams {
				return fail(0x1F, 0x100+uint16(i/4))
			}
			out = cat(out, le16(n), so.params.Data[2*n-2:2*n])
		}
		return cipReply(svc, 0, nil, out)
	case 0x64:
		if inst != 1 && inst != 259 {
			return fail(5)
		}
		if svc != 0x4C || len(data) != 12 {
			p.refused("service %#x with % x", svc, trunc(data, 16))
			return fail(8)
		}
		o := so.onSvc("add", binary.LittleEndian.Uint64(data))
		if o == nil {
			return fail(0x0F)
		}
		o.old = so.total
		so.total += g32(data[8:])
		return cipReply(svc, 0, nil, le32(o.old))
	}
	return nil
}

// ---------------------------------------------------------------- the client's side

// statusW is what the client has asked of these objects.
type statusW struct {
	so   *statusObj
	ops  map[string]*svcOp
	kept []keptItem
}

// keptItem is a result that the caller still holds.
type keptItem struct {
	op   string
	it   *gologix.CIPItem
	data []byte
}

func (w *CW) addStatus() {
	so := newStatus(w.p)
	w.p.status = so
	x := &statusW{so: so, ops: map[string]*svcOp{}}
	w.status = x
	so.onSvc = func(kind string, id uint64) *svcOp {
		o := x.ops[fmt.Sprintf("%s %x", kind, id)]
		if o == nil {
			w.h.Violate("wrong-service", "the device was told to %s %x, which nobody asked for", kind, id)
			return nil
		}
		o.count++
		if o.count > 1 {
			w.h.Violate("double-service", "%s was carried out %d times", o.desc, o.count)
		}
		if o.done && o.ok {
			w.h.Violate("late-service", "%s was carried out after it had reported success", o.desc)
		}
		return o
	}
}

// keep remembers a result, to see whether later calls change it.
func (w *CW) keep(op string, it *gologix.CIPItem) {
	if w.status == nil || it == nil || len(w.status.kept) >= 60 {
		return
	}
	w.status.kept = append(w.status.kept, keptItem{op, it, append([]byte(nil), it.Data...)})
}

func (w *CW) checkKept() {
	if w.status == nil {
		return
	}
	for _, k := range w.status.kept {
		if !bytes.Equal(k.it.Data, k.data) {
			w.h.Violate("result-changed", "the result of %s was % x and is % x after other calls", k.op, trunc(k.data, 40), trunc(k.it.Data, 40))
			return
		}
	}
}

// refusedAs checks how a refusal by the device is reported.
func (w *CW) refusedAs(op string, ci *callInfo, carries bool, want ...byte) {
	if ci.err == nil {
		w.h.Violate("wrong-attr", "%s succeeded although the device refuses it with status %#x", op, want[0])
		return
	}
	if w.faulty || w.tasks > 1 || !carries || w.s.StallSince(ci.t0) > 0 {
		return
	}
	var e gologix.CIPStatusError
	if !errors.As(ci.err, &e) || !bytes.Contains(want, []byte{byte(e.Status)}) {
		w.h.Violate("wrong-status", "%s was refused by the device with status %#x; the error is %q", op, want[0], ci.err)
	}
}

func (w *CW) path(st string, class, inst uint32, attr int) []byte {
	switch w.s.Draw(st, 3) {
	case 1:
		pb := gologix.NewPathBuilder().Class(gologix.CIPClass(class)).Instance(gologix.CIPInstance(inst))
		if attr >= 0 {
			pb = pb.Attribute(gologix.CIPAttribute(attr))
		}
		return pb.Bytes()
	case 2:
		pb := (&gologix.PathBuilder{}).Class(gologix.CIPClass(class)).Instance(gologix.CIPInstance(inst))
		if attr >= 0 {
			pb = pb.Attribute(gologix.CIPAttribute(attr))
		}
		return pb.Bytes()
	}
	if attr >= 0 {
		b, err := gologix.Serialize(gologix.CIPClass(class), gologix.CIPInstance(inst), gologix.CIPAttribute(attr))
		if err != nil {
			w.h.Violate("setup", "Serialize of a path: %v", err)
			return nil
		}
		return b.Bytes()
	}
	b, err := gologix.Serialize(gologix.CIPClass(class), gologix.CIPInstance(inst))
	if err != nil {
		w.h.Violate("setup", "Serialize of a path: %v", err)
		return nil
	}
	return b.Bytes()
}

// statusOp is one query of the objects of this file.
func (w *CW) statusOp(st string) {
	s := w.s
	x := w.status
	so := x.so
	var it *gologix.CIPItem
	generic := func(op string, svc gologix.CIPService, path, data []byte) *callInfo {
		ci := w.call(op, func() (err error) {
			it, err = w.c.GenericCIPMessage(svc, path, data)
			return
		})
		w.keep(op, it)
		return ci
	}
	switch k := s.Draw(st, 10); k {
	case 0, 1:
		var f canned.FaultSummary
		ci := w.call("canned.GetFaults()", func() (err error) { f, err = canned.GetFaults(w.c); return })
		if ci.err == nil {
			w.faults(f, ci)
		}
	case 2:
		var f canned.ForceStatus
		ci := w.call("canned.GetForces()", func() (err error) { f, err = canned.GetForces(w.c); return })
		if ci.err != nil {
			return
		}
		for _, d := range so.forces.versionsIn(ci.start, ci.end) {
			if g16(d) == uint16(f) {
				if e := f.Enabled(); e != (f&1 != 0) {
					w.h.Violate("wrong-status", "ForceStatus(%#x).Enabled() = %v", uint16(f), e)
				}
				return
			}
		}
		w.h.Violate("wrong-attr", "canned.GetForces() = %#x, which the controller did not hold during the call", uint16(f))
	case 3:
		t0 := so.clock()
		var ci *callInfo
		var got int64
		var err error
		op := ""
		switch s.Draw(st, 3) {
		case 0:
			op = "GetAttrSingle(clock)"
			ci = w.call(op, func() (err error) { it, err = w.c.GetAttrSingle(gologix.CipObject_TIME, 1, 11); return })
			if ci.err == nil {
				got, err = it.Int64()
			}
		case 1:
			op = "GetAttrList(clock)"
			ci = w.call(op, func() (err error) { it, err = w.c.GetAttrList(gologix.CipObject_TIME, 1, 11); return })
			if ci.err == nil {
				var r struct {
					ID, Status uint16
					T          int64
				}
				err = it.DeSerialize(&r)
				got = r.T
				if r.ID != 11 || r.Status != 0 {
					err = fmt.Errorf("attribute %d, status %d", r.ID, r.Status)
				}
			}
		default:
			op = "GenericCIPMessage(clock)"
			ci = generic(op, gologix.CIPService_GetAttributeList, w.path(st, 0x8B, 1, -1), []byte{1, 0, 11, 0})
			if ci.err == nil {
				var r struct {
					N          int16
					ID, Status uint16
					T          int64
				}
				err = it.DeSerialize(&r)
				got = r.T
				if r.N != 1 || r.ID != 11 || r.Status != 0 {
					err = fmt.Errorf("%d attributes, attribute %d, status %d", r.N, r.ID, r.Status)
				}
			}
		}
		if ci.err != nil {
			return
		}
		w.keep(op, it)
		if t1 := so.clock(); err != nil || got < t0 || got > t1 {
			w.h.Violate("wrong-attr", "%s = %d (%v); the controller's clock was between %d and %d during the call", op, got, err, t0, t1)
		}
	case 4:
		// a parameter
		n := 1 + s.Draw(st, nParams)
		var ci *callInfo
		op := fmt.Sprintf("parameter %d", n)
		if s.Draw(st, 2) == 0 {
			op = "GetAttrSingle " + op
			ci = w.call(op, func() (err error) { it, err = w.c.GetAttrSingle(0x0F, gologix.CIPInstance(n), 1); return })
		} else {
			op = "GenericCIPMessage " + op
			ci = generic(op, gologix.CIPService_GetAttributeSingle, w.path(st, 0x0F, uint32(n), 1), [][]byte{nil, {}}[s.Draw(st, 2)])
		}
		if ci.err != nil {
			return
		}
		w.keep(op, it)
		v, err := it.Int16()
		w.params(op, ci, []int{n}, []uint16{uint16(v)}, err)
	case 5:
		// several parameters at once
		var ns []int
		var ask []int32
		for i := 1 + s.Draw(st, 30); i > 0; i-- {
			n := 1 + s.Draw(st, nParams)
			ns = append(ns, n)
			ask = append(ask, int32(n))
		}
		b, err := gologix.Serialize(ask)
		if err != nil {
			w.h.Violate("setup", "Serialize(%v): %v", ask, err)
			return
		}
		op := fmt.Sprintf("ScatteredRead %v", ns)
		ci := generic(op, gologix.CIPService_ScatteredRead, w.path(st, 0x93, 0, -1), b.Bytes())
		if ci.err != nil {
			return
		}
		var vs []uint16
		for _, n := range ns {
			var id, v uint16
			if id, err = it.Uint16(); err == nil {
				v, err = it.Uint16()
			}
			if err == nil && int(id) != n {
				err = fmt.Errorf("parameter %d instead of %d", id, n)
			}
			if err != nil {
				break
			}
			vs = append(vs, v)
		}
		if err == nil && len(it.Rest()) != 0 {
			err = fmt.Errorf("%d more bytes", len(it.Rest()))
		}
		w.params(op, ci, ns, vs, err)
	case 6, 7:
		// a service that changes something
		w.nextVal++
		var o *svcOp
		var ci *callInfo
		if s.Draw(st, 2) == 0 {
			n := uint32(1 + s.Draw(st, nParams))
			v := uint16(w.nextVal*131 + 7)
			key := fmt.Sprintf("set %x", uint64(n)<<32|uint64(v))
			if x.ops[key] != nil {
				return
			}
			o = &svcOp{desc: fmt.Sprintf("SetAttributeSingle(parameter %d, %d)", n, v)}
			x.ops[key] = o
			ci = generic(o.desc, gologix.CIPService_SetAttributeSingle, w.path(st, 0x0F, n, 1), le16(v))
			if n > 30 {
				w.refusedAs(o.desc, ci, true, 0x0E)
				return
			}
		} else {
			id := w.nextVal * 0x9E3779B97F4A7C15
			key := fmt.Sprintf("add %x", id)
			o = &svcOp{desc: fmt.Sprintf("service 4C #%d", w.nextVal)}
			x.ops[key] = o
			ci = generic(o.desc, 0x4C, w.path(st, 0x64, []uint32{1, 259}[s.Draw(st, 2)], -1), cat(le64(id), le32(uint32(1+w.nextVal%5))))
			if ci.err == nil {
				old, err := it.Uint32()
				if o.count == 1 && (err != nil || old != o.old) {
					w.h.Violate("wrong-attr", "%s returned %d (%v), the device's answer to it was %d", o.desc, old, err, o.old)
				}
			}
		}
		o.done, o.ok = true, ci.err == nil
		if o.ok && o.count == 0 {
			w.h.Violate("lost-service", "%s reported success, but the device never carried it out", o.desc)
		}
	case 8:
		// what the device refuses
		switch s.Draw(st, 6) {
		case 0:
			op := "GenericCIPMessage(parameter 41)"
			w.refusedAs(op, generic(op, gologix.CIPService_GetAttributeSingle, w.path(st, 0x0F, nParams+1, 1), nil), true, 5)
		case 1:
			op := "GenericCIPMessage(attribute 300 of parameter 1)"
			w.refusedAs(op, generic(op, gologix.CIPService_GetAttributeSingle, w.path(st, 0x0F, 1, 300), nil), true, 0x14)
		case 2:
			op := "GetAttrSingle(clock, attribute 12)"
			w.refusedAs(op, w.call(op, func() (err error) { it, err = w.c.GetAttrSingle(0x8B, 1, 12); return }), false, 0x14)
		case 3:
			op := "GetAttrList(clock, attributes 11 and 12)"
			w.refusedAs(op, w.call(op, func() (err error) { it, err = w.c.GetAttrList(0x8B, 1, 11, 12); return }), false, 0x0A)
		case 4:
			op := "ScatteredRead [1 200]"
			w.refusedAs(op, generic(op, gologix.CIPService_ScatteredRead, w.path(st, 0x93, 0, -1), cat(le32(1), le32(200))), true, 0x1F)
		default:
			op := "GetAttrList(forces, attribute 9 of instance 2 of the clock)"
			w.refusedAs(op, w.call(op, func() (err error) { it, err = w.c.GetAttrList(0x8B, 2, 9); return }), false, 5)
		}
	default:
		w.props()
	}
}

// params checks parameters read in one message.
func (w *CW) params(op string, ci *callInfo, ns []int, vs []uint16, err error) {
	if err == nil && len(ns) == len(vs) {
		for _, d := range w.status.so.params.versionsIn(ci.start, ci.end) {
			eq := true
			for i, n := range ns {
				eq = eq && g16(d[2*n-2:]) == vs[i]
			}
			if eq {
				return
			}
		}
	}
	w.h.Violate("wrong-attr", "%s succeeded with %v (%v), which the device did not hold during the call", op, vs, err)
}

// faults checks a summary of the faults and what is said about it.
func (w *CW) faults(f canned.FaultSummary, ci *callInfo) {
	b := cat(le32(uint32(f.MajorType)), le32(uint32(f.MinorType)), le16(f.MajorCount), le16(f.MinorCount))
	for _, e := range f.Events {
		b = cat(b, le64(e.Timestamp), le16(e.FaultClass), le16(e.FaultCode), e.Detail[:])
	}
	found := false
	for _, d := range w.status.so.faults.versionsIn(ci.start, ci.end) {
		found = found || bytes.Equal(b, d)
	}
	if !found {
		w.h.Violate("wrong-attr", "canned.GetFaults() = %+v, which the controller did not hold during the call", f)
		return
	}
	for _, e := range f.Events {
		d, text := e.Description(), e.String()
		switch m, ok := canned.FaultDescriptions[int(e.FaultClass)][int(e.FaultCode)]; {
		case e.FaultClass == 0 && e.FaultCode == 0:
			if text != "No Fault" {
				w.h.Violate("wrong-status", "no fault is described as %q", text)
			}
		case ok:
			if d != m || text != m.Display {
				w.h.Violate("wrong-status", "fault %d/%d is described as %q (%+v)", e.FaultClass, e.FaultCode, text, d)
			}
			fallthrough
		default:
			if d.Type != int(e.FaultClass) || d.Code != int(e.FaultCode) {
				w.h.Violate("wrong-status", "fault %d/%d is described as %d/%d", e.FaultClass, e.FaultCode, d.Type, d.Code)
			}
			if num := fmt.Sprintf("T%02d:C%02d", e.FaultClass, e.FaultCode); !ok && (!strings.Contains(text, num) || !strings.Contains(text, "Unknown")) {
				w.h.Violate("wrong-status", "the undocumented fault %s is described as %q", num, text)
			}
		}
	}
	for _, t := range []canned.FaultType{f.MajorType, f.MinorType} {
		got := []bool{t.PowerupFault(), t.IOFault(), t.ProgramFault(), t.WatchdogFault(), t.NVMemoryFault(), t.ModeChangeFault(), t.SerialPortFault(), t.EnergyStorageFault(), t.MotionFault(),
			t.RedundancyFault(), t.RTCFault(), t.NonRecoverableFault(), t.CommunicationFault(), t.DiagnosticsFault(), t.CIPMotionFault(), t.EthernetFault(), t.LicenseFault(), t.AlarmFault(), t.OPCUAFault()}
		for i, bit := range []int{1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21} {
			if got[i] != (t>>bit&1 == 1) {
				w.h.Violate("wrong-status", "of the fault types %#x, the test for bit %d says %v", uint32(t), bit, got[i])
			}
		}
	}
}

func init() {
	ops := [opCount]int{opStatus: 40, opAttrs: 8, opIdentity: 4, opRead: 4, opWrite: 2, opSleep: 3, opReadMap: 1, opConnect: 1, opDisconnect: 2}
	register(&Check{Prop: "C19", Keys: []string{"wrong-attr", "wrong-status", "wrong-identity", "wrong-service", "double-service", "late-service", "lost-service", "result-changed", "spurious-error", "dup-seq", "malformed-request", "unbounded"},
		Scen: []Scen{{Name: "status", Weight: 1, Run: func(h *H) {
			runClient(h, &profile{faultPct: 60, tasks: []int{4, 2, 2, 1}, ops: ops, maxOps: 14, prep: func(w *CW) {
				w.addStatus()
				if w.p.MutReq == 0 && h2(h, "cfg.status") {
					w.p.MutReq = 50
				}
			}})
		}}}})
}
