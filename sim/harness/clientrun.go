//go:build go1.23

package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// profile is the workload mix of a client check.
type profile struct {
	faultPct int
	tasks    []int // weights of 1, 2, 3.. tasks
	ops      [opCount]int
	maxOps   int
	noRecov  bool
	prep     func(w *CW)
	quietCfg bool // no schedule stalls
}

const (
	opRead = iota
	opReadSingle
	opReadMap
	opReadList
	opReadMulti
	opReadGroup
	opReadWrong
	opReadBig
	opWrite
	opWriteMap
	opWriteMulti
	opAttrs
	opConnect
	opDisconnect
	opSleep
	opList
	opBigList
	opBigWrite
	opIdentity
	opIdle
	opOdd
	opStatus
	opCount
)

// runClient is one run of the client against the reference controller.
func runClient(h *H, pr *profile) {
	s := h.S
	faulty := false
	if pr.faultPct > 0 {
		faulty = h.Pick("cfg.faulty", 100-pr.faultPct, pr.faultPct) == 1
	}
	w := newCW(h, faulty)
	w.p.Strict = true
	if pr.quietCfg {
		h.noStalls()
	}
	w.tasks = 1 + h.Pick("cfg.tasks", pr.tasks...)
	if w.tasks > 1 && (pr.ops[opConnect] > 0 || pr.ops[opDisconnect] > 0) {
		w.lifeErr = true
	}
	if h.Pick("cfg.ka", 2, 3) == 1 {
		w.c.KeepAliveAutoStart = true
		w.c.KeepAliveFrequency = []time.Duration{30 * time.Second, 2 * time.Second, 5 * time.Second}[h.Pick("cfg.ka", 3, 1, 1)]
	} else {
		w.c.KeepAliveAutoStart = false
	}
	if pr.prep != nil {
		pr.prep(w)
	}
	if h.Pick("cfg.connect", 1, 1) == 1 {
		w.connect()
	}
	var ts []*simrt.Task
	maxOps := pr.maxOps
	if maxOps == 0 {
		maxOps = 10
	}
	for i := 0; i < w.tasks; i++ {
		name := fmt.Sprintf("t%d", i)
		n := 2 + s.Draw("cfg.nops", maxOps-1)
		if w.tasks > 2 {
			n = 1 + n/2
		}
		ts = append(ts, s.Go(name, func() {
			for k := 0; k < n && !s.Stopped(); k++ {
				w.op(opStream(name, k), pr)
			}
		}))
	}
	s.Join(ts...)
	if s.Stopped() {
		return
	}
	s.Logf("workload done")
	w.checkKept()
	w.checkSockets("after the workload")
	s.Net.Heal()
	w.p.Healed = true
	if !pr.noRecov {
		w.recover()
	}
	if !s.Stopped() {
		w.finish()
	}
}

func (w *CW) op(st string, pr *profile) {
	s := w.s
	ws := append([]int{1}, pr.ops[:]...)
	k := s.Pick(st, ws...)
	if k == 0 {
		return
	}
	switch k - 1 {
	case opRead:
		w.readScalarOrSlice(w.genItem(st, 0))
	case opReadSingle:
		w.readSingle(w.genItem(st, 0))
	case opReadMap:
		w.readMap(w.multiItems(st, 6, false))
	case opReadList:
		w.readList(w.multiItems(st, 8, false))
	case opReadMulti:
		w.readMulti(w.multiItems(st, 5, false))
	case opReadGroup:
		w.readGroup(w.multiItems(st, 5, false))
	case opReadWrong:
		w.readWrong(w.genItem(st, 2))
	case opReadBig:
		w.readScalarOrSlice(w.bigItem(st))
	case opWrite:
		w.write([]*item{w.writable(w.genItem(st, 1))}, 0)
	case opWriteMap:
		w.write(w.multiWrite(st, 5), 1)
	case opWriteMulti:
		w.write(w.multiWrite(st, 5), 2)
	case opAttrs:
		w.attrs(st)
	case opConnect:
		w.connect()
	case opDisconnect:
		w.disconnect()
	case opSleep:
		simrt.Sleep(s.Dur(st, time.Millisecond, []time.Duration{50 * time.Millisecond, 3 * time.Second}[s.Draw(st, 2)]))
	case opBigList:
		its := w.manyItems(st)
		switch s.Draw(st, 4) {
		case 1:
			w.readMap(its)
		case 2:
			w.readMulti(its)
		case 3:
			w.readGroup(its)
		default:
			w.readList(its)
		}
	case opBigWrite:
		w.write(w.bigWriteItems(st), 1+s.Draw(st, 2))
	case opIdentity:
		w.identity(st)
	case opOdd:
		w.odd(st)
	case opStatus:
		w.statusOp(st)
	case opIdle:
		simrt.Sleep(s.Dur(st, time.Second, 100*time.Second))
	}
}

// bigMax is the number of elements to read at once.
func (w *CW) bigMax() int {
	if w.huge {
		return 65535
	}
	return 2500
}

// bigItem is an array that needs several messages.
func (w *CW) bigItem(st string) *item {
	s := w.s
	var cands []*PTag
	for _, t := range w.p.tagList {
		if t.N*t.ES > 200 || t.N > 1 && t.UDT != nil {
			cands = append(cands, t)
		}
	}
	t := cands[s.Draw(st, len(cands))]
	if w.huge && s.Draw(st, 3) == 0 {
		t = w.p.tags["hugedint"]
	}
	it := &item{tag: t, es: t.ES, n: min(t.N, w.bigMax()), typ: t.Type, udt: t.UDT, bit: -1, mbit: -1, name: t.Name, sl: true}
	if len(t.Dims) == 1 && s.Draw(st, 2) == 1 {
		k := s.Draw(st, t.N-1)
		it.name += fmt.Sprintf("[%d]", k)
		it.off = k * t.ES
		it.n = min(t.N-k, w.bigMax())
		if s.Draw(st, 3) == 0 {
			it.n -= s.Draw(st, it.n-1)
		}
		if it.n == 1 {
			it.sl = true
		}
	}
	return it
}

// manyItems is a list too long for one message.
func (w *CW) manyItems(st string) []*item {
	n := 20 + w.s.Draw(st, 60)
	var out []*item
	seen := map[string]bool{}
	for i := 0; i < n*3 && len(out) < n; i++ {
		it := w.genItem(st, 2)
		if seen[it.name] || it.bit >= 0 {
			continue
		}
		seen[it.name] = true
		out = append(out, it)
	}
	return out
}

func (w *CW) multiWrite(st string, max int) []*item {
	var out []*item
next:
	for _, it := range w.multiItems(st, max, true) {
		if it.udt != nil && it.sl {
			continue
		}
		it = w.writable(it)
		for _, o := range out {
			if o.tag == it.tag && o.off < it.off+it.n*it.es && it.off < o.off+o.n*o.es {
				continue next
			}
		}
		out = append(out, it)
	}
	return out
}

// bigWriteItems are values of which only some fit in one message.
func (w *CW) bigWriteItems(st string) []*item {
	s := w.s
	max := []int{420, 3000}[s.Draw(st, 2)]
	n := 2 + s.Draw(st, 5)
	var out []*item
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		var cands []*PTag
		for _, t := range w.p.tagList {
			if t.UDT == nil && t.N > 1 && t.N*t.ES > 60 && !seen[t.ID] {
				cands = append(cands, t)
			}
		}
		if len(cands) == 0 {
			break
		}
		t := cands[s.Draw(st, len(cands))]
		seen[t.ID] = true
		it := &item{tag: t, es: t.ES, n: min(t.N, max/t.ES), typ: t.Type, bit: -1, mbit: -1, name: t.Name, sl: true}
		if len(t.Dims) > 1 {
			it.name += "[" + strings.Repeat("0,", len(t.Dims)-1) + "0]"
		} else if k := s.Draw(st, t.N-1); k > 0 {
			it.name += fmt.Sprintf("[%d]", k)
			it.off = k * t.ES
			it.n = min(t.N-k, max/t.ES)
		}
		if s.Draw(st, 2) == 1 {
			it.n -= s.Draw(st, it.n)
		}
		out = append(out, it)
	}
	return out
}

// writable restricts an item to what can be written.
func (w *CW) writable(it *item) *item {
	x := *it
	if x.bit >= 0 {
		x.bit = -1
		if i := lastDot(x.name); i > 0 {
			x.name = x.name[:i]
		}
	}
	return &x
}

func lastDot(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- life cycle

func (w *CW) checkSockets(when string) {
	n := w.s.Net
	if n.MaxOpenLib > 1 {
		w.h.Violate("two-sockets", "the client had %d open sockets at once (%s)", n.MaxOpenLib, when)
	}
}

func (w *CW) connect() {
	net := w.s.Net
	was := w.c.Connected()
	dials := net.LibDials
	ci := w.callX("Connect()", was, func() error { return w.c.Connect() })
	w.checkSockets("after Connect")
	if w.tasks > 1 {
		return
	}
	now := w.c.Connected()
	if was && w.c.KeepAliveAutoStart && (w.faulty || w.s.Cfg.StallProb > 0) {
		return // a failing keep-alive may have ended the connection meanwhile
	}
	if was {
		if ci.err == nil {
			w.h.Violate("lifecycle", "Connect on a connected client reported success")
		}
		if net.LibDials != dials {
			w.h.Violate("lifecycle", "Connect on a connected client opened another socket")
		}
		return
	}
	if ci.err != nil {
		if now {
			w.h.Violate("lifecycle", "Connect failed (%v) but the client says it is connected", ci.err)
		}
		if net.OpenLib != 0 {
			w.h.Violate("leaked-socket", "Connect failed (%v) and left %d sockets open", ci.err, net.OpenLib)
		}
	} else if !now && w.c.KeepAliveAutoStart == false && !w.faulty {
		w.h.Violate("lifecycle", "Connect succeeded but the client says it is not connected")
	} else if now && net.OpenLib != 1 && !w.c.KeepAliveAutoStart {
		w.h.Violate("lifecycle", "the client is connected with %d open sockets", net.OpenLib)
	}
}

func (w *CW) disconnect() {
	net := w.s.Net
	was := w.c.Connected()
	fc := w.p.FCCount
	ci := w.callX("Disconnect()", !was, func() error { return w.c.Disconnect() })
	if w.tasks > 1 {
		return
	}
	if !was {
		if ci.err == nil {
			w.h.Violate("lifecycle", "Disconnect on a disconnected client reported success")
		}
		return
	}
	if w.c.Connected() {
		w.h.Violate("lifecycle", "the client is connected after Disconnect returned (%v)", ci.err)
	}
	if net.OpenLib != 0 {
		w.h.Violate("leaked-socket", "Disconnect returned (%v) and left %d sockets open", ci.err, net.OpenLib)
	}
	if !w.faulty && !ci.errs && w.s.StallSince(ci.t0) == 0 && w.p.FCCount == fc {
		w.h.Violate("no-release", "Disconnect did not release the connection in the controller")
	}
}

// recover checks that a client works again once the faults have stopped.
func (w *CW) recover() {
	s := w.s
	w.tasks = 1
	w.lifeErr = false
	var fails []error
	ok := false
	const limit = 4
	for i := 0; i < limit+3; i++ {
		t := w.p.tags["sdint0"]
		it := &item{tag: t, es: 4, n: 1, typ: tDINT, bit: -1, mbit: -1, name: "sDINT0"}
		var v int32
		fl := w.faulty
		w.faulty = true
		ci := w.call("recovery Read", func() error { return w.c.Read("sDINT0", &v) })
		w.faulty = fl
		if s.Stopped() {
			return
		}
		if ci.err == nil {
			ok = true
			w.checkRead("recovery Read", it, v, ci.start, ci.end, ci.frags)
			if !w.c.Connected() && s.Cfg.StallProb == 0 && !w.c.KeepAliveAutoStart {
				w.h.Violate("lifecycle", "a read succeeded but the client says it is not connected")
			}
		} else {
			fails = append(fails, ci.err)
			if ok && s.Cfg.StallProb == 0 {
				w.h.Violate("no-recovery", "a read failed (%v) although the faults had stopped and the read before it had succeeded", ci.err)
			}
			if len(fails) >= limit {
				w.h.Violate("no-recovery", "no recovery: %d reads in a row failed after the faults had stopped; the last with: %v", len(fails), ci.err)
			}
		}
		if s.Stopped() {
			return
		}
		w.p.Mutate(t)
	}
}

// finish disconnects and checks that nothing is left.
func (w *CW) finish() {
	s := w.s
	w.tasks = 1
	w.faulty = w.faulty || s.Cfg.StallProb > 0
	if w.c.Connected() || h2(w.h, "cfg.end") {
		w.disconnect()
	}
	if s.Stopped() {
		return
	}
	w.checkSockets("at the end")
	if !w.c.Connected() && s.Net.OpenLib != 0 {
		w.h.Violate("leaked-socket", "a disconnected client has %d open sockets", s.Net.OpenLib)
	}
	// keep-alive ends within one period
	simrt.Sleep(w.c.KeepAliveFrequency + 3*w.T + s.Cfg.StallMax + time.Second)
	if n, names := s.TasksAlive(); n > 0 && !w.c.Connected() {
		w.h.Violate("leaked-task", "%d goroutines of the disconnected client are still running after a keep-alive period:%s", n, names)
	}
}

func h2(h *H, st string) bool { return h.S.Draw(st, 2) == 1 }

var readKeys = []string{"stale-read", "wrong-read", "unbounded", "dup-seq", "malformed-request", "spurious-error"}

func init() {
	reads := [opCount]int{opRead: 20, opReadSingle: 4, opReadMap: 8, opReadList: 8, opReadMulti: 6, opReadGroup: 5, opReadWrong: 3, opReadBig: 6, opWrite: 3, opSleep: 4, opBigList: 2, opAttrs: 1, opOdd: 3}
	register(&Check{Prop: "C01", Keys: []string{"stale-read", "wrong-read", "wrong-attr", "spurious-error", "dup-seq", "malformed-request", "not-told"},
		Scen: []Scen{{Name: "reads", Weight: 1, Run: func(h *H) {
			runClient(h, &profile{faultPct: 70, tasks: []int{4, 2, 2, 1}, ops: reads})
		}}}})
	writes := [opCount]int{opRead: 6, opReadMap: 2, opWrite: 24, opWriteMap: 10, opWriteMulti: 10, opSleep: 4, opReadBig: 1, opBigWrite: 6, opOdd: 3}
	register(&Check{Prop: "C02", Keys: []string{"wrong-write", "double-write", "late-write", "lost-write", "oversize", "spurious-error", "dup-seq", "malformed-request", "not-told"},
		Scen: []Scen{{Name: "writes", Weight: 1, Run: func(h *H) {
			runClient(h, &profile{faultPct: 65, tasks: []int{4, 2, 2, 1}, ops: writes})
		}}}})
	mixed := [opCount]int{opRead: 14, opReadSingle: 2, opReadMap: 6, opReadList: 5, opReadMulti: 3, opReadGroup: 2, opReadBig: 4, opWrite: 12, opWriteMap: 4, opWriteMulti: 3, opSleep: 3, opBigList: 1, opBigWrite: 1, opAttrs: 14}
	register(&Check{Prop: "C03", Keys: []string{"stale-read", "wrong-read", "wrong-attr", "wrong-write", "double-write", "late-write", "lost-write", "spurious-error", "dup-seq", "malformed-request"},
		Scen: []Scen{{Name: "shared", Weight: 1, Run: func(h *H) {
			runClient(h, &profile{faultPct: 60, tasks: []int{0, 4, 3, 2, 1, 1}, ops: mixed, maxOps: 8})
		}}}})
	all := mixed
	all[opConnect], all[opDisconnect] = 3, 3
	register(&Check{Prop: "C04", Keys: []string{"unbounded", "malformed-request"},
		Scen: []Scen{{Name: "bounded", Weight: 1, Run: func(h *H) {
			runClient(h, &profile{faultPct: 90, tasks: []int{4, 3, 1, 1}, ops: all})
		}}}})
	life := [opCount]int{opRead: 14, opReadMap: 3, opReadBig: 2, opWrite: 4, opSleep: 5, opAttrs: 4, opConnect: 16, opDisconnect: 16}
	register(&Check{Prop: "C05", Keys: []string{"lifecycle", "two-sockets", "leaked-socket", "no-release", "no-recovery", "spurious-error", "malformed-request"},
		Scen: []Scen{{Name: "lifecycle", Weight: 1, Run: func(h *H) {
			runClient(h, &profile{faultPct: 65, tasks: []int{5, 3, 1}, ops: life, maxOps: 12})
		}}}})
	big := [opCount]int{opRead: 3, opReadMap: 1, opReadBig: 24, opWrite: 3, opSleep: 2, opBigList: 16, opBigWrite: 4}
	register(&Check{Prop: "C09", Keys: []string{"stale-read", "wrong-read", "spurious-error", "oversize", "unbounded", "malformed-request", "bad-fragment"},
		Scen: []Scen{{Name: "large", Weight: 1, Run: func(h *H) {
			runClient(h, &profile{faultPct: 55, tasks: []int{4, 2}, ops: big, maxOps: 7, prep: func(w *CW) {
				w.p.FragMode = h.Pick("cfg.frag9", 2, 3, 3)
				w.p.MaxReply = []int{0, 100, 500, 30}[h.Pick("cfg.frag9", 4, 2, 2, 1)]
				if w.p.MaxReply == 0 && h.Pick("cfg.huge9", 12, 1) == 1 {
					// more than 64 kB in one transfer
					w.huge = true
					if w.p.tags["hugedint"] == nil {
						w.p.AddTag("hugeDINT", tDINT, nil, 16500+w.s.Draw("cfg.huge9", 20000)).NoMut = true
					}
				}
				if w.faulty {
					w.p.BadFrag = []int{0, 50, 200}[h.Pick("cfg.frag9", 2, 2, 1)]
				}
			}})
		}}}})
}
