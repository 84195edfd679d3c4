//go:build go1.23

package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// kaWorld is a client whose keep-alive is watched.
type kaWorld struct {
	*CW
	f      time.Duration
	on     bool   // keep-alive must be polling
	off    bool   // keep-alive must not be polling
	newTag string // tag the last download added
	manu   int    // KeepAlive calls of the application that have not returned
	delay  time.Duration
}

// runKeepAlive drives a client through idle times, losses, cancellations and
// concurrent life cycle calls, and counts the polls the controller sees.
func runKeepAlive(h *H) {
	s := h.S
	w := &kaWorld{CW: newCW(h, false)}
	h.noStalls()
	w.lifeErr = true
	w.p.progIDs = []uint32{1, 2}
	w.tasks = 1
	w.f = []time.Duration{2 * time.Second, 5 * time.Second, 30 * time.Second}[h.Pick("cfg.kaf", 2, 2, 1)]
	if w.T > w.f {
		w.T = time.Second
		w.c.SocketTimeout = w.T
		w.p.Timeout = w.T
	}
	if w.p.ThinkMax > 5*time.Millisecond {
		w.p.ThinkMax = 5 * time.Millisecond
	}
	lmax := []time.Duration{0, 20 * time.Millisecond}[h.Pick("cfg.kalat", 1, 1)]
	seg := h.Pick("cfg.kalat", 1, 1)
	s.Net.Link = func(int, string) simrt.LinkConfig { return simrt.LinkConfig{LatMax: lmax, Seg: seg} }
	w.c.KeepAliveFrequency = w.f
	w.c.KeepAliveAutoStart = true
	w.c.KeepAlivePollTags = h.Pick("cfg.kapoll", 4, 1) == 1
	n := 3 + s.Draw("cfg.kaphases", 6)
	for i := 0; i < n && !s.Stopped(); i++ {
		st := fmt.Sprintf("op/ka/%d", i)
		switch s.Pick(st, 6, 4, 3, 2, 3, 2, 2) {
		case 0:
			w.idle(st)
		case 1:
			w.reconnect()
		case 2:
			w.loss(st)
		case 3:
			w.cancel()
		case 4:
			w.chaos(st)
		case 5:
			w.start()
		case 6:
			// the program in the controller changes
			w.p.props[2+s.Draw(st, 3)] += 1 + uint32(s.Draw(st, 3))
			w.newTag = fmt.Sprintf("downloaded%d", i)
			w.p.AddTag(w.newTag, tDINT, nil)
			if s.Draw(st, 3) == 1 && w.mustConnect() {
				// the controller is still busy with it when it is asked for its tags
				w.p.ListBusy = true
				simrt.Sleep(w.f + s.Dur(st, w.f/10, 2*w.f))
				w.p.ListBusy = false
			}
			w.idle(st)
		}
	}
	if s.Stopped() {
		return
	}
	if w.c.Connected() {
		w.c.Disconnect()
	}
	w.quiet("at the end")
}

// catalogue checks after several periods of the keep-alive which tags the client knows.
func (w *kaWorld) catalogue() {
	if !w.c.Connected() || w.h.S.Stopped() {
		return
	}
	if !w.c.KeepAlivePollTags {
		if len(w.c.KnownTags) > 0 {
			w.h.Violate("ka-catalogue", "the client knows %d tags although nobody asked for them", len(w.c.KnownTags))
		}
		return
	}
	if !w.on {
		return
	}
	for _, n := range []string{"sDINT0", w.newTag} {
		if _, ok := w.c.KnownTags[strings.ToLower(n)]; n != "" && !ok {
			w.h.Violate("ka-catalogue", "keep-alive is to keep track of the tags, but %q is not known (%d tags are)", n, len(w.c.KnownTags))
			return
		}
	}
}

func (w *kaWorld) mustConnect() bool {
	if w.c.Connected() {
		return true
	}
	ci := w.call("Connect()", func() error { return w.c.Connect() })
	if ci.err != nil {
		w.h.Violate("no-recovery", "Connect failed (%v) with a working controller", ci.err)
		return false
	}
	w.on, w.off = true, false
	return true
}

// idle leaves the client alone for some periods and counts the polls.
func (w *kaWorld) idle(st string) {
	s := w.s
	if !w.mustConnect() {
		return
	}
	simrt.Sleep(w.f * 3 / 2) // past the first query
	for l := -1; l != w.p.Lists && !s.Stopped(); {
		// and the list of tags that follows, page by page
		l = w.p.Lists
		simrt.Sleep(w.f)
	}
	k := 2 + s.Draw(st, 4)
	before, lists := len(w.p.AttrPolls), w.p.Lists
	op := 0
	if s.Draw(st, 3) == 0 {
		op = 1 + s.Draw(st, 3)
	}
	end := time.Duration(k)*w.f + w.f/2
	if op > 0 {
		// reads of the application change nothing about it
		for i := 0; i < op; i++ {
			simrt.Sleep(end / time.Duration(op+1))
			var v int32
			if ci := w.call("Read(sDINT0)", func() error { return w.c.Read("sDINT0", &v) }); ci.err != nil {
				w.h.Violate("no-recovery", "a read failed (%v) with a working controller", ci.err)
			}
		}
		simrt.Sleep(end - end/time.Duration(op+1)*time.Duration(op))
	} else {
		simrt.Sleep(end)
	}
	w.catalogue()
	if n := w.p.Lists - lists; n > 0 {
		w.h.Violate("ka-catalogue", "the idle client has asked for lists of tags %d times although nothing has changed in the controller", n)
	}
	n := len(w.p.AttrPolls) - before
	s.Logf("idle %d periods and a half: %d polls", k, n)
	if !w.c.Connected() {
		w.h.Violate("ka-drop", "the idle client is no longer connected although network and controller work")
		return
	}
	switch {
	case w.on && n < k-1:
		w.h.Violate("ka-missing", "%d keep-alive queries in %d and a half periods of %v of a connected idle client", n, k, w.f)
	case w.on && n > k+2:
		w.h.Violate("ka-twice", "%d keep-alive queries in %d and a half periods of %v: more than one keep-alive is active", n, k, w.f)
	case w.off && n > 0:
		w.h.Violate("ka-after-cancel", "%d keep-alive queries although keep-alive was cancelled more than a period ago", n)
	}
}

func (w *kaWorld) reconnect() {
	if w.c.Connected() {
		w.call("Disconnect()", func() error { return w.c.Disconnect() })
		if w.c.Connected() {
			w.h.Violate("lifecycle", "connected after Disconnect")
		}
		w.on, w.off = false, true
		if w.s.Draw("op/rc", 2) == 1 {
			w.quiet("after Disconnect")
		}
	}
	w.mustConnect()
}

// quiet checks that polling and everything else has ended one period after a
// disconnect.
func (w *kaWorld) quiet(when string) {
	s := w.s
	simrt.Sleep(w.f + 3*w.T)
	before := len(w.p.AttrPolls)
	if w.c.Connected() {
		w.h.Violate("lifecycle", "the client connected again by itself (%s)", when)
		return
	}
	if n, names := s.TasksAlive(); n > 0 {
		w.h.Violate("leaked-task", "%d goroutines of the disconnected client still run more than a keep-alive period %s:%s", n, when, names)
	}
	if w.manu > 0 {
		w.h.Violate("leaked-task", "%d calls of KeepAlive have not returned more than a period %s", w.manu, when)
	}
	if s.Net.OpenLib > 0 {
		w.h.Violate("leaked-socket", "%d open sockets %s", s.Net.OpenLib, when)
	}
	simrt.Sleep(2 * w.f)
	if n := len(w.p.AttrPolls) - before; n > 0 || w.c.Connected() {
		w.h.Violate("ka-after-cancel", "%d keep-alive queries more than a period %s", n, when)
	}
}

func (w *kaWorld) cancel() {
	if !w.mustConnect() {
		return
	}
	w.call("KeepAliveCancel(true)", func() error { return w.c.KeepAliveCancel(true) })
	w.on, w.off = false, true
	if w.s.Draw("op/cc", 3) == 0 {
		w.call("KeepAliveCancel(true)", func() error { return w.c.KeepAliveCancel(true) })
	}
}

// start calls KeepAlive, which returns when keep-alive ends.
func (w *kaWorld) start() {
	if !w.mustConnect() {
		return
	}
	w.spawnKA()
	simrt.Sleep(w.f + 3*w.T)
	w.on, w.off = true, false
}

func (w *kaWorld) spawnKA() {
	w.manu++
	w.s.Go("ka", func() {
		w.s.Logf("call KeepAlive()")
		w.c.KeepAlive()
		w.manu--
		w.s.Logf("done KeepAlive()")
	})
}

// loss breaks the connection in one of many ways while the client is idle.
func (w *kaWorld) loss(st string) {
	s := w.s
	if !w.mustConnect() {
		return
	}
	if !w.on {
		w.reconnect()
		if s.Stopped() || !w.on {
			return
		}
	}
	simrt.Sleep(w.f/2 + s.Dur(st, 0, w.f))
	if !w.c.Connected() {
		w.h.Violate("ka-drop", "the idle client is no longer connected although network and controller work")
		return
	}
	p := w.p
	kind := s.Draw(st, 6)
	dials := s.Net.LibDials
	fc := p.FCCount
	s.Logf("loss kind %d", kind)
	t0 := s.Now()
	switch kind {
	case 0:
		p.Restart()
	case 1:
		s.Stat("fault.plc_forgets_connection")
		for _, id := range p.connIDs() {
			p.dropConn(p.conns[id])
		}
	default:
		p.FaultPM = 1000
		p.FaultOn = [][]int{{pfDropReply}, {pfResetBefore}, {pfTruncStall}, {pfStatus, pfEncapStatus}}[kind-2]
	}
	// one period, the failing query, and the attempt to say good bye
	limit := w.f + 3*w.T + 200*time.Millisecond
	for w.c.Connected() && s.Now()-t0 <= limit {
		simrt.Sleep(w.f / 20)
	}
	if w.c.Connected() {
		w.h.Violate("ka-undetected", "the client still says it is connected %v after the connection broke (loss kind %d, period %v, time-out %v)", s.Now()-t0, kind, w.f, w.T)
		return
	}
	_ = fc
	if s.Net.LibDials != dials {
		w.h.Violate("ka-reconnect", "keep-alive opened a new connection by itself")
	}
	p.FaultPM = 0
	w.on, w.off = false, true
	if s.Draw(st, 2) == 1 {
		w.quiet("after the connection was lost")
		if s.Stopped() {
			return
		}
	}
	if s.Draw(st, 2) == 1 {
		// automatic reconnection by a read
		ok := false
		for i := 0; i < 4 && !ok; i++ {
			var v int32
			ci := w.call("Read(sDINT0)", func() error { return w.c.Read("sDINT0", &v) })
			ok = ci.err == nil
		}
		if !ok {
			w.h.Violate("no-recovery", "no recovery with four reads after the connection was lost")
		}
		w.on, w.off = true, false
	} else {
		w.mustConnect()
	}
	w.idle(st)
}

// chaos calls everything from several goroutines at once.
func (w *kaWorld) chaos(st string) {
	s := w.s
	w.tasks = 2 + s.Draw(st, 2)
	var ts []*simrt.Task
	for i := 0; i < w.tasks; i++ {
		name := fmt.Sprintf("%s/%d", st, i)
		n := 2 + s.Draw(st, 5)
		ts = append(ts, s.Go("chaos", func() {
			for k := 0; k < n && !s.Stopped(); k++ {
				o := fmt.Sprintf("%s/%d", name, k)
				switch s.Draw(o, 8) {
				case 0:
					w.call("KeepAliveCancel(true)", func() error { return w.c.KeepAliveCancel(true) })
				case 1, 2:
					w.call("Disconnect()", func() error { return w.c.Disconnect() })
				case 3:
					w.call("Connect()", func() error { return w.c.Connect() })
				case 4:
					w.spawnKA()
				case 5:
					w.call("KeepAliveCancel(false)", func() error { return w.c.KeepAliveCancel(false) })
				case 6:
					var v int32
					w.call("Read(sDINT0)", func() error { return w.c.Read("sDINT0", &v) })
				case 7:
					simrt.Sleep(s.Dur(o, 0, w.f*3/2))
				}
			}
		}))
	}
	s.Join(ts...)
	w.tasks = 1
	if s.Stopped() {
		return
	}
	if s.Net.MaxOpenLib > 1 {
		w.h.Violate("two-sockets", "the client had %d open sockets at once", s.Net.MaxOpenLib)
	}
	// a clean start
	if w.c.Connected() {
		w.call("Disconnect()", func() error { return w.c.Disconnect() })
	}
	w.on, w.off = false, true
	w.quiet("after concurrent calls and Disconnect")
	if !s.Stopped() {
		w.mustConnect()
		if s.Draw(st, 2) == 1 {
			w.idle(st)
		}
	}
}

func init() {
	register(&Check{Prop: "C06", Keys: []string{"ka-missing", "ka-twice", "ka-after-cancel", "ka-undetected", "ka-reconnect", "ka-drop", "ka-catalogue", "leaked-task", "leaked-socket", "two-sockets", "no-recovery", "lifecycle", "unbounded"},
		Scen: []Scen{{Name: "keepalive", Weight: 1, Run: runKeepAlive}}})
}
