//go:build go1.23

// Package simrt is the deterministic simulation runtime. The code under test is
// rewritten at check time (see cmd/vgen) so that its goroutines, locks, channel
// operations, timers, network and random numbers go through this package. One
// scheduler goroutine (the root of a testing/synctest bubble) decides which
// single task runs next; every decision is drawn from named choice streams, so
// a run is a pure function of the streams and the code.
package simrt

import (
	"container/heap"
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
)

// ---------------------------------------------------------------- choices

// Streams holds recorded draws by stream name; it is the replay format.
type Streams map[string][]uint32

type stream struct {
	name string
	rng  splitmix
	rec  []uint32
	pos  int
}

type splitmix struct{ s uint64 }

func (r *splitmix) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// ---------------------------------------------------------------- sim

type event struct {
	at  time.Time
	seq uint64
	fn  func()
	off bool
}
type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if !h[i].at.Equal(h[j].at) {
		return h[i].at.Before(h[j].at)
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() any {
	o := *h
	n := len(o)
	x := o[n-1]
	*h = o[:n-1]
	return x
}

type Violation struct {
	Key string `json:"key"` // class of the violation, stable under minimisation
	Msg string `json:"msg"`
}

type Config struct {
	Seed       uint64
	Replay     Streams // nil: search mode
	MaxSimTime time.Duration
	MaxSteps   int
	MaxYs      int64 // preemption points passed without simulated time advancing
	Trace      bool
	// schedule shape, normally set by the harness from choices
	Quantum   int // mean number of preemption points between preemptions; 0: none
	SyncProb  int // percent probability of a scheduling decision at a synchronisation operation
	StallProb int // per mille probability that a preemption becomes a stall of the task
	StallMax  time.Duration
}

type Sim struct {
	Cfg     Config
	start   time.Time
	streams map[string]*stream
	tasks   []*Task
	q       eventHeap
	seq     uint64
	notify  chan struct{}
	stopped bool
	killing bool
	viol    *Violation
	Dirty   bool

	Steps    int
	Switches int
	lastAdv  time.Time
	ysAcc    int64

	hash       uint64
	shash      uint64
	Log        []string
	Stats      map[string]int64
	Net        *Network
	last       *Task
	maps       map[uintptr]*mapWin
	Probe      map[string]int64
	StallTotal time.Duration // injected task stalls
	stalls     []stall
	tracing    bool
}

// Task is one simulated thread.
type Task struct {
	ID        int
	Name      string
	wake      chan struct{}
	kill      chan struct{}
	parked    bool
	cond      func() bool
	deadline  time.Time
	notBefore time.Time
	done      bool
	why       string
	quantum   int
	mapOpen   []uintptr
	Lib       bool // started by the code under test
	Tag       any
}

var (
	S   *Sim
	cur *Task
	yc  int
	mu  sync.Mutex
)

const hugeY = 1 << 60

// Cur returns the running task (nil in root callbacks).
func Cur() *Task { return cur }

func newStreamSeed(seed uint64, name string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(name))
	r := splitmix{seed ^ h.Sum64()}
	r.next()
	return r.next()
}

func (s *Sim) getStream(name string) *stream {
	st := s.streams[name]
	if st == nil {
		st = &stream{name: name, rng: splitmix{newStreamSeed(s.Cfg.Seed, name)}}
		s.streams[name] = st
	}
	return st
}

// Draw returns a choice in [0,n) from the named stream; 0 is by convention the
// benign choice. In replay mode choices come from the recorded stream and are 0
// once it is exhausted.
func (s *Sim) Draw(name string, n int) int {
	if n <= 1 {
		return 0
	}
	st := s.getStream(name)
	var v uint32
	if s.Cfg.Replay != nil {
		r := s.Cfg.Replay[name]
		if st.pos < len(r) {
			v = r[st.pos] % uint32(n)
		}
	} else {
		v = uint32(st.rng.next() >> 11 % uint64(n))
	}
	st.pos++
	st.rec = append(st.rec, v)
	return int(v)
}

// Chance is true with probability pct percent; false is the benign choice.
func (s *Sim) Chance(name string, pct int) bool { return s.ChanceM(name, pct*10) }

// ChanceM is true with probability pm per mille.
func (s *Sim) ChanceM(name string, pm int) bool {
	if pm <= 0 {
		return false
	}
	st := s.getStream(name)
	var v uint32
	if s.Cfg.Replay != nil {
		r := s.Cfg.Replay[name]
		if st.pos < len(r) && r[st.pos] != 0 {
			v = 1
		}
	} else if int(st.rng.next()>>11%1000) < pm {
		v = 1
	}
	st.pos++
	st.rec = append(st.rec, v)
	return v == 1
}

// Pick draws an index with the given weights; index 0 is the benign choice.
func (s *Sim) Pick(name string, weights ...int) int {
	tot := 0
	for _, w := range weights {
		tot += w
	}
	st := s.getStream(name)
	var v uint32
	if s.Cfg.Replay != nil {
		r := s.Cfg.Replay[name]
		if st.pos < len(r) {
			v = r[st.pos] % uint32(len(weights))
		}
	} else {
		x := int(st.rng.next() >> 11 % uint64(tot))
		for i, w := range weights {
			if x < w {
				v = uint32(i)
				break
			}
			x -= w
		}
	}
	st.pos++
	st.rec = append(st.rec, v)
	return int(v)
}

// Dur draws a duration in [min,max], min being the benign choice.
func (s *Sim) Dur(name string, min, max time.Duration) time.Duration {
	if max <= min {
		return min
	}
	// 1/4096 steps
	return min + time.Duration(int64(max-min)/4095*int64(s.Draw(name, 4096)))
}

// Recorded returns the choice streams used by the run, trailing zeros trimmed.
func (s *Sim) Recorded() Streams {
	out := Streams{}
	for n, st := range s.streams {
		r := st.rec
		for len(r) > 0 && r[len(r)-1] == 0 {
			r = r[:len(r)-1]
		}
		if len(r) > 0 {
			out[n] = append([]uint32(nil), r...)
		}
	}
	return out
}

// ---------------------------------------------------------------- logging

func (s *Sim) Now() time.Duration { return time.Since(s.start) }

func mix(h uint64, str string) uint64 {
	for i := 0; i < len(str); i++ {
		h ^= uint64(str[i])
		h *= 1099511628211
	}
	return h
}

// Logf adds a line to the event log. The hash of all lines identifies the run.
func (s *Sim) Logf(format string, a ...any) {
	l := fmt.Sprintf("%12.6f ", float64(s.Now())/1e9) + fmt.Sprintf(format, a...)
	s.hash = mix(s.hash, l)
	if s.tracing {
		s.Log = append(s.Log, l)
	}
}

// Notef adds a line to the trace only; it does not take part in the hash.
func (s *Sim) Notef(format string, a ...any) {
	if s.tracing {
		s.Log = append(s.Log, "             "+fmt.Sprintf(format, a...))
	}
}

// Hash identifies the complete event log of the run.
func (s *Sim) Hash() uint64 { return s.hash }

// SchedHash identifies the schedule (sequence of task switches and their reasons).
func (s *Sim) SchedHash() uint64 { return s.shash }

func (s *Sim) Stat(name string)           { s.Stats[name]++ }
func (s *Sim) StatN(name string, n int64) { s.Stats[name] += n }

// Violate records a violation and ends the run. The first one counts.
func (s *Sim) Violate(key, format string, a ...any) {
	if s.killing {
		return
	}
	mu.Lock()
	if s.viol == nil {
		s.viol = &Violation{Key: key, Msg: fmt.Sprintf(format, a...)}
		s.stopped = true
	}
	mu.Unlock()
	s.Logf("VIOLATE %s: %s", key, fmt.Sprintf(format, a...))
}

func (s *Sim) Violated() *Violation { return s.viol }
func (s *Sim) Stop()                { s.stopped = true }
func (s *Sim) Stopped() bool        { return s.stopped }
func (s *Sim) Killing() bool        { return s.killing }

// ---------------------------------------------------------------- events

type Event = *event

// After runs fn on the scheduler at now+d.
func (s *Sim) After(d time.Duration, fn func()) Event {
	if d < 0 {
		d = 0
	}
	s.seq++
	e := &event{at: time.Now().Add(d), seq: s.seq, fn: fn}
	heap.Push(&s.q, e)
	return e
}

func (s *Sim) AtTime(t time.Time, fn func()) Event { return s.After(time.Until(t), fn) }
func (s *Sim) Cancel(e Event) {
	if e != nil {
		e.off = true
	}
}

// ---------------------------------------------------------------- tasks

// Go starts a task of the code under test (the rewritten go statement).
func Go(fn func()) {
	if S == nil {
		go fn()
		return
	}
	S.spawn("lib", true, fn)
}

// Go starts a harness task.
func (s *Sim) Go(name string, fn func()) *Task { return s.spawn(name, false, fn) }

func (s *Sim) spawn(name string, lib bool, fn func()) *Task {
	if s.killing {
		return &Task{done: true}
	}
	mu.Lock()
	t := &Task{ID: len(s.tasks), Lib: lib, wake: make(chan struct{}), kill: make(chan struct{})}
	if lib {
		name = fmt.Sprintf("lib%d", t.ID)
	}
	t.Name = name
	if cur != nil {
		t.Tag = cur.Tag
	}
	s.tasks = append(s.tasks, t)
	mu.Unlock()
	t.parked = true
	t.why = "start"
	s.Logf("spawn %s", name)
	go func() {
		defer func() {
			r := recover()
			t.done = true
			t.parked = false
			if s.killing {
				return
			}
			if r != nil {
				s.crash(t, r)
			}
			if cur == t {
				cur = nil
			}
			s.poke()
		}()
		s.await(t)
		fn()
	}()
	return t
}

func (s *Sim) crash(t *Task, r any) {
	st := string(debug.Stack())
	s.Violate("crash", "process crashed: panic in %s: %v\n%s", t.Name, r, trimStack(st))
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	seenPanic := false
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			i++
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		if k := strings.LastIndex(l, "/"); k >= 0 {
			l = l[k+1:]
		}
		if strings.HasPrefix(l, "simrt.") {
			continue
		}
		out = append(out, "    at "+l)
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) poke() {
	select {
	case s.notify <- struct{}{}:
	default:
	}
}

// await blocks until the scheduler resumes t.
func (s *Sim) await(t *Task) {
	s.poke()
	select {
	case <-t.wake:
	case <-t.kill:
		runtime.Goexit()
	}
}

// park gives up the processor until cond holds (nil: at once) or the deadline passes.
func (s *Sim) park(why string, cond func() bool, deadline time.Time) {
	if s.killing {
		return
	}
	t := cur
	if t == nil {
		panic("simrt: blocking operation outside a task: " + why)
	}
	t.cond = cond
	t.deadline = deadline
	t.why = why
	t.parked = true
	cur = nil
	s.await(t)
}

// Block parks the current task until cond holds or the deadline (if not zero)
// passes; it reports whether cond holds.
func (s *Sim) Block(why string, cond func() bool, deadline time.Time) bool {
	for {
		if s.killing || cond() {
			return true
		}
		if !deadline.IsZero() && !time.Now().Before(deadline) {
			return false
		}
		s.park(why, cond, deadline)
	}
}

// SyncPoint is a scheduling point at a synchronisation operation.
func SyncPoint(why string) {
	s := S
	if s == nil || cur == nil || s.killing {
		return
	}
	if s.Cfg.SyncProb > 0 && s.ChanceM("sp", s.Cfg.SyncProb*10) {
		s.park(why, nil, time.Time{})
	}
}

// Yield always makes a scheduling decision.
func Yield(why string) {
	if S == nil || cur == nil || S.killing {
		return
	}
	S.park(why, nil, time.Time{})
}

// Y is the preemption point the rewriter puts before every statement.
func Y() {
	yc--
	if yc < 0 {
		slowY()
	}
}

func slowY() {
	s := S
	if s == nil || cur == nil || s.killing {
		yc = hugeY
		return
	}
	t := cur
	if s.Cfg.StallProb > 0 && s.ChanceM("stall", s.Cfg.StallProb) {
		d := s.Dur("stall", time.Millisecond, s.Cfg.StallMax)
		t.notBefore = time.Now().Add(d)
		s.Stat("fault.task_stall")
		s.StallTotal += d
		s.stalls = append(s.stalls, stall{time.Now(), d})
	}
	s.park("y", nil, time.Time{})
}

const maxQ = 200000

func (s *Sim) quantum() int {
	q := s.Cfg.Quantum
	if q <= 0 {
		return maxQ
	}
	// roughly geometric around q, 0 meaning "no preemption"
	v := s.Draw("q", 64)
	if v == 0 {
		return maxQ
	}
	return 1 + q*v/16 + s.Draw("q2", q)
}

func (s *Sim) resume(t *Task) {
	s.Steps++
	if s.last != t {
		s.Switches++
		s.shash = mix(s.shash, t.Name+":"+t.why)
	}
	s.last = t
	t.parked = false
	t.cond = nil
	t.deadline = time.Time{}
	t.notBefore = time.Time{}
	now := time.Now()
	if now.After(s.lastAdv) {
		s.lastAdv = now
		s.ysAcc = 0
	}
	q := s.quantum()
	t.quantum = q
	yc = q
	cur = t
	t.wake <- struct{}{}
}

// ---------------------------------------------------------------- run

// Run executes one simulation; it must be called on the root goroutine of a
// synctest bubble. director runs as the first task; the run ends when it
// returns, a violation is recorded or a limit is reached.
func Run(cfg Config, director func(s *Sim)) *Sim {
	if cfg.MaxSimTime == 0 {
		cfg.MaxSimTime = 24 * time.Hour
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400000
	}
	if cfg.MaxYs == 0 {
		cfg.MaxYs = 6000000
	}
	s := &Sim{Cfg: cfg, streams: map[string]*stream{}, notify: make(chan struct{}, 1), start: time.Now(),
		hash: 14695981039346656037, shash: 14695981039346656037, Stats: map[string]int64{}, maps: map[uintptr]*mapWin{}, Probe: map[string]int64{}, tracing: cfg.Trace}
	s.lastAdv = s.start
	s.Net = newNetwork(s)
	randN, jit = 0, 0
	S = s
	cur = nil
	s.Go("director", func() { director(s); s.Stop() })
	s.loop()
	s.teardown()
	S = nil
	cur = nil
	return s
}

func (s *Sim) loop() {
	end := s.start.Add(s.Cfg.MaxSimTime)
	for !s.stopped {
		if last := s.last; last != nil && !last.done {
			// account preemption points used
		}
		synctest.Wait()
		cur = nil
		if s.last != nil {
			used := int64(s.last.quantum) - int64(yc)
			if used > 0 && used <= maxQ {
				s.ysAcc += used
			}
			s.last.quantum = yc
		}
		if s.stopped {
			break
		}
		if s.Steps > s.Cfg.MaxSteps || s.ysAcc > s.Cfg.MaxYs {
			s.limit("livelock", "no progress: %d scheduling steps, %d statements without simulated time advancing", s.Steps, s.ysAcc)
			break
		}
		now := time.Now()
		if len(s.q) > 0 && !s.q[0].at.After(now) {
			e := heap.Pop(&s.q).(*event)
			if !e.off {
				e.fn()
			}
			continue
		}
		var ready []*Task
		var next time.Time
		upd := func(t time.Time) {
			if next.IsZero() || t.Before(next) {
				next = t
			}
		}
		for _, t := range s.tasks {
			if t.done || !t.parked {
				continue
			}
			if !t.notBefore.IsZero() && t.notBefore.After(now) {
				upd(t.notBefore)
				continue
			}
			if t.cond == nil && t.deadline.IsZero() {
				ready = append(ready, t)
				continue
			}
			if t.cond != nil && t.cond() {
				ready = append(ready, t)
				continue
			}
			if !t.deadline.IsZero() {
				if !t.deadline.After(now) {
					ready = append(ready, t)
				} else {
					upd(t.deadline)
				}
			}
		}
		if len(ready) > 0 {
			s.resume(s.choose(ready))
			continue
		}
		if len(s.q) > 0 {
			upd(s.q[0].at)
		}
		upd(end)
		if !now.Before(end) {
			s.limit("hang", "simulated time limit of %v reached", s.Cfg.MaxSimTime)
			break
		}
		tm := time.NewTimer(time.Until(next))
		select {
		case <-tm.C:
		case <-s.notify:
			tm.Stop()
		}
	}
}

func (s *Sim) limit(key, f string, a ...any) {
	var b strings.Builder
	for _, t := range s.tasks {
		if !t.done {
			st := "blocked in a channel or timer operation"
			if t.parked {
				st = t.why
			}
			fmt.Fprintf(&b, " [%s: %s]", t.Name, st)
		}
	}
	s.Violate(key, f+"; unfinished tasks:%s", append(a, b.String())...)
}

// choose picks the next task. Index 0 of the drawn order is "keep running the
// last task if it is ready, else the oldest".
func (s *Sim) choose(ready []*Task) *Task {
	if len(ready) == 1 {
		return ready[0]
	}
	sort.Slice(ready, func(i, j int) bool {
		a, b := ready[i], ready[j]
		if (a == s.last) != (b == s.last) {
			return a == s.last
		}
		return a.ID < b.ID
	})
	i := s.Draw("sched", len(ready))
	return ready[i]
}

func (s *Sim) teardown() {
	s.Logf("end after %d steps", s.Steps)
	s.killing = true
	yc = hugeY
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.done {
			continue
		}
		close(t.kill)
		synctest.Wait()
		if !t.done {
			s.Dirty = true
		}
	}
	yc = hugeY
}

// TasksAlive counts unfinished tasks started by the code under test.
func (s *Sim) TasksAlive() (n int, names string) {
	for _, t := range s.tasks {
		if t.Lib && !t.done {
			n++
			st := "blocked"
			if t.parked {
				st = t.why
			}
			names += " " + t.Name + "(" + st + ")"
		}
	}
	return
}

// Join waits until all the given tasks are done.
func (s *Sim) Join(ts ...*Task) {
	s.Block("join", func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	}, time.Time{})
}

// JoinUntil waits for tasks until the deadline.
func (s *Sim) JoinUntil(d time.Duration, ts ...*Task) bool {
	return s.Block("join", func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	}, time.Now().Add(d))
}

func (t *Task) Done() bool { return t.done }

// Sleep of the rewritten time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil || cur == nil {
		return
	}
	if s.killing {
		return
	}
	if d <= 0 {
		s.park("sleep", nil, time.Time{})
		return
	}
	end := time.Now().Add(d)
	s.Block("sleep", func() bool { return !time.Now().Before(end) }, end)
}

type stall struct {
	at time.Time
	d  time.Duration
}

// StallSince is the stall time injected since t, counting what was left then of
// stalls that had begun before.
func (s *Sim) StallSince(t time.Duration) (sum time.Duration) {
	for _, x := range s.stalls {
		if left := x.at.Add(x.d).Sub(s.start.Add(t)); left > 0 {
			sum += min(left, x.d)
		}
	}
	return
}
