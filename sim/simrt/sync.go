//go:build go1.23

package simrt

import (
	"sync"
	"time"
)

type Locker = sync.Locker

// Mutex replaces sync.Mutex. Which waiter gets a free lock is up to the
// scheduler, but as in Go one that has waited for more than a millisecond is
// handed the lock before anybody else.
type Mutex struct {
	locked bool
	q      []*waiter
}

type waiter struct {
	since   time.Time
	granted bool
}

func inTask() bool { return S != nil && cur != nil && !S.killing }

func (m *Mutex) Lock() {
	if !inTask() {
		m.locked = true
		return
	}
	SyncPoint("lock")
	m.lock("mutex")
}

func (m *Mutex) lock(what string) {
	if m.locked {
		S.Stat("sync.contended")
		w := &waiter{since: time.Now()}
		m.q = append(m.q, w)
		S.Block(what, func() bool { return w.granted || !m.locked }, time.Time{})
		for i, x := range m.q {
			if x == w {
				m.q = append(m.q[:i:i], m.q[i+1:]...)
				break
			}
		}
	}
	m.locked = true
}

func (m *Mutex) unlock() {
	m.locked = false
	if len(m.q) > 0 && time.Since(m.q[0].since) > time.Millisecond {
		m.locked = true
		m.q[0].granted = true
	}
}

func (m *Mutex) TryLock() bool {
	if !inTask() {
		m.locked = true
		return true
	}
	SyncPoint("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !inTask() {
		m.locked = false
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.unlock()
	SyncPoint("unlock")
}

// RWMutex replaces sync.RWMutex: a pending writer blocks new readers, and the
// readers that waited for a writer go before the next writer, as in Go.
type RWMutex struct {
	w       Mutex // serialises writers
	pending bool
	writer  bool
	readers int
	rq      []*waiter
}

func (m *RWMutex) Lock() {
	if !inTask() {
		m.writer = true
		return
	}
	SyncPoint("lock")
	m.w.lock("rwmutex")
	m.pending = true
	if m.readers > 0 {
		S.Stat("sync.contended")
		S.Block("rwmutex", func() bool { return m.readers == 0 }, time.Time{})
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	if !inTask() {
		m.writer = true
		return true
	}
	SyncPoint("trylock")
	if m.w.locked || m.readers > 0 {
		return false
	}
	m.w.locked, m.pending, m.writer = true, true, true
	return true
}

func (m *RWMutex) Unlock() {
	if !inTask() {
		m.writer = false
		return
	}
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer, m.pending = false, false
	for _, r := range m.rq {
		r.granted = true
		m.readers++
	}
	m.rq = nil
	m.w.unlock()
	SyncPoint("unlock")
}

func (m *RWMutex) RLock() {
	if !inTask() {
		m.readers++
		return
	}
	SyncPoint("rlock")
	if m.pending {
		S.Stat("sync.contended")
		w := &waiter{}
		m.rq = append(m.rq, w)
		S.Block("rwmutex(r)", func() bool { return w.granted }, time.Time{})
		return
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if !inTask() {
		m.readers++
		return true
	}
	SyncPoint("trylock")
	if m.pending {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if !inTask() {
		m.readers--
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	SyncPoint("runlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	SyncPoint("wg")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !inTask() {
		return
	}
	SyncPoint("wg")
	S.Block("waitgroup", func() bool { return w.n == 0 }, time.Time{})
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.L.Unlock()
	if inTask() {
		S.Block("cond", func() bool { return *woken }, time.Time{})
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	SyncPoint("signal")
}
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	SyncPoint("broadcast")
}

// ---------------------------------------------------------------- channels

func (s *Sim) enterNative(t *Task, why string) {
	t.why = why
	cur = nil
}

// wokenNative parks a task that was blocked on a real channel until scheduled.
func (s *Sim) wokenNative(t *Task) {
	if s.killing {
		// woken by the end of another task: the tasks end one after another
		<-t.kill
		goexit()
	}
	t.cond = nil
	t.deadline = time.Time{}
	t.parked = true
	t.why = "woken"
	s.await(t)
}

func Recv2[T any](ch <-chan T) (v T, ok bool) {
	s, t := S, cur
	if s == nil || t == nil {
		if s != nil && s.killing {
			return
		}
		v, ok = <-ch
		return
	}
	SyncPoint("recv")
	select {
	case v, ok = <-ch:
		return
	default:
	}
	s.enterNative(t, "chan receive")
	select {
	case v, ok = <-ch:
	case <-t.kill:
		goexit()
	}
	s.wokenNative(t)
	return
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		s, t := S, cur
		if s == nil || t == nil {
			if s != nil && s.killing {
				return
			}
			ch <- v
			return
		}
		SyncPoint("send")
		select {
		case ch <- v:
			return
		default:
		}
		s.enterNative(t, "chan send")
		select {
		case ch <- v:
		case <-t.kill:
			goexit()
		}
		s.wokenNative(t)
	}
}

func Close[T any](ch chan<- T) {
	SyncPoint("close")
	close(ch)
}
