//go:build go1.23

package simrt

import (
	"reflect"
	"runtime"
	"time"
)

func goexit() { runtime.Goexit() }

// Case is one communication clause of a rewritten select statement.
type Case interface {
	try() bool
	rcase() reflect.SelectCase
	set(v reflect.Value, ok bool)
}

type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }
func (r *RecvCase[T]) try() bool {
	select {
	case r.V, r.OK = <-r.ch:
		return true
	default:
		return false
	}
}
func (r *RecvCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}
func (r *RecvCase[T]) set(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		reflect.ValueOf(&r.V).Elem().Set(v)
	}
}

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func SC[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}
func (r *SendCase[T]) try() bool {
	select {
	case r.ch <- r.v:
		return true
	default:
		return false
	}
}
func (r *SendCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.ch), Send: reflect.ValueOf(&r.v).Elem()}
}
func (r *SendCase[T]) set(v reflect.Value, ok bool) {}

// Select returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s, t := S, cur
	if s != nil && s.killing {
		if hasDefault {
			return -1
		}
		goexit()
	}
	if s != nil && t != nil {
		SyncPoint("select")
		n := len(cases)
		if n > 0 {
			// which ready case wins is a scheduling decision
			off := 0
			if n > 1 {
				off = s.Draw("select", n)
			}
			for i := 0; i < n; i++ {
				k := (i + off) % n
				if cases[k].try() {
					return k
				}
			}
		}
		if hasDefault {
			return -1
		}
	}
	var rc []reflect.SelectCase
	for _, c := range cases {
		rc = append(rc, c.rcase())
	}
	if s == nil || t == nil {
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].set(v, ok)
		return i
	}
	rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(t.kill)})
	s.enterNative(t, "select")
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		goexit()
	}
	cases[i].set(v, ok)
	s.wokenNative(t)
	return i
}

// ---------------------------------------------------------------- timers

var jit int64

// jitter keeps timers from expiring at the same instant.
func jitter(d time.Duration) time.Duration {
	jit++
	return d + time.Duration(jit%997)
}

func After(d time.Duration) <-chan time.Time { return time.After(jitter(d)) }
func NewTimer(d time.Duration) *time.Timer   { return time.NewTimer(jitter(d)) }
func NewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		return time.NewTicker(d) // panics as the original does
	}
	return time.NewTicker(jitter(d))
}
func Tick(d time.Duration) <-chan time.Time { return time.Tick(jitter(d)) }

func AfterFunc(d time.Duration, f func()) *time.Timer {
	s := S
	return time.AfterFunc(jitter(d), func() {
		if s == nil || S != s || s.killing {
			return
		}
		s.spawn("timer", true, f)
	})
}
