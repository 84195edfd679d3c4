//go:build go1.23

package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// Unsynchronised map access. Go aborts the process when a map write overlaps
// another access. Each map write of the code under test opens a window with a
// scheduling point in it; an access by another task inside an open window is
// the overlap that aborts a real process.

type mapWin struct {
	task *Task
}

func mapID(m any) uintptr { return reflect.ValueOf(m).Pointer() }

func checkWin(id uintptr, what string) bool {
	w := S.maps[id]
	if w != nil && w.task != cur && !w.task.done {
		panic("fatal error: concurrent map " + what + " and map write")
	}
	return true
}

// MR is wrapped around every map that is read by index or iterated.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if m != nil && inTask() && len(S.maps) > 0 {
		checkWin(mapID(m), "access")
	}
	return m
}

// MW is wrapped around the map in an assignment to an element; MWE follows the statement.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil || !inTask() {
		return m
	}
	id := mapID(m)
	checkWin(id, "write")
	if S.maps[id] == nil {
		S.maps[id] = &mapWin{cur}
		cur.mapOpen = append(cur.mapOpen, id)
	}
	if S.ChanceM("mapw", 250) {
		S.park("map write", nil, time.Time{})
	}
	return m
}

// MWI is an instantaneous write access.
func MWI[M ~map[K]V, K comparable, V any](m M) M { return MR[M, K, V](m) }

func MWE() {
	if S == nil || cur == nil {
		return
	}
	for _, id := range cur.mapOpen {
		delete(S.maps, id)
	}
	cur.mapOpen = cur.mapOpen[:0]
}

// MapKeys returns the keys of m in an order drawn from the choice streams.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	MR[M, K, V](m)
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	if ks, ok := any(keys).([]string); ok {
		sort.Strings(ks)
	} else {
		sort.Slice(keys, func(i, j int) bool {
			a, b := reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])
			switch a.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				return a.Int() < b.Int()
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				return a.Uint() < b.Uint()
			case reflect.String:
				return a.String() < b.String()
			}
			return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
		})
	}
	if S == nil || S.killing {
		return keys
	}
	for i := len(keys) - 1; i > 0; i-- {
		j := i - S.Draw("map", i+1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// RMW performs *p = f(*p) with a preemption point between load and store.
func RMW[T any](p *T, f func(T) T) {
	v := *p
	Y()
	*p = f(v)
}
