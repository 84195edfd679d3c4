//go:build go1.23

package harness

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/danomagnum/gologix"
)

// Names and sizes that do not make sense. There is one right answer to all of
// them: an error, and no effect.

// oddName makes a tag name that denotes nothing.
func (w *CW) oddName(st string) string {
	s := w.s
	arr := []string{"aDINT", "aINT", "aREAL"}[s.Draw(st, 3)]
	two := "mDINT"
	sc := "sDINT0"
	pick := func(l ...string) string { return l[s.Draw(st, len(l))] }
	switch s.Draw(st, 5) {
	case 0: // index
		i := pick("-1", "", "x", "1.5", "4294967296", "4294967297", "18446744073709551616", "-4294967295", "1][2", "0x1", "1,2", "1,", "--1", "1;2", "one")
		n := arr + "[" + i + "]"
		if s.Draw(st, 3) == 1 {
			n = two + "[" + pick("1,", ",1", "-1,2", "1,-1", "1,x", "0,4294967296", "1][1", "0,1,2", "1,,1") + "]"
		}
		if s.Draw(st, 4) == 1 {
			n = "vUA[" + pick("-1", "x", "", "4294967296") + "].A"
		}
		return n
	case 1: // brackets
		return pick(arr+"[2", arr+"2]", arr+"]", "]", "[", "[]", "[1]", arr+"[1]x", "["+arr+"]", arr+"[[1]]", "uUE.Arr[-1]", "uUE.Arr[]", "uUE.Arr]")
	case 2: // bits
		return pick(sc+".-1", sc+".32", sc+".99999999999999999999", "sSINT0.8", "sSINT0.31", "sINT0.16", "sBYTE1.8", "sUSINT1.8", "sUINT0.16", "sWORD0.16", "sUDINT1.32", "sDWORD1.32", "sLINT1.64", "sLWORD0.64", "sREAL0.0", "sLREAL1.1", "sSTRING0.0", "sBOOL0.1", "sLINT0.64", "sDINT1.32", sc+".1.2", sc+".0.0", sc+".-0x1", "uUA.3.A", "uUA.0.B", sc+".1x")
	case 3: // dots
		return pick("", ".", "..", "5", ".5", sc+".", "."+sc, sc+"..1", "uUA..A", "uUA.", ".uUA.A", "uUA.A.", "Program:Main", "Program:.pDINT", "Program:Main.", "Program:Main..pDINT")
	}
	// length
	switch s.Draw(st, 3) {
	case 0:
		return sc + strings.Repeat("a", []int{249, 250, 251, 256, 300, 65536}[s.Draw(st, 6)])
	case 1:
		if s.Draw(st, 2) == 1 {
			// about as long as a path can be
			return strings.Repeat("uUA.", 84) + "ABCDEFGHIJ"[:1+s.Draw(st, 10)]
		}
		return strings.Repeat("uUA.", []int{60, 100, 200, 20000}[s.Draw(st, 4)]) + "A"
	}
	return arr + "[" + strings.Repeat("1,", []int{100, 254, 300}[s.Draw(st, 3)]) + "1]"
}

// odd is one call that has to fail.
func (w *CW) odd(st string) {
	s := w.s
	w.p.Odd++
	if !w.faulty {
		// with faults a request may arrive after its call has failed
		defer func() { w.p.Odd-- }()
	}
	fail := func(op string, f func() error) {
		ci := w.callX(op, true, f)
		if ci.err == nil {
			w.h.Violate("not-told", "%s succeeded", op)
		}
	}
	switch s.Draw(st, 5) {
	case 0:
		w.oddSize(st, fail)
		return
	case 1:
		w.oddUse(st, fail)
		return
	}
	n := w.oddName(st)
	show := n
	if len(show) > 60 {
		show = fmt.Sprintf("%s...(%d)", show[:40], len(n))
	}
	wr := w.nextVal + 1
	w.nextVal++
	one := []any{int32(wr), int16(wr), float32(wr), true}[s.Draw(st, 4)]
	switch s.Draw(st, 9) {
	case 0:
		v := reflect.New(reflect.TypeOf(one))
		fail(fmt.Sprintf("Read(%q,%T)", show, one), func() error { return w.c.Read(n, v.Interface()) })
	case 1:
		t := []gologix.CIPType{gologix.CIPTypeUnknown, gologix.CIPTypeDINT, gologix.CIPTypeBOOL}[s.Draw(st, 3)]
		fail(fmt.Sprintf("Read_single(%q,%v)", show, t), func() error { _, err := w.c.Read_single(n, t, 1); return err })
	case 2:
		fail(fmt.Sprintf("ReadMap(%q)", show), func() error { return w.c.ReadMap(map[string]any{"sDINT1": int32(0), n: one}) })
	case 3:
		fail(fmt.Sprintf("ReadList(%q)", show), func() error {
			_, err := w.c.ReadList([]string{n, "sDINT1"}, []any{one, int32(0)}, []int{1, 1})
			return err
		})
	case 4:
		fail(fmt.Sprintf("ReadTagGroup(%q)", show), func() error {
			_, err := w.c.ReadTagGroup(gologix.NewTagGroup(gologix.TagDef{Name: n, Type: gologix.CIPTypeDINT, Elements: 1 + s.Draw(st, 2)}))
			return err
		})
	case 5:
		dst := make([]int32, 1+s.Draw(st, 3))
		fail(fmt.Sprintf("Read(%q,[%d]int32)", show, len(dst)), func() error { return w.c.Read(n, dst) })
	case 6, 7:
		fail(fmt.Sprintf("Write(%q,%T)", show, one), func() error { return w.c.Write(n, one) })
	default:
		fail(fmt.Sprintf("WriteMap(%q)", show), func() error { return w.c.WriteMap(map[string]any{n: one}) })
	}
}

// oddSize asks for more than a request can name.
func (w *CW) oddSize(st string, fail func(op string, f func() error)) {
	s := w.s
	k := []int{65536, 65537, 65536 + 12, 131072 + 5, 70000}[s.Draw(st, 5)]
	tag := []string{"aDINT", "aDINT[0]", "bigDINT", "aDINT[1]"}[s.Draw(st, 4)]
	switch s.Draw(st, 8) {
	case 0:
		dst := make([]int32, k)
		fail(fmt.Sprintf("Read(%q,[%d]int32)", tag, k), func() error { return w.c.Read(tag, dst) })
	case 1:
		n := []int{k, -1, -65530, 0}[s.Draw(st, 4)]
		fail(fmt.Sprintf("ReadList(%q,%d)", tag, n), func() error {
			_, err := w.c.ReadList([]string{tag}, []any{[]int32{}}, []int{n})
			return err
		})
	case 2:
		fail(fmt.Sprintf("ReadMap(%q,[%d]int32)", tag, k), func() error { return w.c.ReadMap(map[string]any{tag: make([]int32, k)}) })
	case 3:
		v := make([]int32, k)
		fail(fmt.Sprintf("Write(%q,[%d]int32)", tag, k), func() error { return w.c.Write(tag, v) })
	case 4:
		v := make([]int32, 16370+s.Draw(st, 40)) // does not fit into a message, or only just
		if s.Draw(st, 2) == 1 {
			v = make([]int32, 20000)
		}
		fail(fmt.Sprintf("Write(%q,[%d]int32)", tag, len(v)), func() error { return w.c.Write(tag, v) })
	case 5:
		fail(fmt.Sprintf("WriteMap(%q,[%d]int32)", tag, k), func() error { return w.c.WriteMap(map[string]any{tag: make([]int32, k)}) })
	case 6:
		dst := make([]bool, 32*k)
		fail(fmt.Sprintf("Read(\"bits\",[%d]bool)", len(dst)), func() error { return w.c.Read("bits", dst) })
	default:
		n := []int{0, 0, k}[s.Draw(st, 3)]
		dst := make([]UA, n)
		fail(fmt.Sprintf("Read(\"vUA\",[%d]UA)", n), func() error { return w.c.Read("vUA", dst) })
	}
}

// oddUse has destinations and sources that can not be used.
func (w *CW) oddUse(st string, fail func(op string, f func() error)) {
	s := w.s
	type hidden struct {
		A int32 `gologix:"sDINT1"`
		b int32 `gologix:"sDINT0"`
	}
	type ptrEmb struct {
		C int32 `gologix:"sDINT1"`
		*UAtags
	}
	bad := []any{nil, int32(0), "x", (*ptrEmb)(nil), hidden{}, &hidden{}, &ptrEmb{}, ptrEmb{}, []int32{1}, struct{}{}}
	switch s.Draw(st, 5) {
	case 0:
		k := s.Draw(st, len(bad)-1)
		if _, ok := bad[k].(hidden); ok {
			k++
		}
		fail(fmt.Sprintf("ReadMulti(%T)", bad[k]), func() error { return w.c.ReadMulti(bad[k]) })
	case 1:
		k := s.Draw(st, len(bad)-1)
		fail(fmt.Sprintf("WriteMulti(%T)", bad[k]), func() error { return w.c.WriteMulti(bad[k]) })
	case 2: // a bit is a BOOL, and there is one of it
		n := []string{"sDINT0.3", "sINT0.15", "sSINT0.0"}[s.Draw(st, 3)]
		switch s.Draw(st, 4) {
		case 0:
			var v int32
			fail(fmt.Sprintf("Read(%q,int32)", n), func() error { return w.c.Read(n, &v) })
		case 1:
			fail(fmt.Sprintf("ReadMap(%q,int16)", n), func() error { return w.c.ReadMap(map[string]any{n: int16(0)}) })
		case 2:
			fail(fmt.Sprintf("Read_single(%q,BOOL,2)", n), func() error { _, err := w.c.Read_single(n, gologix.CIPTypeBOOL, 2); return err })
		default:
			fail(fmt.Sprintf("Write(%q,bool)", n), func() error { return w.c.Write(n, true) })
		}
	case 3:
		var v any
		k := s.Draw(st, 4)
		v = []any{nil, int32(0), map[int]int{}, func() {}}[k]
		fail(fmt.Sprintf("Read(\"sDINT1\",%T)", v), func() error { return w.c.Read("sDINT1", v) })
	default:
		if s.Draw(st, 3) == 1 { // a STRING has room for 82 characters
			n := []int{83, 84, 85, 88, 100, 255, 256, 1000, 65536, 65536 + 5}[s.Draw(st, 10)]
			v := strings.Repeat("x", n)
			switch s.Draw(st, 3) {
			case 0:
				fail(fmt.Sprintf("Write(\"sSTRING0\",string of %d)", n), func() error { return w.c.Write("sSTRING0", v) })
			case 1:
				fail(fmt.Sprintf("Write(\"aSTRING\",[]string of %d)", n), func() error { return w.c.Write("aSTRING", []string{"a", v}) })
			default:
				fail(fmt.Sprintf("WriteMap(\"sSTRING0\",string of %d)", n), func() error { return w.c.WriteMap(map[string]any{"sSTRING0": v}) })
			}
			return
		}
		k := s.Draw(st, 6)
		v := []any{nil, []int32{}, map[int]int{}, func() {}, (*int32)(nil), struct{ a any }{}}[k]
		if s.Draw(st, 2) == 0 {
			fail(fmt.Sprintf("Write(\"sDINT1\",%T)", v), func() error { return w.c.Write("sDINT1", v) })
		} else {
			fail(fmt.Sprintf("WriteMap(\"sDINT1\",%T)", v), func() error { return w.c.WriteMap(map[string]any{"sDINT1": v}) })
		}
	}
}

type UAtags struct {
	D int32 `gologix:"sDINT0"`
}
