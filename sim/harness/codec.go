//go:build go1.23

package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"reflect"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
	"github.com/danomagnum/gologix/lgxtypes"
)

// Encoding and decoding of structures (Pack, Unpack and the types with codecs
// of their own) over readers and writers that split, end and fail anywhere.

// Blob has codecs of its own, with a length that depends on the value.
type Blob struct {
	N byte
	D [7]byte
}

func (b Blob) Pack(w io.Writer) (int, error) {
	n, err := w.Write([]byte{b.N})
	if err != nil {
		return n, err
	}
	m, err := w.Write(b.D[:b.N])
	return n + m, err
}

func (b *Blob) Unpack(r io.Reader) (int, error) {
	var x [1]byte
	if _, err := io.ReadFull(r, x[:]); err != nil {
		return 0, err
	}
	if x[0] > 7 {
		return 1, errors.New("bad length of a blob")
	}
	*b = Blob{N: x[0]}
	n, err := io.ReadFull(r, b.D[:b.N])
	return n + 1, err
}

// Raw serializes itself.
type Raw struct{ A, B uint16 }

func (r Raw) Bytes() []byte {
	return []byte{0xAA, byte(r.A), byte(r.A >> 8), byte(r.B), byte(r.B >> 8)}
}
func (r Raw) Len() int { return 5 }
func (r *Raw) Unpack(rd io.Reader) (int, error) {
	b := make([]byte, 5)
	n, err := io.ReadFull(rd, b)
	r.A, r.B = binary.LittleEndian.Uint16(b[1:]), binary.LittleEndian.Uint16(b[3:])
	return n, err
}

var (
	codecScalars = []reflect.Type{
		reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)),
		reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	}
	tBool      = reflect.TypeOf(false)
	codecOwn   = []reflect.Type{reflect.TypeOf(lgxtypes.TIMER{}), reflect.TypeOf(lgxtypes.COUNTER{}), reflect.TypeOf(lgxtypes.CONTROL{}), reflect.TypeOf(lgxtypes.STRING{}), reflect.TypeOf(Blob{}), reflect.TypeOf(Raw{})}
	codecTypes = map[int]reflect.Type{}
)

const codecPool = 3000

// rnd is the fixed generator of the type pool.
type rnd uint64

func (r *rnd) n(n int) int {
	*r += 0x9E3779B97F4A7C15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return int((z ^ z>>31) % uint64(n))
}

// codecType is a structure type of the pool; a higher number is more complex.
func codecType(i int) reflect.Type {
	if t := codecTypes[i]; t != nil {
		return t
	}
	r := rnd(i)
	r.n(1)
	t := genType(&r, 1+i*7/codecPool, i*4/codecPool)
	codecTypes[i] = t
	return t
}

func genType(r *rnd, fields, depth int) reflect.Type {
	n := 1 + r.n(fields)
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		k := r.n(20)
		sub := func() reflect.Type {
			if depth <= 0 || r.n(4) == 0 {
				return codecOwn[r.n(len(codecOwn))]
			}
			return genType(r, 4, depth-1)
		}
		switch {
		case k < 5:
			f.Type = codecScalars[r.n(len(codecScalars))]
		case k < 9:
			f.Type = tBool
		case k < 10:
			f.Type, f.Tag = tBool, `pack:"nopack"`
		case k < 12:
			f.Type = reflect.ArrayOf(1+r.n(19), tBool)
		case k < 13:
			f.Type, f.Tag = reflect.ArrayOf(1+r.n(5), tBool), `pack:"nopack"`
		case k < 15:
			f.Type = reflect.ArrayOf(1+r.n(5), codecScalars[r.n(len(codecScalars))])
		case k < 18:
			f.Type = sub()
		case k < 19:
			f.Type = reflect.ArrayOf(1+r.n(3), sub())
		default:
			f.Type = reflect.ArrayOf(1+r.n(2), reflect.ArrayOf(1+r.n(2), sub()))
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func codecAlign(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Struct:
		a := 1
		for i := 0; i < t.NumField(); i++ {
			a = max(a, codecAlign(t.Field(i).Type))
		}
		return a
	case reflect.Array:
		return codecAlign(t.Elem())
	}
	return int(t.Size())
}

func padTo(b []byte, a int) []byte {
	for len(b)%a != 0 {
		b = append(b, 0)
	}
	return b
}

// codecModel encodes a value: booleans in a row share bytes, lowest bit first; every other
// field starts at a multiple of its alignment within its structure; the elements of an array
// of structures are padded to their alignment; a structure has no padding at its end.
func codecModel(v reflect.Value) []byte {
	flags := func(at int, bits ...bool) (w uint32) {
		for i, b := range bits {
			if b {
				w |= 1 << (at - i)
			}
		}
		return
	}
	switch x := v.Interface().(type) {
	case lgxtypes.TIMER:
		return cat(le32(flags(31, x.EN, x.TT, x.DN, x.FS, x.LS, x.OV, x.ER)), le32(uint32(x.PRE)), le32(uint32(x.ACC)))
	case lgxtypes.COUNTER:
		return cat(le32(flags(31, x.CU, x.CD, x.DN, x.OV, x.UN)), le32(uint32(x.PRE)), le32(uint32(x.ACC)))
	case lgxtypes.CONTROL:
		return cat(le32(flags(31, x.EN, x.EU, x.DN, x.EM, x.ER, x.UL, x.IN, x.FD)), le32(uint32(x.LEN)), le32(uint32(x.POS)))
	case Blob:
		return append([]byte{x.N}, x.D[:x.N]...)
	case Raw:
		return x.Bytes()
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}
		}
		return []byte{0}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return le64(uint64(v.Int()))[:v.Type().Size()]
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return le64(v.Uint())[:v.Type().Size()]
	case reflect.Float32:
		return le32(math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return le64(math.Float64bits(v.Float()))
	case reflect.Array:
		var b []byte
		a := codecAlign(v.Type())
		for i := 0; i < v.Len(); i++ {
			b = append(b, codecModel(v.Index(i))...)
			if holdsStruct(v.Type()) {
				b = padTo(b, a)
			}
		}
		return b
	case reflect.Struct:
		var b []byte
		bit := 0
		put := func(x bool) {
			if bit == 0 {
				b = append(b, 0)
			}
			if x {
				b[len(b)-1] |= 1 << bit
			}
			bit = (bit + 1) % 8
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Tag.Get("pack") != "nopack" {
				if f.Kind() == reflect.Bool {
					put(f.Bool())
					continue
				}
				if f.Kind() == reflect.Array && f.Type().Elem().Kind() == reflect.Bool {
					for k := 0; k < f.Len(); k++ {
						put(f.Index(k).Bool())
					}
					continue
				}
			}
			bit = 0
			b = append(padTo(b, codecAlign(f.Type())), codecModel(f)...)
		}
		return b
	}
	panic("codecModel: " + v.Type().String())
}

func holdsStruct(t reflect.Type) bool {
	for t.Kind() == reflect.Array {
		t = t.Elem()
	}
	return t.Kind() == reflect.Struct
}

// codecFill gives a value random contents.
func codecFill(s *simrt.Sim, st string, v reflect.Value) {
	bits := func(size uintptr) uint64 {
		switch s.Draw(st, 4) {
		case 0:
			return 0
		case 1:
			return math.MaxUint64
		}
		return uint64(s.Draw(st, 1<<30))*0x9E3779B97F4A7C15>>7 ^ uint64(s.Draw(st, 256))
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(s.Draw(st, 2) == 1)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(bits(v.Type().Size())) << (64 - 8*v.Type().Size()) >> (64 - 8*v.Type().Size()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(bits(0) << (64 - 8*v.Type().Size()) >> (64 - 8*v.Type().Size()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(s.Draw(st, 1<<24))/8 - 1e6)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			codecFill(s, st, v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(Blob{}) {
			b := Blob{N: byte(s.Draw(st, 8))}
			for i := 0; i < int(b.N); i++ {
				b.D[i] = byte(s.Draw(st, 256))
			}
			v.Set(reflect.ValueOf(b))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			codecFill(s, st, v.Field(i))
		}
	}
}

// ---------------------------------------------------------------- faulty readers and writers

var errInjected = errors.New("injected i/o error")

// chunked delivers a stream in pieces and ends it as it was told to.
type chunked struct {
	s      *simrt.Sim
	st     string
	data   []byte
	pos    int
	mode   int   // 0 as much as asked for, 1 single bytes, 2 random pieces
	end    error // after the data
	joined bool  // the last piece comes with the end
	zeros  int   // empty reads still to come
	done   bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.pos == len(c.data) {
		c.done = true
		return 0, c.end
	}
	if c.zeros > 0 && c.s.Draw(c.st, 3) == 0 {
		c.zeros--
		c.s.Stat("fault.empty_read")
		return 0, nil
	}
	n := min(len(p), len(c.data)-c.pos)
	switch c.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + c.s.Draw(c.st, n)
	}
	if n < len(p) {
		c.s.Stat("fault.short_read")
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.pos == len(c.data) && c.joined {
		c.done = true
		c.s.Stat("fault.data_with_end")
		return n, c.end
	}
	return n, nil
}

// failing is a writer that fails once when it has taken so many bytes.
type failing struct {
	s      *simrt.Sim
	b      bytes.Buffer
	at     int // -1 never
	keep   bool
	failed bool
	writes int
}

func (f *failing) Write(p []byte) (int, error) {
	f.writes++
	if f.at >= 0 && !(f.failed && !f.keep) && f.b.Len()+len(p) > f.at {
		n := max(f.at-f.b.Len(), 0)
		f.b.Write(p[:n])
		f.failed = true
		if n > 0 {
			f.s.Stat("fault.short_write")
		} else {
			f.s.Stat("fault.write_error")
		}
		return n, errInjected
	}
	f.b.Write(p)
	return len(p), nil
}

// codecVal is one value with the bytes it stands for.
type codecVal struct {
	v    reflect.Value
	enc  []byte
	sl   int // it is decoded into a slice of that many, 0: it is a single one
	want reflect.Value
}

func (h *H) codecVal(st string) *codecVal {
	s := h.S
	i := s.Draw(st, codecPool)
	if s.Draw(st, 3) == 0 {
		i %= 200
	}
	t := codecType(i)
	if s.Draw(st, 12) == 0 {
		t = codecOwn[s.Draw(st, len(codecOwn))]
	}
	c := &codecVal{v: reflect.New(t).Elem()}
	codecFill(s, st, c.v)
	c.enc = codecModel(c.v)
	c.want = c.v
	return c
}

// slice makes a list of values that is decoded in one call.
func (h *H) codecSlice(st string) *codecVal {
	s := h.S
	t := codecType(s.Draw(st, codecPool))
	c := &codecVal{sl: 1 + s.Draw(st, 4)}
	c.want = reflect.MakeSlice(reflect.SliceOf(t), c.sl, c.sl)
	for i := 0; i < c.sl; i++ {
		codecFill(s, st, c.want.Index(i))
		c.enc = padTo(append(c.enc, codecModel(c.want.Index(i))...), codecAlign(t))
	}
	return c
}

func (c *codecVal) name() string {
	n := c.want.Type().String()
	if len(n) > 300 {
		n = n[:300] + "..."
	}
	return n
}

// dest is a destination with other contents.
func (c *codecVal) dest(s *simrt.Sim, st string) reflect.Value {
	if c.sl > 0 {
		d := reflect.MakeSlice(c.want.Type(), c.sl, c.sl)
		for i := 0; i < c.sl; i++ {
			codecFill(s, st, d.Index(i))
		}
		return d
	}
	p := reflect.New(c.want.Type())
	codecFill(s, st, p.Elem())
	return p
}

func (c *codecVal) same(d reflect.Value) bool {
	if c.sl == 0 {
		d = d.Elem()
	}
	return reflect.DeepEqual(d.Interface(), c.want.Interface())
}

// decode runs one Unpack on a stream of which so many bytes are left.
func (h *H) decode(c *codecVal, r io.Reader, ok bool, left func() int, how string, st string) error {
	d := c.dest(h.S, st)
	before := left()
	n, err := gologix.Unpack(r, d.Interface())
	used := before - left()
	if err != nil {
		if ok {
			h.Violate("decode-fails", "Unpack of %s failed (%v) although %s has all %d bytes of it", c.name(), err, how, len(c.enc))
		}
		return err
	}
	switch {
	case !c.same(d):
		h.Violate("decode-wrong", "Unpack of %s from %s: %v, the bytes % x stand for %v", c.name(), how, reflect.Indirect(d), c.enc, c.want)
	case used != len(c.enc):
		h.Violate("decode-misaligned", "Unpack of %s from %s consumed %d bytes, its encoding has %d", c.name(), how, used, len(c.enc))
	case n != len(c.enc):
		h.Violate("decode-count", "Unpack of %s from %s says it read %d bytes, not %d", c.name(), how, n, len(c.enc))
	}
	return nil
}

func (h *H) encode(c *codecVal, w io.Writer) (int, error) { return gologix.Pack(w, c.v.Interface()) }

// runCodecIO encodes and decodes values with readers and writers that fail at any byte.
func runCodecIO(h *H) {
	s := h.S
	h.noStalls()
	n := 1 + s.Draw("cfg.values", 6)
	tasks := 1 + s.Pick("cfg.tasks", 3, 1, 1)
	var ts []*simrt.Task
	for k := 0; k < tasks; k++ {
		ts = append(ts, s.Go(fmt.Sprintf("codec%d", k), func() {
			st := fmt.Sprintf("op/codec%d", k)
			for i := 0; i < n; i++ {
				h.codecOp(st)
				simrt.Yield("codec")
			}
		}))
	}
	s.Join(ts...)
}

func (h *H) codecOp(st string) {
	s := h.S
	switch s.Pick(st, 3, 3, 4, 4, 2) {
	case 0: // several values to one writer
		w := &failing{s: s, at: -1}
		var all []byte
		for i, n := 0, 1+s.Draw(st, 4); i < n; i++ {
			c := h.codecVal(st)
			k, err := h.encode(c, w)
			all = append(all, c.enc...)
			switch {
			case err != nil:
				h.Violate("encode-fails", "Pack of %s failed: %v", c.name(), err)
			case !bytes.Equal(w.b.Bytes(), all):
				h.Violate("encode-wrong", "Pack of %s = %v wrote % x, not % x", c.name(), c.v, tail(w.b.Bytes(), len(all)-len(c.enc)), c.enc)
			case k != len(c.enc):
				h.Violate("encode-count", "Pack of %s says it wrote %d bytes, not %d", c.name(), k, len(c.enc))
			}
			s.Stat("codec.packed")
		}
	case 1: // a writer that fails
		c := h.codecVal(st)
		w := &failing{s: s, at: s.Draw(st, len(c.enc)+1), keep: s.Draw(st, 2) == 1}
		_, err := h.encode(c, w)
		if w.failed && err == nil {
			h.Violate("write-error-lost", "Pack of %s (%d bytes) to a writer that failed after %d bytes reports no error", c.name(), len(c.enc), w.at)
		}
		if !w.failed && err != nil {
			h.Violate("encode-fails", "Pack of %s failed (%v) although no write did", c.name(), err)
		}
		if k := min(w.at, len(c.enc), w.b.Len()); !bytes.Equal(w.b.Bytes()[:k], c.enc[:k]) {
			h.Violate("encode-wrong", "Pack of %s wrote % x before the failure, not % x", c.name(), w.b.Bytes()[:k], c.enc[:k])
		}
		s.Stat("codec.pack_fault")
	case 2: // complete streams in pieces
		var cs []*codecVal
		var all []byte
		for i, n := 0, 1+s.Draw(st, 4); i < n; i++ {
			c := h.codecVal(st)
			if s.Draw(st, 6) == 0 {
				c = h.codecSlice(st)
			}
			cs = append(cs, c)
			all = append(all, c.enc...)
		}
		r := h.codecReader(st, all)
		for _, c := range cs {
			if h.decode(c, r, true, func() int { return len(r.data) - r.pos }, "a stream in pieces", st) != nil {
				return
			}
			s.Stat("codec.unpacked")
		}
	case 3: // a stream that ends or fails early
		c := h.codecVal(st)
		if s.Draw(st, 6) == 0 {
			c = h.codecSlice(st)
		}
		cut := s.Draw(st, len(c.enc)+1)
		r := h.codecReader(st, c.enc[:cut])
		if s.Draw(st, 2) == 1 {
			r.end = errInjected
			s.Stat("fault.read_error")
		} else {
			s.Stat("fault.early_end")
		}
		err := h.decode(c, r, cut == len(c.enc), func() int { return len(r.data) - r.pos }, fmt.Sprintf("a stream that ends after %d of %d bytes", cut, len(c.enc)), st)
		if err == nil && cut < len(c.enc) {
			h.Violate("decode-short", "Unpack of %s succeeded on %d of its %d bytes", c.name(), cut, len(c.enc))
		}
		s.Stat("codec.unpack_fault")
	case 4: // what was encoded is decoded
		c := h.codecVal(st)
		var b bytes.Buffer
		if _, err := h.encode(c, &b); err != nil {
			h.Violate("encode-fails", "Pack of %s failed: %v", c.name(), err)
			return
		}
		r := h.codecReader(st, b.Bytes())
		d := c.dest(s, st)
		if _, err := gologix.Unpack(r, d.Interface()); err != nil {
			h.Violate("decode-fails", "Unpack of what Pack made of %s failed: %v", c.name(), err)
		} else if !c.same(d) {
			h.Violate("decode-wrong", "Unpack of what Pack made of %v: %v", c.v, d)
		}
		s.Stat("codec.round_trip")
	}
}

func tail(b []byte, from int) []byte {
	if from > len(b) {
		return nil
	}
	return b[from:]
}

func (h *H) codecReader(st string, b []byte) *chunked {
	s := h.S
	return &chunked{s: s, st: st, data: b, mode: s.Draw(st, 3), end: io.EOF, joined: s.Draw(st, 2) == 1, zeros: s.Pick(st, 2, 1) * 5}
}

// watched notes the errors of a connection that were reported to the codec.
type watched struct {
	net.Conn
	err  error
	read int
}

func (w *watched) Write(p []byte) (int, error) {
	n, err := w.Conn.Write(p)
	if err != nil {
		w.err = err
	}
	return n, err
}

func (w *watched) Read(p []byte) (int, error) {
	n, err := w.Conn.Read(p)
	w.read += n
	if err != nil {
		w.err = err
	}
	return n, err
}

// runCodecTCP sends values over a simulated connection with faults.
func runCodecTCP(h *H) {
	s := h.S
	const st = "cfg.codec"
	n := 1 + s.Draw(st, 8)
	var vals []*codecVal
	total := 0
	for i := 0; i < n; i++ {
		vals = append(vals, h.codecVal(st))
		total += len(vals[i].enc)
	}
	link := simrt.LinkConfig{LatMin: time.Millisecond, LatMax: time.Duration(1+s.Draw(st, 50)) * time.Millisecond, Seg: s.Draw(st, 3), Window: []int{0, 1, 7, 64}[s.Draw(st, 4)]}
	faulty := s.Pick(st, 2, 3) == 1
	if faulty {
		link.FaultKind = 1 + s.Draw(st, 4)
		link.FaultAt = s.Draw(st, total+1)
		link.FaultDur = time.Duration(1+s.Draw(st, 8)) * time.Second
	}
	s.Net.Link = func(int, string) simrt.LinkConfig { return link }
	dl := time.Duration(0)
	if s.Draw(st, 2) == 1 || faulty {
		dl = 5 * time.Second
	}
	l, err := simrt.Listen("tcp", ":4711")
	if err != nil {
		panic(err)
	}
	sent, got := 0, 0
	rx := s.Go("receiver", func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		w := &watched{Conn: c}
		defer c.Close()
		for i, v := range vals {
			if dl > 0 {
				c.SetReadDeadline(time.Now().Add(dl))
			}
			start := w.read
			d := v.dest(s, "op/receiver")
			k, err := gologix.Unpack(w, d.Interface())
			if err != nil {
				if w.err == nil {
					h.Violate("decode-fails", "Unpack of value %d %s failed (%v) although the connection did not", i, v.name(), err)
				}
				s.Logf("receiver stops at value %d", i)
				return
			}
			got++
			switch {
			case w.read-start != len(v.enc):
				h.Violate("decode-misaligned", "Unpack of value %d %s took %d bytes off the connection, its encoding has %d", i, v.name(), w.read-start, len(v.enc))
			case !v.same(d):
				h.Violate("decode-wrong", "Unpack of value %d %s from a connection: %v, %v was sent", i, v.name(), reflect.Indirect(d), v.v)
			case k != len(v.enc):
				h.Violate("decode-count", "Unpack of %s says it read %d bytes, not %d", v.name(), k, len(v.enc))
			case w.err != nil && w.err != io.EOF:
				h.Violate("decode-short", "Unpack of value %d %s succeeded although the connection failed: %v", i, v.name(), w.err)
			}
		}
	})
	tx := s.Go("sender", func() {
		c, err := simrt.Dial("tcp", "10.0.0.9:4711")
		if err != nil {
			h.Violate("harness", "dial: %v", err)
			return
		}
		w := &watched{Conn: c}
		defer c.Close()
		for i, v := range vals {
			if dl > 0 {
				c.SetWriteDeadline(time.Now().Add(dl))
			}
			k, err := h.encode(v, w)
			if w.err != nil && err == nil {
				h.Violate("write-error-lost", "Pack of value %d %s reports no error although the connection failed: %v", i, v.name(), w.err)
			}
			if err != nil {
				if w.err == nil {
					h.Violate("encode-fails", "Pack of value %d %s failed (%v) although the connection did not", i, v.name(), err)
				}
				return
			}
			if k != len(v.enc) {
				h.Violate("encode-count", "Pack of %s says it wrote %d bytes, not %d", v.name(), k, len(v.enc))
			}
			sent++
		}
	})
	if !s.JoinUntil(10*time.Minute, rx, tx) {
		h.Violate("unbounded", "the transfer of %d values did not end", n)
		return
	}
	l.Close()
	s.StatN("codec.tcp_values", int64(got))
	if !faulty && dl == 0 && (sent != n || got != n) {
		h.Violate("decode-fails", "%d of %d values were sent and %d received on a connection without faults", sent, n, got)
	}
}

func init() {
	register(&Check{Prop: "C17", MaxSim: time.Hour,
		Keys: []string{"decode-fails", "decode-wrong", "decode-misaligned", "decode-count", "decode-short", "encode-fails", "encode-wrong", "encode-count", "write-error-lost", "unbounded", "harness"},
		Scen: []Scen{{Name: "streams", Weight: 3, Run: runCodecIO}, {Name: "connection", Weight: 1, Run: runCodecTCP}}})
}
