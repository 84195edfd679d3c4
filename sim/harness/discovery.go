//go:build go1.23

package harness

import (
	"cmp"
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// disc is the discovery workload: random tag populations, listings by several
// goroutines, and comparison of the client's catalogue with the controller.
type disc struct {
	w       *CW
	st      string
	lfaults int // how many there were
	lfault  int // percent of listing requests answered with an error status
	gen     int
}

func (d *disc) name(max int) string {
	s := d.w.s
	n := 1 + s.Draw(d.st, max)
	const al = "ABCdefGHIjklMNOpqrSTUvwxYZ_0123456789"
	b := []byte{al[s.Draw(d.st, 26)]}
	for len(b) < n {
		b = append(b, al[s.Draw(d.st, len(al))])
	}
	return string(b)
}

// instances draws k increasing instance numbers.
func (d *disc) instances(k int) []uint32 {
	s := d.w.s
	gap := []int{1, 5, 300, 30000}[s.Pick(d.st, 2, 3, 2, 1)]
	v := uint32(0)
	var out []uint32
	for i := 0; i < k; i++ {
		v += uint32(1 + s.Draw(d.st, gap))
		out = append(out, v)
	}
	return out
}

func (d *disc) shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, d.w.s.Draw(d.st, i+1))
	}
}

// udt draws a structure definition.
func (d *disc) udt(id uint16) *UDT {
	s := d.w.s
	u := &UDT{Name: fmt.Sprintf("T%d_%s", d.gen, d.name(30)), ID: id, Handle: uint16(s.Draw(d.st, 65536)), Suffix: s.Draw(d.st, 2) == 1}
	d.gen++
	n := []int{1, 6, 25, 70}[s.Pick(d.st, 2, 4, 2, 1)]
	n = 1 + s.Draw(d.st, n)
	off := 0
	for i := 0; i < n; i++ {
		m := UMember{Name: fmt.Sprintf("m%d%s", i, d.name(12)), Bit: -1}
		switch s.Pick(d.st, 6, 2, 2, 2, 1) {
		case 1:
			m.Type, m.Bit = tBOOL, s.Draw(d.st, 8)
			m.Off = off
			off++
			u.Members = append(u.Members, m)
			continue
		case 2:
			us := d.w.p.udts
			m.UDT = us[s.Draw(d.st, len(us))]
		case 3:
			m.Type = tSTRING
		default:
			m.Type = []byte{tDINT, tSINT, tINT, tREAL, tLINT, tLREAL}[s.Draw(d.st, 6)]
		}
		if s.Draw(d.st, 3) == 1 {
			m.N = 1 + s.Draw(d.st, 30)
		}
		sz := 4
		if m.UDT != nil {
			sz = m.UDT.Size
		} else {
			sz = typeSize(m.Type)
		}
		off = (off + 3) &^ 3
		m.Off = off
		off += sz * max(m.N, 1)
		u.Members = append(u.Members, m)
	}
	u.Size = (off + 3) &^ 3
	return u
}

// populate gives the controller a new project.
func (d *disc) populate(st string) {
	w := d.w
	s, p := w.s, w.p
	d.st = st
	// programs
	p.programs = nil
	for i, n := 0, s.Draw(st, 5); i < n; i++ {
		p.programs = append(p.programs, fmt.Sprintf("%s%d", d.name(20), i))
	}
	keep := map[string]bool{}
	if s.Draw(st, 3) > 0 {
		p.programs = append(p.programs, "Main", "Aux2")
	}
	p.progIDs = d.instances(len(p.programs))
	for i, id := range p.progIDs {
		if id > 65535 {
			p.progIDs[i] = uint32(i + 1)
			for k := range p.progIDs {
				p.progIDs[k] = uint32(k*3 + 1)
			}
			break
		}
	}
	d.shuffle(len(p.programs), func(i, j int) { p.programs[i], p.programs[j] = p.programs[j], p.programs[i] })
	for _, n := range p.programs {
		keep[strings.ToLower(n)] = true
	}
	// structures
	p.udts = stdUDTs()
	for i, n := 0, s.Draw(st, 5); i < n; i++ {
		id := uint16(0x10 + s.Draw(st, 0xEE0))
		if p.udtByID(uint32(id)) == nil {
			p.udts = append(p.udts, d.udt(id))
		}
	}
	// tags
	drop := s.Draw(st, 101)
	var tl []*PTag
	p.tags = map[string]*PTag{}
	for _, t := range d.allTags() {
		if t.Name != "sDINT0" && s.Draw(st, 100) < drop || t.Prog != "" && !keep[strings.ToLower(t.Prog)] {
			continue
		}
		tl = append(tl, t)
		p.tags[strings.ToLower(t.Name)] = t
	}
	p.tagList = tl
	// other symbols
	p.extra = map[string][]listEntry{}
	for i, prog := range append([]string{""}, p.programs...) {
		sc := strings.ToLower(prog)
		add := func(name string, typ uint16, dims ...uint32) {
			e := listEntry{name: name, typ: typ}
			copy(e.dims[:], dims)
			p.extra[sc] = append(p.extra[sc], e)
		}
		if i == 0 {
			for _, n := range p.programs {
				add("Program:"+n, 0x1068)
			}
		}
		for k, n := 0, s.Draw(st, []int{4, 12, 40}[s.Pick(st, 3, 2, 1)]); k < n; k++ {
			nm := fmt.Sprintf("%s_%d", d.name([]int{4, 36}[s.Draw(st, 2)]), k)
			typ := []uint16{tDINT, tREAL, tBOOL | 0x0300, tINT, 0x8FCE, 0xDA, 0x1000 | tDINT, 0x9000 | 0x123}[s.Draw(st, 8)]
			switch s.Draw(st, 4) {
			case 1:
				nm = "__" + nm
			case 2:
				typ = 0x8000 | p.udts[s.Draw(st, len(p.udts))].ID
			case 3:
				switch s.Draw(st, 6) {
				case 0:
					nm = "Local:" + fmt.Sprint(k) + ":I"
				case 1:
					nm = fmt.Sprintf("Routine:%s", nm)
				case 2:
					nm = fmt.Sprintf("ProgramCounter%d", k)
				case 3:
					typ = 0x8000 | 0xF00 | uint16(s.Draw(st, 0x80)) // no such template
				case 4:
					nm = fmt.Sprintf("Map:%s", nm)
				}
			}
			var dims []uint32
			for nd := s.Draw(st, 4); nd > 0 && typ&0x8000 == 0 || nd > 1; nd-- {
				dims = append(dims, uint32(1+s.Draw(st, 300)))
			}
			add(nm, typ|uint16(len(dims))<<13, dims...)
		}
		// instance numbers
		var set []*uint32
		for _, t := range p.tagList {
			if strings.EqualFold(t.Prog, prog) {
				set = append(set, &t.Instance)
			}
		}
		for k := range p.extra[sc] {
			set = append(set, &p.extra[sc][k].inst)
		}
		d.shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
		for k, v := range d.instances(len(set)) {
			*set[k] = v
		}
	}
	p.NoProgs = []int{0, 0x05, 0x08, 0x0E}[s.Pick(st, 5, 1, 1, 1)]
	s.Logf("project: %d programs, %d tags, %d other symbols, %d structures", len(p.programs), len(p.tagList), len(p.extra[""]), len(p.udts))
}

// allTags are all tags the world has ever had.
func (d *disc) allTags() []*PTag { return d.w.allTags }

type wantTag struct {
	name string
	e    listEntry
	prog string
}

func visible(name string) bool {
	return name != "" && !strings.HasPrefix(name, "__") && !strings.Contains(name, ":")
}

// catalogue is what a complete discovery must find.
func (p *PLC) catalogue() map[string]wantTag {
	out := map[string]wantTag{}
	for _, e := range p.listing("") {
		if visible(e.name) {
			out[strings.ToLower(e.name)] = wantTag{name: e.name, e: e}
		}
	}
	for _, prog := range p.programs {
		for _, e := range p.listing(prog) {
			if visible(e.name) {
				n := "program:" + prog + "." + e.name
				out[strings.ToLower(n)] = wantTag{name: n, e: e, prog: prog}
			}
		}
	}
	return out
}

// sameTag compares a catalogue entry with the controller's.
func (d *disc) sameTag(op string, kt gologix.KnownTag, want wantTag) bool {
	e := want.e
	var dims []int
	for _, x := range e.dims {
		if x != 0 {
			dims = append(dims, int(x))
		}
	}
	bad := func(f string, a ...any) bool {
		d.w.h.Violate("wrong-listing", "%s reports tag %q %s", op, want.name, fmt.Sprintf(f, a...))
		return false
	}
	switch {
	case kt.Name != want.name:
		return bad("under the name %q", kt.Name)
	case byte(kt.Info.Type) != byte(e.typ) || kt.Info.TypeInfo != byte(e.typ>>8):
		return bad("with type %02x%02x instead of %04x", kt.Info.TypeInfo, byte(kt.Info.Type), e.typ)
	case kt.Info.Dimension1 != e.dims[0] || kt.Info.Dimension2 != e.dims[1] || kt.Info.Dimension3 != e.dims[2]:
		return bad("with dimensions %d,%d,%d instead of %v", kt.Info.Dimension1, kt.Info.Dimension2, kt.Info.Dimension3, e.dims)
	case fmt.Sprint(kt.Array_Order) != fmt.Sprint(dims):
		return bad("with array order %v instead of %v", kt.Array_Order, dims)
	case uint32(kt.Instance) != e.inst:
		return bad("as instance %d instead of %d", kt.Instance, e.inst)
	case (kt.Parent == nil) != (want.prog == "") || kt.Parent != nil && kt.Parent.Name != want.prog:
		return bad("with parent %v instead of %q", kt.Parent, want.prog)
	}
	return true
}

// sameUDT compares a structure definition with the controller's.
func (d *disc) sameUDT(op string, g gologix.UDTDescriptor, u *UDT, partial bool) bool {
	bad := func(f string, a ...any) bool {
		d.w.h.Violate("wrong-template", "%s: structure %q is reported %s", op, u.Name, fmt.Sprintf(f, a...))
		return false
	}
	switch {
	case g.Name != u.Name:
		return bad("under the name %q", g.Name)
	case g.Instance_ID != uint32(u.ID):
		return bad("as instance %x instead of %x", g.Instance_ID, u.ID)
	case len(g.Members) != len(u.Members) || int(g.Info.MemberCount) != len(u.Members):
		return bad("with %d members (%d announced) instead of %d", len(g.Members), g.Info.MemberCount, len(u.Members))
	case g.Info.SizeBytes != uint32(u.Size) || g.Info.Handle != u.Handle:
		return bad("with size %d and handle %x instead of %d, %x", g.Info.SizeBytes, g.Info.Handle, u.Size, u.Handle)
	}
	def := u.definition()
	for i, m := range u.Members {
		gm := g.Members[i]
		if gm.Name != m.Name {
			return bad("with member %d named %q instead of %q", i, gm.Name, m.Name)
		}
		row := def[8*i:]
		if gm.Info.Info != g16(row) || gm.Info.Type != g16(row[2:]) || gm.Info.Offset != g32(row[4:]) {
			return bad("with member %q as info %d type %04x offset %d instead of % x", m.Name, gm.Info.Info, gm.Info.Type, gm.Info.Offset, row[:8])
		}
		mu := m.UDT
		if m.Type == tSTRING {
			mu = stringUDT
		}
		switch {
		case mu == nil && gm.UDT != nil:
			return bad("with a structure for the elementary member %q", m.Name)
		case mu != nil && gm.UDT == nil && !partial:
			return bad("without the definition of its member %q", m.Name)
		case mu != nil && gm.UDT != nil && !d.sameUDT(op, *gm.UDT, mu, partial):
			return false
		}
	}
	return true
}

func (e listEntry) udt(p *PLC) *UDT {
	if e.typ&0x8000 == 0 || e.typ&0x1000 != 0 || e.typ&0xFFF == 0 {
		return nil
	}
	return p.udtByID(uint32(e.typ & 0xFFF))
}

func (d *disc) mayMiss(ci *callInfo, sw int) bool {
	w := d.w
	return w.faulty || d.lfault > 0 && w.tasks > 1 || w.s.StallSince(ci.t0) > 0 || w.p.Swallowed+d.lfaults != sw
}

// limit bounds the exchanges of one discovery.
func (d *disc) limit() {
	p := d.w.p
	n := 100 + len(p.programs)*3
	for _, sc := range append([]string{""}, p.programs...) {
		n += 6 * len(p.listing(sc))
	}
	defs := 0
	for _, u := range p.udts {
		defs += 3 + len(u.definition())/16
	}
	d.w.maxEx = n + 2*defs
	if d.lfault > 0 || d.w.faulty {
		d.w.maxEx *= 20
	}
}

func (d *disc) listAll(start uint32) bool {
	w := d.w
	c, p := w.c, w.p
	d.limit()
	op := fmt.Sprintf("ListAllTags(%d)", start)
	sw := p.Swallowed + d.lfaults
	ci := w.callX(op, d.lfault > 0, func() error { return c.ListAllTags(start) })
	if ci.err != nil || w.s.Stopped() {
		return false
	}
	w.s.Stat("disc.complete")
	cat := p.catalogue()
	var keys []string
	for k := range cat {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	miss := d.mayMiss(ci, sw)
	types := map[string]*UDT{}
	for _, k := range keys {
		want := cat[k]
		if start > 1 && (want.prog != "" || want.e.inst < start) {
			continue
		}
		kt, ok := c.KnownTags[k]
		if !ok {
			w.h.Violate("missing-tag", "%s succeeded without tag %q (instance %d)", op, want.name, want.e.inst)
			return false
		}
		if !d.sameTag(op, kt, want) {
			return false
		}
		u := want.e.udt(p)
		if want.prog != "" {
			continue
		}
		if u == nil && kt.UDT != nil {
			w.h.Violate("wrong-template", "%s reports a structure %q for tag %q, which has none", op, kt.UDT.Name, want.name)
			return false
		}
		if u == nil {
			continue
		}
		if kt.UDT == nil {
			if !miss {
				w.h.Violate("missing-template", "%s succeeded without the definition of structure tag %q", op, want.name)
				return false
			}
			continue
		}
		types[u.Name] = u
		if !d.sameUDT(op, *kt.UDT, u, miss) {
			return false
		}
	}
	if start > 1 {
		return true
	}
	for _, k := range sortedKeys(c.KnownTags) {
		if _, ok := cat[k]; !ok && !strings.HasPrefix(k, "program:") {
			w.h.Violate("phantom-tag", "%s reports a tag %q, which the controller does not have", op, k)
			return false
		} else if !ok {
			if n := k[8:]; p.progIndex(n) < 0 {
				w.h.Violate("phantom-tag", "%s reports a tag %q, which the controller does not have", op, k)
				return false
			}
		}
	}
	for _, k := range sortedKeys(types) {
		kt, ok := c.KnownTypes[k]
		if !ok {
			w.h.Violate("missing-template", "%s succeeded without the structure %q among the known types", op, k)
			return false
		}
		if !d.sameUDT(op, kt, types[k], miss) {
			return false
		}
	}
	for _, k := range sortedKeys(types) {
		if _, ok := c.KnownTypesByID[uint32(types[k].ID)]; !ok && !miss {
			w.h.Violate("missing-template", "%s succeeded without the structure %q (%d) among the types known by their id", op, k, types[k].ID)
			return false
		}
	}
	for _, id := range sortedKeys(c.KnownTypesByID) {
		u := p.udtByID(id)
		if u == nil {
			w.h.Violate("phantom-template", "%s reports a structure with the id %d, which the controller does not have", op, id)
			return false
		}
		if !d.sameUDT(op, c.KnownTypesByID[id], u, miss) {
			return false
		}
	}
	for _, k := range sortedKeys(c.KnownTypes) {
		if types[k] == nil {
			w.h.Violate("phantom-template", "%s reports a structure %q, which no tag has", op, k)
			return false
		}
	}
	return d.programs(op, ci)
}

// programs checks the list of programs.
func (d *disc) programs(op string, ci *callInfo) bool {
	w := d.w
	seen := map[string]bool{}
	for _, k := range sortedKeys(w.c.KnownPrograms) {
		pr := w.c.KnownPrograms[k]
		i := w.p.progIndex(pr.Name)
		if i < 0 || w.p.programs[i] != pr.Name || seen[pr.Name] {
			w.h.Violate("wrong-programs", "%s reports a program %q, the controller has %v", op, pr.Name, w.p.programs)
			return false
		}
		if pr.ID != 0 && uint32(pr.ID) != w.p.progIDs[i] {
			w.h.Violate("wrong-programs", "%s reports program %q as instance %d instead of %d", op, pr.Name, pr.ID, w.p.progIDs[i])
			return false
		}
		seen[pr.Name] = true
	}
	if len(seen) != len(w.p.programs) {
		w.h.Violate("wrong-programs", "%s succeeded with %d of the %d programs", op, len(seen), len(w.p.programs))
		return false
	}
	return true
}

func sortedKeys[K cmp.Ordered, V any](m map[K]V) []K {
	l := make([]K, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	slices.Sort(l)
	return l
}

func (d *disc) listSub(st string) {
	w := d.w
	if len(w.p.programs) == 0 {
		return
	}
	d.limit()
	i := w.s.Draw(st, len(w.p.programs))
	kp := &gologix.KnownProgram{Name: w.p.programs[i]}
	if w.s.Draw(st, 2) == 1 {
		kp.ID = gologix.CIPInstance(w.p.progIDs[i])
	}
	start := uint32(w.s.Draw(st, 2))
	var l []gologix.KnownTag
	op := fmt.Sprintf("ListSubTags(%s,%d)", kp.Name, start)
	ci := w.callX(op, d.lfault > 0, func() (err error) { l, err = w.c.ListSubTags(kp, start); return })
	if ci.err != nil || w.s.Stopped() {
		return
	}
	var want []wantTag
	for _, e := range w.p.listing(kp.Name) {
		if visible(e.name) {
			want = append(want, wantTag{"program:" + kp.Name + "." + e.name, e, kp.Name})
		}
	}
	if len(l) != len(want) {
		w.h.Violate("missing-tag", "%s succeeded with %d tags, the program has %d", op, len(l), len(want))
		return
	}
	for i := range l {
		if !d.sameTag(op, l[i], want[i]) {
			return
		}
		if kt, ok := w.c.KnownTags[strings.ToLower(want[i].name)]; !ok || !d.sameTag(op+" (catalogue)", kt, want[i]) {
			w.h.Violate("missing-tag", "%s did not put %q into the catalogue", op, want[i].name)
			return
		}
	}
}

func (d *disc) listMembers(st string) {
	w := d.w
	d.limit()
	u := append([]*UDT{stringUDT}, w.p.udts...)[w.s.Draw(st, len(w.p.udts)+1)]
	id := uint32(u.ID)
	if w.s.Draw(st, 6) == 0 {
		id = 0xF00 + uint32(w.s.Draw(st, 0x80))
	}
	sw := w.p.Swallowed + d.lfaults
	var g gologix.UDTDescriptor
	op := fmt.Sprintf("ListMembers(%x)", id)
	ci := w.callX(op, d.lfault > 0 || id != uint32(u.ID), func() (err error) { g, err = w.c.ListMembers(id); return })
	if ci.err != nil || w.s.Stopped() {
		return
	}
	if id != uint32(u.ID) {
		w.h.Violate("wrong-template", "%s succeeded with %q, there is no such template", op, g.Name)
		return
	}
	d.sameUDT(op, g, u, d.mayMiss(ci, sw))
}

func (d *disc) tmplAttr(st string) {
	w := d.w
	u := w.p.udts[w.s.Draw(st, len(w.p.udts))]
	op := fmt.Sprintf("GetTemplateInstanceAttr(%x)", u.ID)
	bad := ""
	ci := w.callX(op, d.lfault > 0, func() error {
		r, err := w.c.GetTemplateInstanceAttr(uint32(u.ID))
		if err == nil && (r.SizeBytes != uint32(u.Size) || r.Handle != u.Handle || int(r.MemberCount) != len(u.Members)) {
			bad = fmt.Sprintf("%d bytes, %d members, handle %x", r.SizeBytes, r.MemberCount, r.Handle)
		}
		return err
	})
	if ci.err == nil && bad != "" {
		w.h.Violate("wrong-template", "%s reports %s", op, bad)
	}
}

func (d *disc) listPrograms() {
	w := d.w
	d.limit()
	ci := w.callX("ListAllPrograms()", d.lfault > 0 || w.p.NoProgs != 0, func() error { return w.c.ListAllPrograms() })
	if ci.err != nil || w.s.Stopped() {
		return
	}
	d.programs("ListAllPrograms()", ci)
}

// identity checks ListIdentity and ListServices.
func (w *CW) identity(st string) {
	con := w.c.Connected()
	bad := ""
	if w.s.Draw(st, 2) == 0 {
		ci := w.callX("ListIdentity()", !con || w.tasks > 1, func() error {
			r, err := w.c.ListIdentity()
			if err == nil {
				got := fmt.Sprintf("%d %d %d %d %x %d %d %04x %04x %08x %q %d", r.EncapProtocolVersion, r.SocketAddress.Family, r.SocketAddress.Port, r.SocketAddress.Address, r.Vendor,
					r.DeviceType, r.ProductCode, r.Revision, r.Status, r.SerialNumber, r.ProductName, r.State)
				if want := w.p.ident.text(); got != want {
					bad = fmt.Sprintf("ListIdentity reports %s, the device is %s", got, want)
				}
			}
			return err
		})
		if ci.err == nil && bad != "" {
			w.h.Violate("wrong-identity", "%s", bad)
		}
		return
	}
	ci := w.callX("ListServices()", !con || w.tasks > 1, func() error {
		r, err := w.c.ListServices()
		if err == nil {
			got := ""
			for _, x := range r {
				got += fmt.Sprintf("%d %04x %q;", x.EncapProtocolVersion, uint16(x.Capabilities), x.Name)
			}
			want := ""
			for _, n := range w.p.services {
				want += fmt.Sprintf("1 %04x %q;", 0x20+len(n), n)
			}
			if got != want {
				bad = fmt.Sprintf("ListServices reports %s, the device has %s", got, want)
			}
		}
		return err
	})
	if ci.err == nil && bad != "" {
		w.h.Violate("wrong-identity", "%s", bad)
	}
}

func runDiscovery(h *H) {
	s := h.S
	faulty := h.Pick("cfg.faulty", 2, 3) == 1
	w := newCW(h, faulty)
	w.allTags = append([]*PTag(nil), w.p.tagList...)
	p := w.p
	d := &disc{w: w}
	w.tasks = 1 + h.Pick("cfg.tasks", 4, 3, 2)
	w.c.KeepAliveAutoStart = h.Pick("cfg.ka", 2, 1) == 1
	if w.c.KeepAliveAutoStart {
		w.c.KeepAliveFrequency = []time.Duration{30 * time.Second, 2 * time.Second}[h.Pick("cfg.ka", 1, 1)]
	}
	p.PageMax = []int{0, 1, 2, 7}[h.Pick("cfg.page", 2, 1, 2, 2)]
	if faulty {
		// long listings survive only rare faults
		p.FaultPM = []int{0, 4, 12, 40}[h.Pick("cfg.plcfault2", 1, 2, 2, 1)]
	}
	d.lfault = []int{0, 2, 10}[h.Pick("cfg.lfault", 3, 1, 1)]
	if d.lfault > 0 {
		p.listFault = func(what string) byte {
			if !p.Healed && s.Chance("lfault", d.lfault) {
				s.Stat("fault.listing_status")
				h.Nontrivial = true
				d.lfaults++
				return []byte{0x05, 0x08, 0x02, 0x1E, 0x0F, 0x01}[s.Draw("lfault", 6)]
			}
			return 0
		}
	}
	d.populate("pop0")
	mixed := false
	phases := 1 + h.Pick("cfg.phases", 2, 2, 1)
	for ph := 0; ph < phases && !s.Stopped(); ph++ {
		if ph > 0 {
			s.Stat("disc.downloads")
			s.Logf("download of another project")
			d.populate(fmt.Sprintf("pop%d", ph))
			ok := false
			tasks := w.tasks
			w.tasks = 1
			for i := 0; i < 4 && !ok && !s.Stopped(); i++ {
				ok = d.listAll(0)
			}
			w.tasks = tasks
			if !ok {
				// the catalogue is still of the old project: list once more without faults
				mixed = true
				break
			}
		}
		var ts []*simrt.Task
		for i := 0; i < w.tasks; i++ {
			name := fmt.Sprintf("p%dt%d", ph, i)
			n := 1 + s.Draw("cfg.nops", 5)
			ts = append(ts, s.Go(name, func() {
				for k := 0; k < n && !s.Stopped(); k++ {
					st := opStream(name, k)
					switch s.Pick(st, 1, 8, 3, 4, 1, 1, 5, 1, 1, 1, 2) {
					case 1:
						d.listAll(uint32(s.Draw(st, 2)))
					case 2:
						d.listSub(st)
					case 3:
						d.listMembers(st)
					case 4:
						d.listPrograms()
					case 5:
						d.tmplAttr(st)
					case 6:
						w.readScalarOrSlice(w.genItem(st, 0))
					case 7:
						w.readList(w.multiItems(st, 5, false))
					case 8:
						w.identity(st)
					case 9:
						simrt.Sleep(s.Dur(st, time.Millisecond, 3*time.Second))
					case 10:
						l := p.listing("")
						d.listAll(l[s.Draw(st, len(l))].inst)
					}
				}
			}))
		}
		s.Join(ts...)
	}
	if s.Stopped() {
		return
	}
	s.Net.Heal()
	p.Healed = true
	d.lfault = 0
	w.tasks = 1
	for i := 0; mixed && !s.Stopped(); i++ {
		if d.listAll(0) {
			break
		}
		if i > 6 && s.Cfg.StallProb == 0 {
			h.Violate("no-recovery", "seven discoveries in a row failed after the faults had stopped")
		}
		if i > 6 {
			return
		}
	}
	w.maxEx = 0
	w.recover()
	if s.Stopped() {
		return
	}
	if s.Cfg.StallProb == 0 && !w.c.KeepAliveAutoStart && !d.listAll(0) && !s.Stopped() {
		h.Violate("no-recovery", "a complete discovery failed although faults had stopped and reads work")
	}
	if !s.Stopped() {
		w.finish()
	}
}

func init() {
	register(&Check{Prop: "C08", Keys: []string{"missing-tag", "phantom-tag", "wrong-listing", "wrong-template", "missing-template", "phantom-template", "wrong-programs", "wrong-identity",
		"unbounded", "malformed-request", "wrong-read", "stale-read", "no-recovery", "spurious-error", "dup-seq"},
		Scen: []Scen{{Name: "discovery", Weight: 1, Run: runDiscovery}}})
}
