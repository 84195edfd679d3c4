//go:build go1.23

package harness

import (
	"fmt"
	"sort"
	"strings"
)

// listEntry is one row of the symbol listing of a scope.
type listEntry struct {
	inst uint32
	name string
	typ  uint16
	dims [3]uint32
	tag  *PTag
}

func (t *PTag) typeWord() uint16 {
	w := uint16(len(t.Dims)) << 13
	switch {
	case t.UDT != nil:
		w |= 0x8000 | t.UDT.ID
	case t.Type == tSTRING:
		w |= 0x8FCE
	default:
		w |= uint16(t.Type)
	}
	return w
}

// listing is the complete symbol table of a scope ("" controller) by instance.
func (p *PLC) listing(prog string) []listEntry {
	var out []listEntry
	for _, t := range p.tagList {
		if !strings.EqualFold(t.Prog, prog) {
			continue
		}
		e := listEntry{inst: t.Instance, name: t.shortName(), typ: t.typeWord(), tag: t}
		for i, d := range t.Dims {
			e.dims[i] = uint32(d)
		}
		out = append(out, e)
	}
	out = append(out, p.extra[strings.ToLower(prog)]...)
	sort.Slice(out, func(i, j int) bool { return out[i].inst < out[j].inst })
	return out
}

func (t *PTag) shortName() string {
	if t.Prog != "" {
		return t.Name[len("Program:"+t.Prog+"."):]
	}
	return t.Name
}

// list answers Get Instance Attribute List on symbols and programs.
func (p *PLC) list(path []seg, data []byte, limit int, fail func(byte, ...uint16) []byte) []byte {
	p.Lists++
	if p.ListBusy {
		return fail(0x10)
	}
	prog := ""
	i := 0
	if len(path) > 0 && path[0].kind == 's' && strings.HasPrefix(strings.ToLower(path[0].s), "program:") {
		prog = path[0].s[8:]
		i = 1
	} else if len(path) >= 4 && path[0].kind == 'c' && path[0].n == 0x68 && path[1].kind == 'i' {
		k := p.progByID(path[1].n)
		if k < 0 {
			return fail(0x05)
		}
		prog = p.programs[k]
		i = 2
	}
	if prog != "" && p.progIndex(prog) < 0 {
		return fail(0x05)
	}
	if len(path) != i+2 || path[i].kind != 'c' || path[i+1].kind != 'i' {
		return fail(0x04)
	}
	class, start := path[i].n, path[i+1].n
	if len(data) < 2 || len(data) != 2+2*int(g16(data)) {
		p.bad("listing request with %d data bytes", len(data))
		return fail(0x13)
	}
	var attrs []uint16
	for k := 2; k < len(data); k += 2 {
		attrs = append(attrs, g16(data[k:]))
	}
	what := "symbols"
	if class == 0x68 {
		what = "programs"
	}
	if p.listFault != nil {
		if st := p.listFault(what); st != 0 {
			return fail(st)
		}
	}
	max := 1 << 20
	if p.PageMax > 0 {
		max = 1 + p.s.Draw("page", p.PageMax)
	}
	var rows [][]byte
	switch class {
	case 0x6B:
		for _, e := range p.listing(prog) {
			if e.inst < start {
				continue
			}
			row := le32(e.inst)
			for _, a := range attrs {
				switch a {
				case 1:
					row = cat(row, le16(uint16(len(e.name))), []byte(e.name))
				case 2:
					row = cat(row, le16(e.typ))
				case 8:
					row = cat(row, le32(e.dims[0]), le32(e.dims[1]), le32(e.dims[2]))
				default:
					return fail(0x14)
				}
			}
			rows = append(rows, row)
		}
	case 0x68:
		if p.NoProgs != 0 {
			return fail(byte(p.NoProgs))
		}
		for k, n := range p.programs {
			id := p.progID(k)
			if id < start {
				continue
			}
			row := le32(id)
			for _, a := range attrs {
				if a != 28 {
					return fail(0x14)
				}
				row = cat(row, le32(uint32(len(n))), []byte(n))
			}
			rows = append(rows, row)
		}
	default:
		return fail(0x05)
	}
	var body []byte
	n := 0
	for n < len(rows) && n < max && len(body)+len(rows[n])+4 <= limit {
		body = append(body, rows[n]...)
		n++
	}
	p.s.Stat("plc.pages")
	if n < len(rows) {
		if n == 0 {
			return fail(0x11)
		}
		p.s.Stat("plc.partial_pages")
		return cipReply(0x55, 6, nil, body)
	}
	return cipReply(0x55, 0, nil, body)
}

func (p *PLC) progID(k int) uint32 {
	if p.progIDs == nil {
		return uint32(k + 1)
	}
	return p.progIDs[k]
}

func (p *PLC) progByID(id uint32) int {
	for k := range p.programs {
		if p.progID(k) == id {
			return k
		}
	}
	return -1
}

// identData is the identity of the controller.
type identData struct {
	vendor, dtype, pcode, rev, status uint16
	serial                            uint32
	name                              string
	state                             byte
}

func (i *identData) encode() []byte {
	return cat(le16(1), []byte{0, 2, 0xAF, 0x12, 10, 0, 0, 9}, make([]byte, 8), le16(i.vendor), le16(i.dtype), le16(i.pcode), le16(i.rev), le16(i.status), le32(i.serial),
		[]byte{byte(len(i.name))}, []byte(i.name), []byte{i.state})
}

func (i *identData) text() string {
	return fmt.Sprintf("1 2 44818 %d %x %d %d %04x %04x %08x %q %d", 10<<24|9, i.vendor, i.dtype, i.pcode, i.rev, i.status, i.serial, i.name, i.state)
}

func (p *PLC) progIndex(n string) int {
	for i, x := range p.programs {
		if strings.EqualFold(x, n) {
			return i
		}
	}
	return -1
}

// definition is the template of a structure as the controller stores it.
func (u *UDT) definition() []byte {
	var b []byte
	for _, m := range u.Members {
		info := uint16(m.N)
		typ := uint16(m.Type)
		if m.Bit >= 0 {
			info = uint16(m.Bit)
		}
		if m.UDT != nil {
			typ = 0x8000 | m.UDT.ID
		} else if m.Type == tSTRING {
			typ = 0x8FCE
		}
		if m.N > 0 {
			typ |= 1 << 13
		}
		b = cat(b, le16(info), le16(typ), le32(uint32(m.Off)))
	}
	b = append(b, u.TmplName()...)
	b = append(b, 0)
	for _, m := range u.Members {
		b = append(b, m.Name...)
		b = append(b, 0)
	}
	return b
}

// TmplName is the name with the encoded suffix some controllers append.
func (u *UDT) TmplName() string {
	if u.Suffix {
		return u.Name + ";nEAEAAAAA"
	}
	return u.Name
}

var stringUDT = &UDT{Name: "STRING", ID: 0xFCE, Size: 88, Handle: 0x0FCE, Members: []UMember{
	{Name: "LEN", Type: tDINT, Bit: -1}, {Name: "DATA", Type: tSINT, Bit: -1, Off: 4, N: 82}}}

func (p *PLC) udtByID(id uint32) *UDT {
	if id == 0xFCE {
		return stringUDT
	}
	for _, u := range p.udts {
		if uint32(u.ID) == id {
			return u
		}
	}
	return nil
}

// template answers requests on template objects.
func (p *PLC) template(svc byte, inst uint32, data []byte, limit int, fail func(byte, ...uint16) []byte) []byte {
	u := p.udtByID(inst)
	if u == nil {
		return fail(0x05)
	}
	if p.listFault != nil {
		if st := p.listFault(fmt.Sprintf("template%x", svc)); st != 0 {
			return fail(st)
		}
	}
	def := u.definition()
	if p.mangleDef != nil && !p.Healed {
		p.mangleDef(u, def)
	}
	words := (len(def) + 23 + 3) / 4
	switch svc {
	case 0x03:
		if len(data) < 2 || len(data) != 2+2*int(g16(data)) {
			p.bad("attribute list of %d bytes", len(data))
			return fail(0x13)
		}
		out := data[:2:2]
		for i := 0; i < int(g16(data)); i++ {
			id := g16(data[2+2*i:])
			out = cat(out, le16(id), le16(0))
			switch id {
			case 1:
				out = cat(out, le16(u.Handle))
			case 2:
				out = cat(out, le16(uint16(len(u.Members))))
			case 4:
				out = cat(out, le32(uint32(words)))
			case 5:
				out = cat(out, le32(uint32(u.Size)))
			default:
				return fail(0x14)
			}
		}
		return cipReply(svc, 0, nil, out)
	case 0x4C:
		if len(data) != 6 {
			p.bad("template read with %d data bytes", len(data))
			return fail(0x13)
		}
		off, n := int(g32(data)), int(g16(data[4:]))
		all := make([]byte, words*4-23)
		copy(all, def)
		if off > len(all) {
			return fail(0x05)
		}
		rest := all[off:]
		if n < len(rest) {
			rest = rest[:n]
		}
		room := limit - 4
		if p.MaxReply > 0 && p.MaxReply < room {
			room = p.MaxReply
		}
		if len(rest) > room {
			p.s.Stat("plc.partial_templates")
			return cipReply(svc, 6, nil, rest[:room])
		}
		return cipReply(svc, 0, nil, rest)
	}
	return fail(0x08)
}
