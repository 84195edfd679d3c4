//go:build go1.23

package harness

// imgL is an image that is much bigger than what a packet usually holds.
type imgL struct {
	N int32
	A [900]int32
}

func (p *imgL) fill(g int32, y func()) {
	p.N = g
	for i := range p.A {
		if i%150 == 149 {
			y()
		}
		p.A[i] = g + int32(i+1)*1000003
	}
}
func (p *imgL) whole(y func()) (int32, bool) {
	v := imgL{N: p.N}
	for i := range p.A {
		if i%150 == 149 {
			y()
		}
		v.A[i] = p.A[i]
	}
	var w imgL
	w.fill(v.N, func() {})
	return v.N, v == w
}
func (p *imgL) bytes() []byte {
	b := le32(uint32(p.N))
	for _, a := range p.A {
		b = append(b, le32(uint32(a))...)
	}
	return b
}
