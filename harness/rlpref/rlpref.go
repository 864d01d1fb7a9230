// Package rlpref is the reference RLP list parser of the checks.
package rlpref

type Field struct {
	Content []byte // bytes the decoder should hand out
	Size    int    // decoded length in nibbles
}

type Dec struct {
	OK    bool // the bytes encode a list of n fields (lengths all consistent), lenient about canonical form
	Canon bool // and canonically
	Hdr   int
	Total int // bytes
	F     []Field
}

// Parse is the reference: a list of exactly n fields filling the list's payload.
// nest: list fields keep their header (RlpNestArrayCheck), else it is stripped.
func Parse(b []byte, n int, nest bool) (d Dec) {
	if len(b) == 0 || b[0] < 0xc0 {
		return
	}
	d.Canon = true
	head := func(p int) (hdr, l int, lit, list, ok bool) {
		if p >= len(b) {
			return
		}
		x := b[p]
		var base byte
		switch {
		case x < 0x80:
			return 0, 1, true, false, true
		case x < 0xc0:
			base = 0x80
		default:
			base, list = 0xc0, true
		}
		if x-base <= 55 {
			hdr, l = 1, int(x-base)
			if base == 0x80 && l == 1 && p+1 < len(b) && b[p+1] < 0x80 {
				d.Canon = false
			}
			return hdr, l, false, list, true
		}
		lol := int(x - base - 55)
		if p+1+lol > len(b) {
			return
		}
		for i := 0; i < lol; i++ {
			l = l<<8 | int(b[p+1+i])
			if l > 1<<20 {
				return
			}
		}
		if b[p+1] == 0 || l < 56 {
			d.Canon = false
		}
		return 1 + lol, l, false, list, true
	}
	hdr, l, _, _, ok := head(0)
	if !ok || hdr+l > len(b) {
		return
	}
	d.Hdr, d.Total = hdr, hdr+l
	p := hdr
	for i := 0; i < n; i++ {
		h, fl, lit, list, ok := head(p)
		if !ok || p+h+fl > d.Total {
			return
		}
		c := b[p+h : p+h+fl]
		if list && nest {
			c = b[p : p+h+fl]
		}
		_ = lit
		d.F = append(d.F, Field{c, 2 * len(c)})
		p += h + fl
	}
	d.OK = p == d.Total
	return
}
