// C07: in-circuit RLP list decoding.
package main

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
	"verif/harness/rlpref"
)

type F = frontend.Variable

type dec = rlpref.Dec

var parse = rlpref.Parse

type cfg struct {
	name     string
	a        rlp.ArrayCheck
	nest     bool
	hdr      bool // BlkHeaderRlpCheck / fieldNum
	fieldNum int  // -1: not given
	tail     byte
}

func (g *cfg) n() int {
	if g.fieldNum >= 0 {
		return g.fieldNum
	}
	return g.a.MaxFields
}

type res struct {
	out, total int64
	lens       []int64
	fields     [][]int64
}

func (g *cfg) run(e *eng.Engine, in []F) (rs res, r eng.Result) {
	r = e.Run(func(api frontend.API) error {
		var o, t F
		var l []F
		var fs [][]F
		switch {
		case g.hdr:
			o, t, l, fs = g.a.BlkHeaderRlpCheck(api, in, e.Val(g.fieldNum))
		case g.nest:
			o, t, l, fs = g.a.RlpNestArrayCheck(api, in)
		case g.fieldNum >= 0:
			o, t, l, fs = g.a.RlpArrayCheck(api, in, e.Val(g.fieldNum))
		default:
			o, t, l, fs = g.a.RlpArrayCheck(api, in)
		}
		rs.out = num(e, o)
		rs.total = num(e, t)
		for i := range l {
			rs.lens = append(rs.lens, num(e, l[i]))
			var x []int64
			if i < len(fs) {
				for _, v := range fs[i] {
					x = append(x, num(e, v))
				}
			}
			rs.fields = append(rs.fields, x)
		}
		return nil
	})
	return
}

func num(e *eng.Engine, v F) int64 {
	b := e.Big(v)
	if b.IsInt64() {
		return b.Int64()
	}
	return -1
}

func nib(b []byte) (r []int64) {
	for _, x := range b {
		r = append(r, int64(x>>4), int64(x&15))
	}
	return
}

func (g *cfg) judge(c *mc.Ctx, b []byte) string {
	m := g.a.MaxHexLen / 2
	full := append(append([]byte{}, b...), make([]byte, m)...)[:m]
	for i := len(b); i < m; i++ {
		full[i] = g.tail
	}
	e := eng.New(ecc.BN254.ScalarField())
	var in []F
	for _, x := range nib(full) {
		in = append(in, e.Val(x))
	}
	rs, r := g.run(e, in)
	c.State(1)
	c.Trans(int(e.Ops))
	if r.Panic != "" {
		return r.String()
	}
	d := parse(full, g.n(), g.nest)
	acc := r.OK && rs.out == 1
	if acc {
		if !d.OK {
			return "accepted although the bytes do not encode a list of the configured number of fields"
		}
		return g.same(rs, d, g.n())
	}
	if !d.OK || !d.Canon {
		return ""
	}
	// within limits?
	if d.Hdr-1 > g.a.ArrayPrefixMaxHexLen/2 || d.Total > m {
		return ""
	}
	for i, f := range d.F {
		if f.Size < g.a.FieldMinHexLen[i] || f.Size > g.a.FieldMaxHexLen[i] {
			return ""
		}
	}
	return fmt.Sprintf("a well-formed list within the limits is not accepted: out=%d %v", rs.out, r)
}

func (g *cfg) same(rs res, d dec, n int) string {
	if rs.total != int64(2*d.Total) {
		return fmt.Sprintf("total length %d nibbles, the list has %d", rs.total, 2*d.Total)
	}
	if len(rs.lens) < n {
		return "missing fields"
	}
	for i := 0; i < n; i++ {
		f := d.F[i]
		if rs.lens[i] != int64(f.Size) {
			return fmt.Sprintf("field %d length %d nibbles, want %d", i, rs.lens[i], f.Size)
		}
		w := nib(f.Content)
		for k := range w {
			if k >= len(rs.fields[i]) || rs.fields[i][k] != w[k] {
				return fmt.Sprintf("field %d nibble %d differs", i, k)
			}
		}
	}
	return ""
}

func seq(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 3)
	}
	if n == 1 {
		b[0] = 0x93
	}
	return b
}

func enc(base byte, p []byte, forceLong int) []byte {
	if forceLong == 0 && len(p) <= 55 {
		return append([]byte{base + byte(len(p))}, p...)
	}
	var l []byte
	for x := len(p); x > 0; x >>= 8 {
		l = append([]byte{byte(x)}, l...)
	}
	for len(l) < forceLong {
		l = append([]byte{0}, l...)
	}
	return append(append([]byte{base + 55 + byte(len(l))}, l...), p...)
}

func main() {
	mc.Main(mc.Meta{Prop: "C07",
		Rule:        "every byte string over an alphabet of RLP prefix classes up to the length bound, and every list built from every combination of field kinds with right and wrong headers, decoded by each in-circuit decoder (plain, plain with a field count, header, nested) and compared with a reference RLP parser: accepted only when the bytes are such a list, then with exactly its fields; every canonical list within the configured limits accepted",
		Assumptions: []string{"inputs are nibbles (the circuits constrain them elsewhere)"},
	}, run)
}

func fill(v, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = v
	}
	return r
}

func small(fields, hex, prefix, fmax int) rlp.ArrayCheck {
	return rlp.ArrayCheck{MaxHexLen: hex, MaxFields: fields, ArrayPrefixMaxHexLen: prefix, FieldMinHexLen: fill(0, fields), FieldMaxHexLen: fill(fmax, fields)}
}

func run(c *mc.Ctx) {
	// 1. the prefix classifiers, every byte
	c.Each("prefix", 256, func(i int) string { return fmt.Sprintf("%02x", i) }, func(i int) string {
		e := eng.New(ecc.BN254.ScalarField())
		p := [2]F{e.Val(i >> 4), e.Val(i & 15)}
		var v []int64
		r := e.Run(func(api frontend.API) error {
			a, b, d := rlp.RlpArrayPrefix(api, p)
			v = append(v, num(e, a), num(e, b), num(e, d))
			w1, w2, w3, w4, w5, w6, w7 := rlp.RlpFieldPrefix(api, p)
			for _, w := range []F{w1, w2, w3, w4, w5, w6, w7} {
				v = append(v, num(e, w))
			}
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if !r.OK {
			return r.String()
		}
		bi := func(b bool) int64 {
			if b {
				return 1
			}
			return 0
		}
		ln := func(x int) int64 {
			switch {
			case x < 0x80:
				return 0
			case x < 0xb8:
				return int64(2 * (x - 0x80))
			case x < 0xc0:
				return int64(2 * (x - 0xb7))
			case x < 0xf8:
				return int64(2 * (x - 0xc0))
			}
			return int64(2 * (x - 0xf7))
		}
		list := i >= 0xc0
		al := int64(0)
		if list {
			al = ln(i)
		}
		want := []int64{bi(i >= 0xf8), al, bi(list), bi(i >= 0xf8 || (i >= 0xb8 && i < 0xc0)), bi(i < 0x80), ln(i), 1, bi(list), bi(i == 0xc0), bi(i == 0)}
		for k := range want {
			if v[k] != want[k] {
				return fmt.Sprintf("output %d is %d, want %d", k, v[k], want[k])
			}
		}
		return ""
	})

	// 2. every byte string over the prefix classes
	alpha := []byte{0x00, 0x05, 0x80, 0x81, 0x82, 0x84, 0xb8, 0xb9, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xf8, 0xff}
	var cfgs []*cfg
	mk := func(nest, hdr bool, fieldNum, fields, hex, prefix, fmax int, tail byte) {
		k := "array"
		if nest {
			k = "nest"
		} else if hdr {
			k = "header"
		}
		cfgs = append(cfgs, &cfg{name: fmt.Sprintf("%s fields=%d/%d hex=%d prefix=%d fieldmax=%d tail=%02x", k, fieldNum, fields, hex, prefix, fmax, tail), a: small(fields, hex, prefix, fmax), nest: nest, hdr: hdr, fieldNum: fieldNum, tail: tail})
	}
	L := mc.Pick(c, 4, 5)
	for _, fields := range []int{1, 2, 3} {
		for _, tail := range []byte{0, 0x85} {
			mk(false, false, -1, fields, 20, 4, 12, tail)
			mk(true, false, -1, fields, 20, 4, 12, tail)
			mk(false, true, fields, fields, 20, 4, 12, tail)
		}
	}
	for n := 1; n <= 2; n++ {
		mk(false, false, n, 3, 20, 4, 12, 0x81)
		mk(false, true, n, 3, 20, 4, 12, 0x81)
		mk(false, true, n, 3, 20, 4, 12, 0x01)
	}
	for _, g := range cfgs {
		g := g
		n := 1
		for i := 0; i < L; i++ {
			n *= len(alpha)
		}
		b := func(i int) []byte {
			r := make([]byte, L)
			for k := range r {
				r[k] = alpha[i%len(alpha)]
				i /= len(alpha)
			}
			// a string that is not a list is uninteresting beyond its first byte
			return r
		}
		c.Each("strings "+g.name, n, func(i int) string { return fmt.Sprintf("%x", b(i)) }, func(i int) string {
			x := b(i)
			if x[0] < 0xc0 && i/len(alpha) > 40 {
				return ""
			}
			return g.judge(c, x)
		})
	}

	// 3. lists built from field kinds, at the sizes the trie checks use
	type kind struct {
		n string
		b []byte
	}
	var kinds []kind
	add := func(n string, b []byte) { kinds = append(kinds, kind{n, b}) }
	add("empty", []byte{0x80})
	add("lit", []byte{0x07})
	add("byte", enc(0x80, seq(1), 0))
	add("s2", enc(0x80, seq(2), 0))
	add("s32", enc(0x80, seq(32), 0))
	add("s55", enc(0x80, seq(55), 0))
	add("s56", enc(0x80, seq(56), 0))
	add("s63", enc(0x80, seq(63), 0))
	add("s64", enc(0x80, seq(64), 0))
	add("s127", enc(0x80, seq(127), 0))
	add("s128", enc(0x80, seq(128), 0))
	add("s256", enc(0x80, seq(256), 0))
	add("emptylist", []byte{0xc0})
	add("list1", enc(0xc0, []byte{0x09}, 0))
	add("list40", enc(0xc0, append(enc(0x80, seq(20), 0), enc(0x80, seq(18), 0)...), 0))
	add("list60", enc(0xc0, enc(0x80, seq(60), 0), 0))
	add("list258", enc(0xc0, enc(0x80, seq(255), 0), 0))
	add("s5long", enc(0x80, seq(5), 1))
	add("s5long2", enc(0x80, seq(5), 2))
	hdrs := []string{"right", "minus1", "plus1", "plus2", "long1", "long2", "string", "less-half"}
	build := func(fs []kind, h string) []byte {
		var p []byte
		for _, f := range fs {
			p = append(p, f.b...)
		}
		fake := func(d int) []byte {
			n := len(p) + d
			if n < 0 {
				n = 0
			}
			q := enc(0xc0, make([]byte, n), 0)
			return append(q[:len(q)-n], p...)
		}
		switch h {
		case "minus1":
			return fake(-1)
		case "plus1":
			return fake(1)
		case "plus2":
			return fake(2)
		case "less-half":
			return fake(-len(p) / 2)
		case "long1":
			if len(p) < 256 {
				return enc(0xc0, p, 1)
			}
		case "long2":
			return enc(0xc0, p, 2)
		case "string":
			return enc(0x80, p, 0)
		}
		return enc(0xc0, p, 0)
	}
	var big1 []*cfg
	for _, nest := range []bool{false, true} {
		for _, fm := range []int{66, 120, 128, 256, 514, 520} {
			for _, tail := range []byte{0, 0xc1} {
				big1 = append(big1, &cfg{name: fmt.Sprintf("nest=%v fieldmax=%d tail=%02x", nest, fm, tail), a: small(2, 2*fm+16, 6, fm), nest: nest, fieldNum: -1, tail: tail})
			}
		}
	}
	// one field may have a range of its own
	mixed := rlp.ArrayCheck{MaxHexLen: 200, MaxFields: 2, ArrayPrefixMaxHexLen: 4, FieldMinHexLen: []int{4, 64}, FieldMaxHexLen: []int{20, 64}}
	big1 = append(big1, &cfg{name: "array min=4,64 max=20,64", a: mixed, fieldNum: -1}, &cfg{name: "header min=4,64 max=20,64", a: mixed, hdr: true, fieldNum: 2})
	for _, g := range big1 {
		g := g
		n := len(kinds) * len(kinds) * len(hdrs)
		get := func(i int) ([]kind, string) {
			h := hdrs[i%len(hdrs)]
			i /= len(hdrs)
			return []kind{kinds[i%len(kinds)], kinds[i/len(kinds)]}, h
		}
		c.Each("lists "+g.name, n, func(i int) string { f, h := get(i); return f[0].n + "," + f[1].n + " header " + h }, func(i int) string {
			f, h := get(i)
			b := build(f, h)
			if len(b) > g.a.MaxHexLen/2+4 {
				return ""
			}
			return g.judge(c, b)
		})
	}
	// 4. three fields, nested decoder (transaction-like), and longer field counts
	k3 := []kind{kinds[0], kinds[1], kinds[3], kinds[12], kinds[13], kinds[14]}
	for _, nest := range []bool{false, true} {
		g := &cfg{name: fmt.Sprintf("nest=%v 4 fields", nest), a: small(4, 400, 4, 100), nest: nest, fieldNum: -1}
		nk := len(k3)
		c.Each("lists "+g.name, nk*nk*nk*nk*3, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
			h := []string{"right", "plus1", "minus1"}[i%3]
			i /= 3
			return g.judge(c, build([]kind{k3[i%nk], k3[i/nk%nk], k3[i/nk/nk%nk], k3[i/nk/nk/nk]}, h))
		})
	}
	// 5. BN254 conformance with gnark
	type tr struct {
		g *cfg
		G *gk.Gadget
	}
	var trs []tr
	for _, g := range []*cfg{cfgs[2], cfgs[6], cfgs[7], cfgs[8], cfgs[12], cfgs[13], cfgs[19]} {
		g := g
		nout := 2 + g.a.MaxFields
		trs = append(trs, tr{g, gk.New(ecc.BN254.ScalarField(), g.a.MaxHexLen, nout, func(api frontend.API, in []F) []F {
			var o, t F
			var l []F
			switch {
			case g.hdr:
				o, t, l, _ = g.a.BlkHeaderRlpCheck(api, in, g.fieldNum)
			case g.nest:
				o, t, l, _ = g.a.RlpNestArrayCheck(api, in)
			case g.fieldNum >= 0:
				o, t, l, _ = g.a.RlpArrayCheck(api, in, g.fieldNum)
			default:
				o, t, l, _ = g.a.RlpArrayCheck(api, in)
			}
			return append([]F{o, t}, l...)
		})})
	}
	strs := [][]byte{{0xc2, 5, 5}, {0xc1, 0x80}, {0xc4, 0x82, 1, 2, 7}, {0xc3, 0xc0, 0x82, 3}, {0xc0}, {0xf8, 2, 7, 0x80}, {0xc2, 0xc0, 0x80}, {0xc9, 5, 5}, {0x83, 1, 2, 3}, {0xf9, 0, 2, 7, 8}}
	c.Each("bn254 conformance", len(trs)*len(strs), func(i int) string { return fmt.Sprintf("%s %x", trs[i/len(strs)].g.name, strs[i%len(strs)]) }, func(i int) string {
		t := trs[i/len(strs)]
		b := append(append([]byte{}, strs[i%len(strs)]...), make([]byte, t.g.a.MaxHexLen/2)...)[:t.g.a.MaxHexLen/2]
		var in []*big.Int
		for _, x := range nib(b) {
			in = append(in, big.NewInt(x))
		}
		out, r, e := t.G.Eng(in)
		c.State(1)
		c.Trans(int(e.Ops))
		if m := t.G.Agree(in, out, r.OK, 0, 1, 2); m != "" {
			return m
		}
		c.Trace(3)
		return ""
	})
}
