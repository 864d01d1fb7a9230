// C32: the host edwards25519 library against math/big.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	lib "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test"
	"github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test/field"

	"verif/harness/ed"
	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C32",
		Rule:        "field: all encodings with limbs from a boundary alphabet; all pairs from a list that includes unreduced internal states, for every operation, with every aliasing of receiver and arguments; every sequence of operations up to the depth bound on two registers; scalars: all triples from a boundary list, wide inputs around every multiple boundary and with every pair of boundary limbs, canonical decoding around the order byte by byte; points: all pairs from torsion plus generator multiples in two representations, all encodings near 0 and near the modulus, all small scalars and every digit in every window",
		Assumptions: []string{"the portable multiplication is compared through a build overlay that exposes it; both it and the assembly are run"},
	}, run)
}

var one = big.NewInt(1)

func big2(s string) *big.Int { x, _ := new(big.Int).SetString(s, 16); return x }

func fe(x *big.Int) *field.Element {
	e, err := new(field.Element).SetBytes(ed.LE(x, 32))
	if err != nil {
		panic(err)
	}
	return e
}
func val(e *field.Element) *big.Int { return ed.FromLE(e.Bytes()) }

// reg is an element together with the value it must have.
type reg struct {
	e field.Element
	v *big.Int
	n string
}

func mkReg(n string, x *big.Int) reg { return reg{*fe(x), ed.Mod(x), n} }

func (r *reg) bad() string {
	if g := val(&r.e); g.Cmp(r.v) != 0 {
		return fmt.Sprintf("%s: got %s want %s", r.n, g.Text(16), r.v.Text(16))
	}
	return ""
}

// two-register operations: r = f(a, b)
type op struct {
	n string
	f func(r, a, b *field.Element)
	w func(a, b *big.Int) *big.Int
}

var c32s = []uint32{0, 1, 19, 1 << 31, 0xffffffff}

func ops() []op {
	o := []op{
		{"add", func(r, a, b *field.Element) { r.Add(a, b) }, ed.Add},
		{"sub", func(r, a, b *field.Element) { r.Subtract(a, b) }, ed.Sub},
		{"mul", func(r, a, b *field.Element) { r.Multiply(a, b) }, ed.Mul},
		{"square", func(r, a, b *field.Element) { r.Square(a) }, func(a, b *big.Int) *big.Int { return ed.Mul(a, a) }},
		{"neg", func(r, a, b *field.Element) { r.Negate(a) }, func(a, b *big.Int) *big.Int { return ed.Neg(a) }},
		{"set", func(r, a, b *field.Element) { r.Set(a) }, func(a, b *big.Int) *big.Int { return a }},
		{"select0", func(r, a, b *field.Element) { r.Select(a, b, 0) }, func(a, b *big.Int) *big.Int { return b }},
		{"select1", func(r, a, b *field.Element) { r.Select(a, b, 1) }, func(a, b *big.Int) *big.Int { return a }},
		{"abs", func(r, a, b *field.Element) { r.Absolute(a) }, func(a, b *big.Int) *big.Int {
			if a.Bit(0) == 1 {
				return ed.Neg(a)
			}
			return a
		}},
	}
	o = append(o, portable...)
	for _, k := range c32s {
		o = append(o, op{fmt.Sprintf("mul32 %d", k), func(r, a, b *field.Element) { r.Mult32(a, k) }, func(a, b *big.Int) *big.Int { return ed.Mul(a, new(big.Int).SetUint64(uint64(k))) }})
	}
	return o
}

func run(c *mc.Ctx) {
	fieldSpaces(c)
	scalarSpaces(c)
	pointSpaces(c)
}

func fieldSpaces(c *mc.Ctx) {
	// encodings
	al := []uint64{0, 1, 1<<51 - 1, 1<<51 - 19, 1<<51 - 20, 1<<51 - 18, 19, 0x5555555555555}
	if !c.Thorough() {
		al = al[:7]
	}
	n := 1
	for i := 0; i < 5; i++ {
		n *= len(al)
	}
	os := ops()
	enc := func(i int) *big.Int {
		x := new(big.Int)
		for k := 0; k < 5; k++ {
			x.Lsh(x, 51).Or(x, new(big.Int).SetUint64(al[i%len(al)]))
			i /= len(al)
		}
		return x
	}
	c.Each("field encodings", n, func(i int) string { return enc(i).Text(16) }, func(i int) string {
		x := enc(i)
		for hi := 0; hi < 2; hi++ {
			b := ed.LE(x, 32)
			b[31] |= byte(hi) << 7
			b0 := append([]byte(nil), b...)
			var e field.Element
			if _, err := e.SetBytes(b); err != nil {
				return err.Error()
			}
			r := reg{e, ed.Mod(x), "decode"}
			c.State(1)
			if m := r.bad(); m != "" {
				return m
			}
			if !bytes.Equal(b, b0) {
				return "the input was changed"
			}
			if e.IsNegative() != int(r.v.Bit(0)) {
				return "IsNegative"
			}
			for _, o := range os {
				q := reg{v: o.w(r.v, r.v), n: o.n}
				o.f(&q.e, &e, &e)
				c.Trans(1)
				if m := q.bad(); m != "" {
					return m
				}
			}
		}
		return ""
	})
	// a list of operands, many of them unreduced inside
	var l []reg
	seeds := []*big.Int{new(big.Int), one, big.NewInt(2), big.NewInt(19), new(big.Int).Sub(ed.P, one), ed.P, new(big.Int).Add(ed.P, one), new(big.Int).Add(ed.P, big.NewInt(18)),
		new(big.Int).Rsh(ed.P, 1), new(big.Int).Lsh(one, 254), ed.I, ed.D, ed.B.X, big2("55555555555555555555555555555555"), big2("7ffffffffffff0000000000000fffffffffffff8000000000000ffffffffffff")}
	for i := uint(50); i < 255; i += 51 {
		seeds = append(seeds, new(big.Int).Lsh(one, i+1), new(big.Int).Sub(new(big.Int).Lsh(one, i+1), one), new(big.Int).Sub(ed.P, new(big.Int).Lsh(one, i)))
	}
	for i, s := range seeds {
		s = new(big.Int).And(s, new(big.Int).Sub(new(big.Int).Lsh(one, 255), one))
		r := mkReg(fmt.Sprintf("s%d", i), s)
		l = append(l, r)
		d := reg{v: ed.Add(r.v, r.v), n: r.n + "+itself"}
		d.e.Add(&r.e, &r.e)
		l = append(l, d)
		for _, k := range []uint32{0xffffffff, 0x80000001} {
			m := reg{v: ed.Mul(r.v, new(big.Int).SetUint64(uint64(k))), n: fmt.Sprintf("%s*%d", r.n, k)}
			m.e.Mult32(&r.e, k)
			l = append(l, m)
			m2 := reg{v: ed.Mul(m.v, new(big.Int).SetUint64(uint64(k))), n: fmt.Sprintf("%s*%d", m.n, k)}
			m2.e.Mult32(&m.e, k)
			l = append(l, m2)
		}
		g := reg{v: ed.Neg(r.v), n: "-" + r.n}
		g.e.Negate(&r.e)
		l = append(l, g)
	}
	m := len(l)
	c.Each("field pairs", m*m, func(i int) string { return l[i/m].n + " , " + l[i%m].n }, func(i int) string {
		a, b := l[i/m], l[i%m]
		if x := a.bad(); x != "" {
			return x
		}
		if (a.e.Equal(&b.e) == 1) != (a.v.Cmp(b.v) == 0) {
			return "Equal"
		}
		for cond := 0; cond < 2; cond++ {
			x, y := a, b
			x.e.Swap(&y.e, cond)
			if cond == 1 {
				x.v, y.v = y.v, x.v
			}
			if s := x.bad() + y.bad(); s != "" {
				return "swap " + s
			}
		}
		for _, o := range os {
			w := o.w(a.v, b.v)
			// receiver apart, on a, on b
			for al := 0; al < 3; al++ {
				x, y, z := a, b, reg{}
				t := []*field.Element{&z.e, &x.e, &y.e}[al]
				o.f(t, &x.e, &y.e)
				c.Trans(1)
				r := reg{*t, w, fmt.Sprintf("%s (receiver %d)", o.n, al)}
				if s := r.bad(); s != "" {
					return s
				}
				if al != 1 && x.e != a.e || al != 2 && y.e != b.e {
					return o.n + " changed an argument"
				}
			}
			x := a
			o.f(&x.e, &x.e, &x.e)
			r := reg{x.e, o.w(a.v, a.v), o.n + " (all one)"}
			if s := r.bad(); s != "" {
				return s
			}
		}
		c.State(1)
		// square root of the ratio
		var sr field.Element
		_, was := sr.SqrtRatio(&a.e, &b.e)
		got := val(&sr)
		if got.Bit(0) == 1 {
			return "SqrtRatio gives a negative root"
		}
		lhs := ed.Mul(ed.Mul(got, got), b.v)
		switch {
		case a.v.Sign() == 0:
			if got.Sign() != 0 || was != 1 {
				return "SqrtRatio of 0"
			}
		case b.v.Sign() == 0:
			if got.Sign() != 0 || was != 0 {
				return "SqrtRatio over 0"
			}
		case ed.Sqrt(ed.Mul(a.v, ed.Inv(b.v))) != nil:
			if was != 1 || lhs.Cmp(a.v) != 0 {
				return "SqrtRatio of a square"
			}
		default: // sqrt(i*u/v)
			if was != 0 || lhs.Cmp(ed.Mul(ed.I, a.v)) != 0 {
				return "SqrtRatio of a non-square"
			}
		}
		return ""
	})
	c.Each("field powers", m, func(i int) string { return l[i].n }, func(i int) string {
		a := l[i]
		c.State(1)
		e52 := new(big.Int).Sub(new(big.Int).Lsh(one, 252), big.NewInt(3))
		for al := 0; al < 2; al++ {
			x := a.e
			t := new(field.Element)
			if al == 1 {
				t = &x
			}
			r := reg{v: new(big.Int).Exp(a.v, new(big.Int).Sub(ed.P, big.NewInt(2)), ed.P), n: "invert"}
			r.e = *t.Invert(&x)
			if s := r.bad(); s != "" {
				return s
			}
			x = a.e
			r = reg{v: new(big.Int).Exp(a.v, e52, ed.P), n: "pow22523"}
			r.e = *t.Pow22523(&x)
			if s := r.bad(); s != "" {
				return s
			}
			x = a.e
			z, o := reg{*new(field.Element).Set(&x).Zero(), new(big.Int), "zero"}, reg{*new(field.Element).Set(&x).One(), one, "one"}
			if s := z.bad() + o.bad(); s != "" {
				return s
			}
		}
		for _, n := range []int{0, 1, 31, 33, 64} {
			x := a.e
			if _, err := x.SetBytes(make([]byte, n)); err == nil || x != a.e {
				return fmt.Sprintf("SetBytes of %d bytes", n)
			}
		}
		return ""
	})
	// sequences on two registers
	depth := mc.Pick(c, 3, 4)
	seq := os[:0:0]
	for _, o := range os {
		if o.n != "set" && o.n != "select0" && o.n != "select1" && o.n != "mul32 0" && o.n != "mul32 1" {
			seq = append(seq, o)
		}
	}
	ns := 2 * len(seq)
	starts := [][2]int{}
	for i := 0; i < m; i += mc.Pick(c, 11, 5) {
		starts = append(starts, [2]int{i, (i*7 + 3) % m})
	}
	c.Each("field sequences", len(starts)*ns, func(i int) string {
		s := starts[i/ns]
		return fmt.Sprintf("%s , %s first %s->%d", l[s[0]].n, l[s[1]].n, seq[i%ns/2].n, i%2)
	}, func(i int) string {
		s := starts[i/ns]
		var rec func(a, b reg, d int, trail string) string
		step := func(a, b reg, k int) (reg, reg) {
			o := seq[k/2]
			x, y := a, b
			if k%2 == 0 {
				o.f(&x.e, &a.e, &b.e)
				x.v = o.w(a.v, b.v)
			} else {
				o.f(&y.e, &b.e, &a.e)
				y.v = o.w(b.v, a.v)
			}
			return x, y
		}
		rec = func(a, b reg, d int, trail string) string {
			c.State(1)
			if m := a.bad() + b.bad(); m != "" {
				return trail + ": " + m
			}
			if d == 0 {
				return ""
			}
			for k := 0; k < ns; k++ {
				x, y := step(a, b, k)
				c.Trans(1)
				if m := rec(x, y, d-1, trail+fmt.Sprintf(" %s->%d", seq[k/2].n, k%2)); m != "" {
					return m
				}
			}
			return ""
		}
		x, y := step(l[s[0]], l[s[1]], i%ns)
		return rec(x, y, depth-1, "")
	})
}

func sc(x *big.Int) *lib.Scalar {
	s, err := lib.NewScalar().SetCanonicalBytes(ed.LE(new(big.Int).Mod(x, ed.L), 32))
	if err != nil {
		panic(err)
	}
	return s
}
func modL(x *big.Int) *big.Int { return new(big.Int).Mod(x, ed.L) }

func scalarList(c *mc.Ctx) []*big.Int {
	r := []*big.Int{new(big.Int), one, big.NewInt(2), new(big.Int).Sub(ed.L, one), new(big.Int).Sub(ed.L, big.NewInt(2)), new(big.Int).Rsh(ed.L, 1), new(big.Int).Add(new(big.Int).Rsh(ed.L, 1), one),
		new(big.Int).Lsh(one, 252), new(big.Int).Sub(new(big.Int).Lsh(one, 252), one), big2("ffffffffffffffffffffffffffffffff"), big2("14def9dea2f79cd65812631a5cf5d3ed"), big2("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")}
	for i := uint(21); i < 252; i += mc.Pick(c, uint(42), uint(21)) {
		r = append(r, new(big.Int).Lsh(one, i), new(big.Int).Sub(new(big.Int).Lsh(one, i), one), new(big.Int).Lsh(big.NewInt(1<<20), i-21))
	}
	return r
}

func scalarSpaces(c *mc.Ctx) {
	l := scalarList(c)
	n := len(l)
	c.Each("scalar triples", n*n, func(i int) string { return l[i/n].Text(16) + " , " + l[i%n].Text(16) }, func(i int) string {
		x, y := l[i/n], l[i%n]
		a, b := sc(x), sc(y)
		ck := func(nm string, s *lib.Scalar, w *big.Int) string {
			c.Trans(1)
			if g := ed.FromLE(s.Bytes()); g.Cmp(modL(w)) != 0 {
				return fmt.Sprintf("%s: got %s want %s", nm, g.Text(16), modL(w).Text(16))
			}
			return ""
		}
		if (a.Equal(b) == 1) != (x.Cmp(y) == 0) {
			return "Equal"
		}
		for al := 0; al < 3; al++ {
			type f struct {
				n string
				f func(s, a, b *lib.Scalar)
				w *big.Int
			}
			for _, q := range []f{
				{"add", func(s, a, b *lib.Scalar) { s.Add(a, b) }, new(big.Int).Add(x, y)},
				{"sub", func(s, a, b *lib.Scalar) { s.Subtract(a, b) }, new(big.Int).Sub(x, y)},
				{"mul", func(s, a, b *lib.Scalar) { s.Multiply(a, b) }, new(big.Int).Mul(x, y)},
				{"neg", func(s, a, b *lib.Scalar) { s.Negate(a) }, new(big.Int).Neg(x)},
				{"set", func(s, a, b *lib.Scalar) { s.Set(a) }, x},
			} {
				a, b := sc(x), sc(y)
				s := []*lib.Scalar{lib.NewScalar(), a, b}[al]
				q.f(s, a, b)
				if m := ck(fmt.Sprintf("%s receiver %d", q.n, al), s, q.w); m != "" {
					return m
				}
				if al != 1 {
					if m := ck(q.n+" first argument", a, x); m != "" {
						return m
					}
				}
			}
		}
		for _, z := range l {
			w := new(big.Int).Add(new(big.Int).Mul(x, y), z)
			a, b, d := sc(x), sc(y), sc(z)
			s := []*lib.Scalar{lib.NewScalar(), a, b, d}[i%4]
			if m := ck("muladd", s.MultiplyAdd(a, b, d), w); m != "" {
				return m
			}
			c.State(1)
		}
		return ""
	})
	// 64-byte reduction
	var wide []*big.Int
	top := new(big.Int).Lsh(one, 512)
	addw := func(x *big.Int) {
		if x.Sign() >= 0 && x.Cmp(top) < 0 {
			wide = append(wide, x)
		}
	}
	q := new(big.Int).Div(top, ed.L)
	ks := []*big.Int{new(big.Int), one, big.NewInt(2), big.NewInt(16), q, new(big.Int).Sub(q, one), ed.L}
	for i := uint(5); i < 260; i += mc.Pick(c, uint(7), uint(1)) {
		ks = append(ks, new(big.Int).Lsh(one, i), new(big.Int).Sub(new(big.Int).Lsh(one, i), one))
	}
	for _, k := range ks {
		for d := int64(-2); d <= 2; d++ {
			addw(new(big.Int).Add(new(big.Int).Mul(k, ed.L), big.NewInt(d)))
		}
	}
	ones := new(big.Int).Sub(top, one)
	lim := []int64{1, 1<<21 - 1, 1 << 20}
	for i := uint(0); i < 25; i++ {
		for j := i; j < 25; j++ {
			for _, a := range lim {
				for _, b := range lim {
					x := new(big.Int).Or(new(big.Int).Lsh(big.NewInt(a), 21*i), new(big.Int).Lsh(big.NewInt(b), 21*j))
					x.And(x, ones)
					addw(x)
					addw(new(big.Int).Xor(ones, x))
				}
			}
		}
	}
	c.Each("scalar reduction", len(wide), func(i int) string { return wide[i].Text(16) }, func(i int) string {
		c.State(1)
		b := ed.LE(wide[i], 64)
		s, err := lib.NewScalar().SetUniformBytes(b)
		if err != nil {
			return err.Error()
		}
		if g := ed.FromLE(s.Bytes()); g.Cmp(modL(wide[i])) != 0 {
			return fmt.Sprintf("got %s want %s", g.Text(16), modL(wide[i]).Text(16))
		}
		// clamping and canonical decoding of its low half
		lo := b[:32]
		x := ed.FromLE(lo)
		s2 := sc(big.NewInt(7))
		_, err = s2.SetCanonicalBytes(lo)
		if (err == nil) != (x.Cmp(ed.L) < 0) {
			return fmt.Sprintf("canonical decoding: %v", err)
		}
		if w := x; err == nil && ed.FromLE(s2.Bytes()).Cmp(w) != 0 || err != nil && s2.Equal(sc(big.NewInt(7))) != 1 {
			return "canonical decoding: value"
		}
		cl := append([]byte(nil), lo...)
		cl[0] &= 248
		cl[31] = cl[31]&127 | 64
		if s2, err = s2.SetBytesWithClamping(lo); err != nil || ed.FromLE(s2.Bytes()).Cmp(modL(ed.FromLE(cl))) != 0 {
			return "clamping"
		}
		if ed.FromLE(b).Cmp(wide[i]) != 0 {
			return "the input was changed"
		}
		return ""
	})
	// canonical decoding byte by byte around the order
	c.Each("scalar encodings", 32*256, func(i int) string { return fmt.Sprintf("byte %d = %d", i/256, i%256) }, func(i int) string {
		for _, base := range []*big.Int{ed.L, new(big.Int).Sub(ed.L, one), new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, 252), one)} {
			b := ed.LE(base, 32)
			b[i/256] = byte(i)
			x := ed.FromLE(b)
			c.State(1)
			s := sc(big.NewInt(5))
			_, err := s.SetCanonicalBytes(b)
			if (err == nil) != (x.Cmp(ed.L) < 0) {
				return fmt.Sprintf("%x: %v", b, err)
			}
			want := x
			if err != nil {
				want = big.NewInt(5)
			}
			if ed.FromLE(s.Bytes()).Cmp(want) != 0 {
				return fmt.Sprintf("%x: value", b)
			}
		}
		return ""
	})
	c.Each("scalar lengths", 70, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		s := sc(big.NewInt(5))
		b := make([]byte, i)
		if _, err := s.SetUniformBytes(b); (err == nil) != (i == 64) {
			return "SetUniformBytes"
		}
		s = sc(big.NewInt(5))
		if _, err := s.SetCanonicalBytes(b); (err == nil) != (i == 32) {
			return "SetCanonicalBytes"
		}
		s = sc(big.NewInt(5))
		if _, err := s.SetBytesWithClamping(b); (err == nil) != (i == 32) {
			return "SetBytesWithClamping"
		}
		return ""
	})
}

type npt struct {
	n string
	p *lib.Point
	w ed.Pt
}

func libPt(p ed.Pt) *lib.Point {
	r, err := new(lib.Point).SetBytes(p.Bytes())
	if err != nil {
		panic(err)
	}
	return r
}

func ckPt(p *lib.Point, w ed.Pt) string {
	if !bytes.Equal(p.Bytes(), w.Bytes()) {
		return fmt.Sprintf("got %x want %x", p.Bytes(), w.Bytes())
	}
	a := new(lib.PointAffine).FromExtended(p)
	if val(&a.X).Cmp(w.X) != 0 || val(&a.Y).Cmp(w.Y) != 0 {
		return "FromExtended"
	}
	x, y, z := p.UnpackPoint()
	zi := ed.Inv(val(&z))
	if zi == nil || ed.Mul(val(&x), zi).Cmp(w.X) != 0 || ed.Mul(val(&y), zi).Cmp(w.Y) != 0 {
		return "UnpackPoint"
	}
	return ""
}

func pointSpaces(c *mc.Ctx) {
	ts := ed.Torsion()
	var l []npt
	for _, k := range mc.Pick(c, []int64{0, 1, 2, 5}, []int64{0, 1, 2, 3, 5, 8, 1000}) {
		for j, t := range ts {
			w := ed.B.Mul(big.NewInt(k)).Add(t)
			l = append(l, npt{fmt.Sprintf("%dB+T%d", k, j), libPt(w), w})
			// the same point, and its opposite, with another denominator
			h := ed.B.Mul(big.NewInt(77))
			p := new(lib.Point).Add(libPt(w.Add(h)), libPt(h.Neg()))
			l = append(l, npt{fmt.Sprintf("%dB+T%d'", k, j), p, w})
			l = append(l, npt{fmt.Sprintf("-(%dB+T%d')", k, j), new(lib.Point).Negate(p), w.Neg()})
		}
	}
	n := len(l)
	c.Each("point pairs", n*n, func(i int) string { return l[i/n].n + " , " + l[i%n].n }, func(i int) string {
		a, b := l[i/n], l[i%n]
		c.State(1)
		if (a.p.Equal(b.p) == 1) != a.w.Eq(b.w) {
			return "Equal"
		}
		type f struct {
			n string
			f func(v, a, b *lib.Point)
			w ed.Pt
		}
		for _, q := range []f{
			{"add", func(v, a, b *lib.Point) { v.Add(a, b) }, a.w.Add(b.w)},
			{"sub", func(v, a, b *lib.Point) { v.Subtract(a, b) }, a.w.Add(b.w.Neg())},
			{"neg", func(v, a, b *lib.Point) { v.Negate(a) }, a.w.Neg()},
			{"set", func(v, a, b *lib.Point) { v.Set(a) }, a.w},
		} {
			for al := 0; al < 3; al++ {
				x, y := new(lib.Point).Set(a.p), new(lib.Point).Set(b.p)
				v := []*lib.Point{new(lib.Point), x, y}[al]
				q.f(v, x, y)
				c.Trans(1)
				if m := ckPt(v, q.w); m != "" {
					return fmt.Sprintf("%s receiver %d: %s", q.n, al, m)
				}
				if al == 0 {
					if m := ckPt(x, a.w); m != "" {
						return q.n + " changed its argument: " + m
					}
					// the result is a good operand too
					if m := ckPt(new(lib.Point).Add(v, x), q.w.Add(a.w)); m != "" {
						return q.n + " then add: " + m
					}
				}
			}
		}
		return ""
	})
	c.Each("constants", 1, func(int) string { return "generator, identity" }, func(int) string {
		return ckPt(lib.NewGeneratorPoint(), ed.B) + ckPt(lib.NewIdentityPoint(), ed.Id)
	})
	// encodings
	var ys []*big.Int
	for y := int64(0); y < mc.Pick(c, int64(400), int64(20000)); y++ {
		ys = append(ys, big.NewInt(y))
	}
	for y := int64(-mc.Pick(c, 400, 20000)); y < 19; y++ {
		ys = append(ys, new(big.Int).Add(ed.P, big.NewInt(y)))
	}
	for i := uint(8); i < 255; i++ {
		ys = append(ys, new(big.Int).Lsh(one, i), new(big.Int).Sub(new(big.Int).Lsh(one, i), one))
	}
	c.Each("point encodings", 2*len(ys), func(i int) string { return fmt.Sprintf("sign %d y %s", i%2, ys[i/2].Text(16)) }, func(i int) string {
		b := ed.LE(ys[i/2], 32)
		b[31] |= byte(i%2) << 7
		b0 := append([]byte(nil), b...)
		w, _, ok := ed.Decode(b)
		p := lib.NewGeneratorPoint()
		_, err := p.SetBytes(b)
		c.State(1)
		if (err == nil) != ok {
			return fmt.Sprintf("decoding: %v", err)
		}
		if !bytes.Equal(b, b0) {
			return "the input was changed"
		}
		if !ok {
			return ckPt(p, ed.B)
		}
		if m := ckPt(p, w); m != "" {
			return m
		}
		return ckPt(new(lib.Point).Add(p, p), w.Add(w))
	})
	c.Each("point encoding lengths", 70, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		p := lib.NewGeneratorPoint()
		b := make([]byte, i)
		if i > 0 {
			b[0] = 1
		}
		if _, err := p.SetBytes(b); (err == nil) != (i == 32) {
			return "accepted"
		} else if err != nil {
			return ckPt(p, ed.B)
		}
		return ""
	})
	// scalar multiplication
	var ss []*big.Int
	for i := int64(0); i < mc.Pick(c, int64(520), int64(5000)); i++ {
		ss = append(ss, big.NewInt(i))
	}
	for i := uint(0); i < 252; i++ {
		for _, d := range []int64{1, 3, 8, 15, 17, 127, 129, 255} {
			if d == 1 || i%4 == 0 || c.Thorough() {
				ss = append(ss, new(big.Int).Lsh(big.NewInt(d), i))
			}
		}
		ss = append(ss, new(big.Int).Sub(new(big.Int).Lsh(one, i), one))
	}
	for i := int64(1); i < 20; i++ {
		ss = append(ss, new(big.Int).Sub(ed.L, big.NewInt(i)))
	}
	for _, h := range []string{"888888888888888888888888888888888888888888888888888888888888888", "777777777777777777777777777777777777777777777777777777777777777", "787878787878787878787878787878787878787878787878787878787878787", "878787878787878787878787878787878787878787878787878787878787878",
		"8080808080808080808080808080808080808080808080808080808080808080", "7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7f7", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "842108421084210842108421084210842108421084210842108421084210842"} {
		ss = append(ss, modL(big2(h)))
	}
	qs := []npt{l[3*8], l[3*8+4], l[3], l[3*16+8]}
	c.Each("scalar multiplication", len(ss), func(i int) string { return ss[i].Text(16) }, func(i int) string {
		x := modL(ss[i])
		s := sc(x)
		c.State(1)
		if m := ckPt(new(lib.Point).ScalarBaseMult(s), ed.B.Mul(x)); m != "" {
			return "base: " + m
		}
		q := qs[i%len(qs)]
		v := new(lib.Point)
		if i%3 == 0 { // receiver is the argument
			v.Set(q.p)
			v.ScalarMult(s, v)
		} else {
			v.ScalarMult(s, q.p)
		}
		qm := q.w.Mul(x)
		if m := ckPt(v, qm); m != "" {
			return q.n + ": " + m
		}
		for _, y := range []*big.Int{new(big.Int), ss[(i*31+7)%len(ss)], x} {
			v := new(lib.Point)
			if i%3 == 1 {
				v.Set(q.p)
				v.VarTimeDoubleScalarBaseMult(s, v, sc(y))
			} else {
				v.VarTimeDoubleScalarBaseMult(s, q.p, sc(y))
			}
			if m := ckPt(v, qm.Add(ed.B.Mul(modL(y)))); m != "" {
				return fmt.Sprintf("double %s, %s: %s", q.n, y.Text(16), m)
			}
			c.Trans(1)
		}
		if ed.FromLE(s.Bytes()).Cmp(x) != 0 {
			return "the scalar was changed"
		}
		return ""
	})
}
