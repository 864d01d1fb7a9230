// C35: the in-circuit hash to G2 against RFC 9380.
package main

import (
	"fmt"
	"math/big"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	bc "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark/frontend"

	"verif/harness/bls"
	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type (
	F2 = bls.F2
	S  = bls.Sess
)

func main() {
	mc.Main(mc.Meta{Prop: "C35",
		Rule:        "message expansion and hash-to-field over messages covering every byte position with boundary bytes and every bit, for several output lengths; the 64-byte reduction over boundary integers with every single deviation of a prover's answers; byte packing over every byte position and value class, with out-of-range bytes refused; the SSWU map over boundary field elements (zero, purely real and imaginary, both square classes of g(x1), both signs) in several representations, with deviations of its last answers (sign choice, division); the isogeny over the same points; powers over small and boundary exponents; complete hashing and encoding, in both coordinate systems, over a message list; runs of several circuits in one process in which an earlier one is aborted",
		Assumptions: []string{"SHA-256 itself is C16's subject; curve-map inputs beyond the list behave like the list's generic ones"},
	}, run)
}

// messages: every byte position with 0x80 and 0xff, every single bit.
func messages(c *mc.Ctx) (r [][32]byte) {
	var z, f [32]byte
	for i := range f {
		f[i] = 0xff
	}
	r = append(r, z, f)
	for i := 0; i < 32; i++ {
		var m [32]byte
		for j := range m {
			m[j] = byte(7*j + 1)
		}
		m[i] = 0xff
		r = append(r, m)
	}
	for i := 0; i < 256; i += mc.Pick(c, 11, 1) {
		var m [32]byte
		m[i/8] = 1 << (i % 8)
		r = append(r, m)
	}
	return
}

func in32(s *S, m [32]byte) (v [32]frontend.Variable) {
	for i := range m {
		v[i] = s.E.Val(int(m[i]))
	}
	return
}

func run(c *mc.Ctx) {
	c.One("reference", "", func() string {
		m := []byte("verif reference message 01234567")
		h, err := bc.HashToG2(m, pb.DST)
		if err != nil || !bls.FromG2(h).Eq(bls.Hash(m, pb.DST)) {
			return "harness: hash"
		}
		e, err := bc.EncodeToG2(m, pb.DST)
		if err != nil || !bls.FromG2(e).Eq(bls.Encode(m, pb.DST)) {
			return "harness: encode"
		}
		return ""
	})
	if string(pb.DST) != "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_" {
		c.One("domain tag", "", func() string { return "the domain tag is " + string(pb.DST) })
	}
	ms := messages(c)
	expansion(c, ms)
	packing(c)
	reduction(c)
	maps(c)
	powers(c)
	whole(c, ms)
	sequences(c)
	conformance(c)
}

func expansion(c *mc.Ctx, ms [][32]byte) {
	c.Each("hash to field", len(ms), func(i int) string { return fmt.Sprintf("%x", ms[i]) }, func(i int) string {
		m := ms[i]
		n := 4 - 2*(i%3&1)
		return bls.With(c, func(s *S) {
			want := bls.HashToField(m[:], pb.DST, n/2)
			got := pb.HashToField(s.Api, in32(s, m), n)
			if len(got) != n/2 {
				s.Bad = fmt.Sprintf("%d elements", len(got))
				return
			}
			for k := range got {
				s.C2(fmt.Sprintf("element %d", k), &got[k], want[k])
			}
		})
	})
	counts := []int{1, 2, 3, 4, 5, 6, 8}
	if c.Thorough() {
		counts = append(counts, 7, 9, 16, 33, 64, 100, 127)
	}
	c.Each("expansion lengths", 2*len(counts), func(i int) string { return fmt.Sprintf("%d / %d", counts[i/2], i%2) }, func(i int) string {
		m := ms[2+i%2*5]
		return bls.With(c, func(s *S) {
			want := bls.ExpandXMD(m[:], pb.DST, 64*counts[i/2])
			got := pb.ExpandMsgXmd(s.Api, in32(s, m), counts[i/2])
			if len(got) != len(want) {
				s.Bad = fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
				return
			}
			for k := range got {
				if s.E.Int(got[k]) != int64(want[k]) {
					s.Bad = fmt.Sprintf("byte %d: %d instead of %d", k, s.E.Int(got[k]), want[k])
					return
				}
			}
		})
	})
	// a message byte out of range
	c.Each("message bytes out of range", 32*3, func(i int) string { return fmt.Sprintf("byte %d, %d", i/3, i%3) }, func(i int) string {
		v := []*big.Int{big.NewInt(256), big.NewInt(-1), new(big.Int).Lsh(big.NewInt(1), 64)}[i%3]
		s, r := bls.Run(c, nil, nil, func(s *S) {
			m := in32(s, ms[3])
			m[i/3] = s.E.Val(new(big.Int).Mod(v, bls.BN))
			pb.ExpandMsgXmd(s.Api, m, 2)
		})
		_ = s
		if r.Panic != "" {
			return r.String()
		}
		if r.OK {
			return "accepted"
		}
		return ""
	})
}

func packing(c *mc.Ctx) {
	bs := []int64{0, 1, 0x7f, 0x80, 0xff, 0x5a, 256, 0x1ff, -1}
	n := len(bs)
	c.Each("byte packing", 8*n*2, func(i int) string { return fmt.Sprintf("byte %d = %d among %d", i/2/n, bs[i/2%n], i%2) }, func(i int) string {
		var v [8]int64
		for j := range v {
			v[j] = int64(0x11*(j+1)) * int64(i%2)
		}
		v[i/2/n] = bs[i/2%n]
		bad := v[i/2/n] > 255 || v[i/2/n] < 0
		s, r := bls.Run(c, nil, nil, func(s *S) {
			var x [8]frontend.Variable
			want := new(big.Int)
			for j := range x {
				x[j] = s.E.Val(new(big.Int).Mod(big.NewInt(v[j]), bls.BN))
				want.Lsh(want, 8).Or(want, big.NewInt(v[j]&255))
			}
			if g := s.E.Big(pb.GetUint64From8Bytes(s.Api, x)); g.Cmp(want) != 0 {
				s.Bad = fmt.Sprintf("GetUint64From8Bytes gives %v instead of %v", g, want)
			}
			b := pb.Get64BitsFrom8Bytes(s.Api, x)
			if len(b) != 64 {
				s.Bad = "not 64 bits"
				return
			}
			for k := range b {
				if s.E.Int(b[k]) != int64(want.Bit(k)) {
					s.Bad = fmt.Sprintf("Get64BitsFrom8Bytes: bit %d", k)
				}
			}
		})
		switch {
		case r.Panic != "":
			return r.String()
		case bad && r.OK:
			return "an out-of-range byte is accepted"
		case bad:
			return ""
		case !r.OK:
			return r.String()
		}
		return s.Bad
	})
}

func reduction(c *mc.Ctx) {
	p512 := new(big.Int).Lsh(big.NewInt(1), 512)
	var l []*big.Int
	add := func(x *big.Int) {
		for d := int64(-1); d <= 1; d++ {
			y := new(big.Int).Add(x, big.NewInt(d))
			if y.Sign() >= 0 && y.Cmp(p512) < 0 {
				l = append(l, y)
			}
		}
	}
	add(new(big.Int))
	add(bls.P)
	add(p512)
	q := new(big.Int).Div(p512, bls.P)
	add(new(big.Int).Mul(q, bls.P))
	add(new(big.Int).Mul(big.NewInt(12345), bls.P))
	for k := uint(64); k < 512; k += 64 {
		add(new(big.Int).Lsh(big.NewInt(1), k))
	}
	if c.Thorough() {
		for k := uint(1); k < 512; k++ {
			l = append(l, new(big.Int).Lsh(big.NewInt(1), k))
		}
	}
	f := func(x *big.Int) func(s *S) {
		return func(s *S) {
			var v [8]frontend.Variable
			t := new(big.Int)
			for j := range v {
				v[j] = s.E.Val(new(big.Int).And(t.Rsh(x, uint(64*j)), new(big.Int).SetUint64(1<<64-1)))
			}
			want := new(big.Int).Mod(x, bls.P)
			if g := bls.G(s.E, *pb.GetRawLimbsBy8Uint64(s.Api, v)); g.Cmp(want) != 0 {
				s.Bad = fmt.Sprintf("got %v want %v", g, want)
			}
		}
	}
	c.Each("reduction of 512 bits", len(l), func(i int) string { return l[i].Text(16) }, func(i int) string {
		if m := bls.With(c, f(l[i])); m != "" {
			return m
		}
		return bls.Adversary(c, 3, f(l[i]))
	})
}

// us are the inputs of the map.
func us(c *mc.Ctx) (r []F2) {
	half := new(big.Int).Rsh(bls.P, 1)
	cs := []*big.Int{new(big.Int), big.NewInt(1), big.NewInt(2), new(big.Int).Sub(bls.P, big.NewInt(1)), half}
	if c.Thorough() {
		cs = append(cs, big.NewInt(3), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 380), new(big.Int).Add(half, big.NewInt(1)), new(big.Int).Sub(bls.P, big.NewInt(2)))
	}
	for _, a := range cs {
		for _, b := range cs {
			r = append(r, F2{A: a, B: b})
		}
	}
	for i := int64(0); i < 8; i++ {
		r = append(r, bls.N2(7*i+11, 5).Exp(big.NewInt(1009)))
	}
	return
}

// special are the inputs for which an intermediate value or the result of the map lies
// in the base field or has no part in it, so that tests of single parts see a zero.
func special(c *mc.Ctx) (r []F2) {
	n := int64(mc.Pick(c, 3, 12))
	per := mc.Pick(c, 1, 8)
	add := func(l []F2) {
		if len(l) > per {
			l = l[:per]
		}
		r = append(r, l...)
	}
	for _, k := range []func(int64) F2{func(a int64) F2 { return bls.N2(a, 0) }, func(a int64) F2 { return bls.N2(0, a) }} {
		classes := map[string]int{}
		for a := int64(1); a < 60; a++ {
			if l := bls.SSWUOfT(k(a)); len(l) > 0 && classes["t"] < int(n) {
				classes["t"]++
				add(l)
			}
			var ys []F2
			for _, p := range bls.IsoCurve(k(a)) {
				ys = append(ys, bls.SSWUInverse(p[0], p[1])...)
			}
			if len(ys) > 0 && classes["y"] < int(n) {
				classes["y"]++
				add(ys)
			}
			x := k(a)
			if y, ok := x.Mul(x).Mul(x).Add(bls.IsoA.Mul(x)).Add(bls.IsoB).Sqrt(); ok && classes["x"] < int(n) {
				if l := append(bls.SSWUInverse(x, y), bls.SSWUInverse(x, y.Neg())...); len(l) > 0 {
					classes["x"]++
					add(l)
				}
			}
		}
		for _, q := range []string{"t", "x", "y"} {
			if classes[q] != int(n) {
				panic(fmt.Sprint("harness: special inputs ", classes))
			}
		}
	}
	return
}

func maps(c *mc.Ctx) {
	l := us(c)
	// both square classes and both parities must occur
	sq := map[string]int{}
	for _, u := range l {
		x, y := bls.SSWU(u)
		_, _ = x, y
		zu2 := bls.Z.Mul(u).Mul(u)
		t := zu2.Mul(zu2).Add(zu2)
		if t.IsZero() {
			sq["exceptional"]++
			continue
		}
		x1 := bls.IsoB.Neg().Mul(bls.IsoA.Inv()).Mul(bls.N2(1, 0).Add(t.Inv()))
		sq[fmt.Sprint(x.Eq(x1), u.Sgn0())]++
	}
	if len(sq) != 5 {
		panic(fmt.Sprint("harness: map classes ", sq))
	}
	adv := []F2{l[0], l[1], l[2], l[5], l[10], l[len(l)-1], l[len(l)-2], l[len(l)-3]}
	l = append(l, special(c)...)
	c.Each("curve map", len(l), func(i int) string { return l[i].String() }, func(i int) string {
		rep := i % 4
		wx, wy := bls.SSWU(l[i])
		if m := bls.With(c, func(s *S) {
			x, y := pb.MapElementToCurve2(s.Api, s.Rep2(l[i], rep))
			s.C2("x", x, wx)
			s.C2("y", y, wy)
			g := pb.G2Isogeny(s.Api, &pb.G2Affine{X: *x, Y: *y})
			s.CAff("isogeny", g, bls.Iso(wx, wy))
		}); m != "" {
			return m
		}
		// an unreduced argument may be refused but not mapped elsewhere
		if new(big.Int).Add(l[i].A, bls.P).BitLen() <= 381 || new(big.Int).Add(l[i].B, bls.P).BitLen() <= 381 {
			return bls.Never(c, func(s *S) {
				x, y := pb.MapElementToCurve2(s.Api, s.Rep2(l[i], 4))
				s.C2("x", x, wx)
				s.C2("y", y, wy)
			})
		}
		return ""
	})
	pts := make([][2]F2, 0, len(l))
	for _, u := range l {
		x, y := bls.SSWU(u)
		pts = append(pts, [2]F2{x, y})
	}
	c.Each("isogeny", len(pts)*3, func(i int) string { return fmt.Sprintf("%v (%d)", pts[i/3], i%3) }, func(i int) string {
		p := pts[i/3]
		return bls.With(c, func(s *S) {
			g := pb.G2Isogeny(s.Api, &pb.G2Affine{X: s.Rep2(p[0], i%3), Y: s.Rep2(p[1], i%3)})
			s.CAff("isogeny", g, bls.Iso(p[0], p[1]))
		})
	})
	// the sign is chosen from canonical values: deviations of the last answers
	tail := mc.Pick(c, 24, 200)
	kinds := mc.Pick(c, 1, 3)
	c.Each("curve map, dishonest provers", len(adv), func(i int) string { return adv[i].String() }, func(i int) string {
		wx, wy := bls.SSWU(adv[i])
		f := func(s *S) {
			x, y := pb.MapElementToCurve2(s.Api, s.Rep2(adv[i], 1))
			s.C2("x", x, wx)
			s.C2("y", y, wy)
		}
		total := 0
		count := func(string, []*big.Int, []*big.Int) (int, func(int) []*big.Int) { total++; return 0, nil }
		bls.Run(c, &eng.Path{MaxDev: 1}, count, f)
		path := &eng.Path{MaxDev: 1}
		dev := bls.Deviations(kinds)
		for {
			n := 0
			s, r := bls.Run(c, path, func(name string, in, honest []*big.Int) (int, func(int) []*big.Int) {
				n++
				// the last answers are the division's and the sign's; skip range-check helpers
				if n <= total-tail && !(n <= 12 && kinds == 1) {
					return 0, nil
				}
				return dev(name, in, honest)
			}, f)
			if r.Panic != "" {
				return r.String()
			}
			if r.OK && s.Bad != "" {
				return fmt.Sprintf("a wrong result passes with hint answers %v: %s", path.Choices(), s.Bad)
			}
			if !path.Next() {
				return ""
			}
		}
	})
}

func powers(c *mc.Ctx) {
	var ks []*big.Int
	for k := int64(-9); k <= mc.Pick[int64](c, 40, 300); k++ {
		ks = append(ks, big.NewInt(k))
	}
	for _, k := range []uint{8, 16, 64, 70} {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		ks = append(ks, x, new(big.Int).Sub(x, big.NewInt(1)), new(big.Int).Add(x, big.NewInt(1)), new(big.Int).Neg(x))
	}
	xs := []F2{bls.N2(0, 0), bls.N2(1, 0), bls.N2(0, 1), bls.N2(3, 5).Exp(big.NewInt(333))}
	c.Each("powers", len(ks)*len(xs), func(i int) string { return fmt.Sprintf("%v ^ %v", xs[i%len(xs)], ks[i/len(xs)]) }, func(i int) string {
		x, k := xs[i%len(xs)], ks[i/len(xs)]
		want := x.Exp(new(big.Int).Abs(k))
		if k.Sign() < 0 {
			want = want.Inv()
		}
		arg := new(big.Int).Set(k)
		how := bls.With
		if k.Sign() < 0 && x.IsZero() {
			how = func(c *mc.Ctx, fn func(*S)) string {
				if _, r := bls.Run(c, nil, nil, fn); r.OK || r.Panic != "" {
					return "a negative power of zero: " + r.String()
				}
				return ""
			}
		}
		if m := how(c, func(s *S) { s.C2("E2Exp", pb.E2Exp(s.Api, s.Rep2(x, i%3), arg), want) }); m != "" {
			return m
		}
		if arg.Cmp(k) != 0 {
			return fmt.Sprintf("the caller's exponent became %v", arg)
		}
		return ""
	})
}

type hashFn func(frontend.API, [32]frontend.Variable) *pb.G2Affine

func whole(c *mc.Ctx, ms [][32]byte) {
	fs := []struct {
		n string
		f hashFn
		w func(m, d []byte) bls.Pt
	}{{"HashToG2", pb.HashToG2, bls.Hash}, {"HashToG2OnJac", pb.HashToG2OnJac, bls.Hash}, {"EncodeToG2", pb.EncodeToG2, bls.Encode}, {"EncodeToG2OnJac", pb.EncodeToG2OnJac, bls.Encode}}
	n := mc.Pick(c, 2, 40)
	c.Each("complete", n*len(fs), func(i int) string { return fmt.Sprintf("%s %x", fs[i%len(fs)].n, ms[i/len(fs)*7]) }, func(i int) string {
		m, f := ms[i/len(fs)*7%len(ms)], fs[i%len(fs)]
		return bls.With(c, func(s *S) { s.CAff(f.n, f.f(s.Api, in32(s, m)), f.w(m[:], pb.DST)) })
	})
}

// sequences: circuits of one process do not influence each other, even when one
// of them is unsatisfied or aborted half-way.
func sequences(c *mc.Ctx) {
	u := us(c)[7]
	wx, wy := bls.SSWU(u)
	good := func(s *S) {
		x, y := pb.MapElementToCurve2(s.Api, s.Rep2(u, 0))
		s.C2("x", x, wx)
		s.C2("y", y, wy)
	}
	bad := func(s *S) {
		x, _ := pb.MapElementToCurve2(s.Api, s.Rep2(u, 0))
		pb.NewExt2(s.Fp).AssertIsEqual(x, x)
		s.Api.AssertIsEqual(s.E.Val(0), s.E.Val(1))
	}
	fail := func(s *S) { // an operand is not what was multiplied: unsatisfied among the deferred checks
		z := pb.NewExt2(s.Fp)
		pb.MapElementToCurve2(s.Api, s.Rep2(u, 0))
		a, b := bls.W2(s.E, bls.N2(3, 4)), bls.W2(s.E, bls.N2(5, 6))
		z.Mul(&a, &b)
		a.A0.Limbs[0] = s.E.Val(9)
	}
	runs := []func(s *S){good, bad, fail}
	c.Each("sequences of circuits", 9, func(i int) string { return fmt.Sprintf("%d then %d then good", i/3, i%3) }, func(i int) string {
		for _, k := range []int{i / 3, i % 3} {
			if _, r := bls.Run(c, nil, nil, runs[k]); r.OK != (k == 0) {
				return fmt.Sprintf("run %d: %v", k, r)
			}
		}
		return bls.With(c, good)
	})
}

func conformance(c *mc.Ctx) {
	m := messages(c)[5]
	g := gk.New(bls.BN, 32, 24, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
		var v [32]frontend.Variable
		copy(v[:], in)
		var out []frontend.Variable
		for _, e := range pb.HashToField(api, v, 4) {
			out = append(append(out, e.A0.Limbs...), e.A1.Limbs...)
		}
		return out
	})
	c.One("compiled circuits", fmt.Sprintf("%x", m), func() string {
		in := make([]*big.Int, 32)
		for i := range in {
			in[i] = big.NewInt(int64(m[i]))
		}
		var out []*big.Int
		for _, f := range bls.HashToField(m[:], pb.DST, 2) {
			for _, x := range []*big.Int{f.A, f.B} {
				for _, l := range bls.Limbs(x) {
					out = append(out, l.(*big.Int))
				}
			}
		}
		c.Trace(2)
		if m := g.Agree(in, out, true, 0, 2); m != "" {
			return m
		}
		out[3] = new(big.Int).Add(out[3], big.NewInt(1))
		return g.Agree(in, out, false, 0, 2)
	})
}
