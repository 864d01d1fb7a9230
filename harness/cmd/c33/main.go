// C33: the in-circuit BLS12-381 tower against its defining polynomials.
package main

import (
	"fmt"
	"math/big"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"

	"verif/harness/bls"
	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type (
	F2  = bls.F2
	F6  = bls.F6
	F12 = bls.F12
	E2  = pb.E2
	E6  = pb.E6
	E12 = pb.E12
	Fd  = emulated.Field[pb.BLS12381Fp]
)

func main() {
	mc.Main(mc.Meta{Prop: "C33",
		Rule:        "Fp2: all pairs of elements with both coefficients from a boundary list, in several circuit representations (witness, lazily summed, overflowed, constant, unreduced); Fp6 and Fp12: all patterns of zero and non-zero coefficients for one operand and for pairs; sparse products over all patterns of their short operands; cyclotomic operations over one, the elements with g3 = 0 and general elements; every single deviation of a prover's hint answers (first/last output plus one, result plus the modulus)",
		Assumptions: []string{"non-zero coefficients beyond the list behave like the list's generic ones (the formulas branch on zeros only)"},
	}, run)
}

// sess is one run of the circuit; mismatches are collected.
type sess struct {
	e   *eng.Engine
	fp  *Fd
	api frontend.API
	bad string
	n   int
}

func (s *sess) c2(n string, got *E2, want F2) {
	s.n++
	if s.bad == "" {
		if g := bls.G2(s.e, *got); !g.Eq(want) {
			s.bad = fmt.Sprintf("%s: got %v want %v", n, g, want)
		}
	}
}
func (s *sess) c6(n string, got *E6, want F6) {
	s.n++
	if s.bad == "" {
		if g := bls.G6(s.e, *got); !g.Eq(want) {
			s.bad = fmt.Sprintf("%s: got %v want %v", n, g, want)
		}
	}
}
func (s *sess) c12(n string, got *E12, want F12) {
	s.n++
	if s.bad == "" {
		if g := bls.G12(s.e, *got); !g.Eq(want) {
			s.bad = fmt.Sprintf("%s: got %v want %v", n, g, want)
		}
	}
}

// with runs fn in one circuit, which must be satisfied and give the right values.
func with(c *mc.Ctx, fn func(s *sess)) string {
	s := &sess{e: eng.New(bls.BN)}
	r := s.e.Run(func(api frontend.API) error {
		fp, err := emulated.NewField[pb.BLS12381Fp](api)
		if err != nil {
			return err
		}
		s.fp, s.api = fp, api
		fn(s)
		return nil
	})
	c.State(1)
	c.Trans(int(s.e.Ops))
	if s.bad != "" {
		return s.bad
	}
	if !r.OK {
		return r.String()
	}
	return ""
}

// refuses requires that the circuit is not satisfiable by the honest prover.
func refuses(c *mc.Ctx, what string, fn func(s *sess)) string {
	s := &sess{e: eng.New(bls.BN)}
	r := s.e.Run(func(api frontend.API) error {
		fp, err := emulated.NewField[pb.BLS12381Fp](api)
		if err != nil {
			return err
		}
		s.fp, s.api = fp, api
		fn(s)
		return nil
	})
	c.State(1)
	if r.OK {
		return what + " is accepted"
	}
	if r.Panic != "" {
		return what + ": " + r.Panic
	}
	return ""
}

var two50 = new(big.Int).Lsh(big.NewInt(1), 50)

const nrep = 5

// rep represents x in one of several ways.
func (s *sess) rep(x *big.Int, k int) bls.El {
	switch k {
	case 1: // a lazy difference
		t := big.NewInt(987654321)
		a, b := bls.W(s.e, new(big.Int).Mod(new(big.Int).Add(x, t), bls.P)), bls.W(s.e, t)
		return *s.fp.Sub(&a, &b)
	case 2: // much overflow
		i := new(big.Int).ModInverse(two50, bls.P)
		a := bls.W(s.e, i.Mod(i.Mul(i, x), bls.P))
		return *s.fp.MulConst(&a, two50)
	case 3: // a constant
		return emulated.ValueOf[pb.BLS12381Fp](x)
	case 4: // unreduced, where it fits the width
		if y := new(big.Int).Add(x, bls.P); y.BitLen() <= 381 {
			return bls.W(s.e, y)
		}
	}
	return bls.W(s.e, x)
}
func (s *sess) r2(x F2, k int) E2 { return E2{A0: s.rep(x.A, k), A1: s.rep(x.B, k)} }

func coeffs(c *mc.Ctx) []*big.Int {
	g := new(big.Int).Exp(big.NewInt(7), big.NewInt(331), bls.P)
	r := []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Sub(bls.P, big.NewInt(1)), g}
	half := new(big.Int).Rsh(bls.P, 1)
	r = append(r, half)
	if c.Thorough() {
		r = append(r, new(big.Int).Lsh(big.NewInt(1), 380), new(big.Int).Add(half, big.NewInt(1)), new(big.Int).SetUint64(1<<64-1), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Exp(big.NewInt(5), big.NewInt(1001), bls.P))
	}
	return r
}

// gen gives a run of unrelated non-zero elements.
func gen(i int) F2 {
	a := new(big.Int).Exp(big.NewInt(11), big.NewInt(int64(97+13*i)), bls.P)
	b := new(big.Int).Exp(big.NewInt(13), big.NewInt(int64(101+17*i)), bls.P)
	return F2{A: a, B: b}
}

var zero2, one2 = bls.N2(0, 0), bls.N2(1, 0)

func frobC(k, i int) F2 { // w^(i(p^k-1))
	x := F12{{zero2, zero2, zero2}, {zero2, zero2, zero2}}
	if i%2 == 0 {
		x[0][i/2] = one2
	} else {
		x[1][i/2] = one2
	}
	y := x.Frob(k)
	return y[i%2][i/2]
}

func run(c *mc.Ctx) {
	cs := coeffs(c)
	var l2 []F2
	for _, a := range cs {
		for _, b := range cs {
			l2 = append(l2, F2{A: a, B: b})
		}
	}
	n := len(l2)
	half := new(big.Int).ModInverse(big.NewInt(2), bls.P)
	var nr [4][6]F2
	for k := 1; k < 4; k++ {
		for i := 1; i < 6; i++ {
			nr[k][i] = frobC(k, i)
		}
	}

	binary2 := func(s *sess, x, y F2, kx, ky int) {
		z := pb.NewExt2(s.fp)
		a, b := s.r2(x, kx), s.r2(y, ky)
		s.c2("Mul", z.Mul(&a, &b), x.Mul(y))
		s.c2("Add", z.Add(&a, &b), x.Add(y))
		s.c2("Sub", z.Sub(&a, &b), x.Sub(y))
		s.c2("Select 1", z.Select(s.e.Val(1), &a, &b), x)
		s.c2("Select 0", z.Select(s.e.Val(0), &a, &b), y)
		s.c2("MulByElement", z.MulByElement(&a, &b.A0), x.S(y.A))
		if !y.IsZero() {
			s.c2("Div", z.Div(&a, &b), x.Mul(y.Inv()))
		}
	}
	c.Each("Fp2 pairs", n*n, func(i int) string { return fmt.Sprintf("%v , %v", l2[i/n], l2[i%n]) }, func(i int) string {
		return with(c, func(s *sess) { binary2(s, l2[i/n], l2[i%n], 0, 0) })
	})
	// representations
	st := mc.Pick(c, 4, 3)
	var sub []F2
	for i := 0; i < n; i += st {
		sub = append(sub, l2[i])
	}
	m := len(sub)
	nr2 := nrep * nrep
	c.Each("Fp2 representations", m*m*nr2, func(i int) string {
		return fmt.Sprintf("%v (%d), %v (%d)", sub[i/nr2/m], i%nr2/nrep, sub[i/nr2%m], i%nrep)
	}, func(i int) string {
		return with(c, func(s *sess) { binary2(s, sub[i/nr2/m], sub[i/nr2%m], i%nr2/nrep, i%nrep) })
	})
	c.Each("Fp2 unary", n*nrep, func(i int) string { return fmt.Sprintf("%v (%d)", l2[i/nrep], i%nrep) }, func(i int) string {
		x := l2[i/nrep]
		m := with(c, func(s *sess) {
			z := pb.NewExt2(s.fp)
			a := s.r2(x, i%nrep)
			s.c2("Conjugate", z.Conjugate(&a), x.Conj())
			s.c2("Neg", z.Neg(&a), x.Neg())
			s.c2("Square", z.Square(&a), x.Mul(x))
			s.c2("Double", z.Double(&a), x.Add(x))
			s.c2("Halve", z.Halve(&a), x.S(half))
			s.c2("MulBybTwistCurveCoeff", z.MulBybTwistCurveCoeff(&a), x.Mul(bls.N2(4, 4)))
			s.c2("MulByNonResidue", z.MulByNonResidue(&a), x.Mul(bls.Xi))
			s.c2("MulByNonResidueInv", z.MulByNonResidueInv(&a), x.Mul(bls.Xi.Inv()))
			for k, f := range []func(*E2) *E2{z.MulByNonResidue1Power1, z.MulByNonResidue1Power2, z.MulByNonResidue1Power3, z.MulByNonResidue1Power4, z.MulByNonResidue1Power5,
				z.MulByNonResidue2Power1, z.MulByNonResidue2Power2, z.MulByNonResidue2Power3, z.MulByNonResidue2Power4, z.MulByNonResidue2Power5} {
				s.c2(fmt.Sprintf("MulByNonResidue%dPower%d", k/5+1, k%5+1), f(&a), x.Mul(nr[k/5+1][k%5+1]))
			}
			s.c2("One", z.One(), one2)
			s.c2("Zero", z.Zero(), zero2)
			if !x.IsZero() {
				s.c2("Inverse", z.Inverse(&a), x.Inv())
			}
		})
		if m != "" || !x.IsZero() {
			return m
		}
		if m := refuses(c, "the inverse of zero", func(s *sess) { a := s.r2(x, i%nrep); pb.NewExt2(s.fp).Inverse(&a) }); m != "" {
			return m
		}
		return refuses(c, "a division by zero", func(s *sess) { a := s.r2(x, i%nrep); pb.NewExt2(s.fp).Div(&a, &a) })
	})

	// Fp6
	vals := []F2{zero2, one2, bls.N2(-1, 0)}
	mk6 := func(i, b, off int) F6 {
		var x F6
		for k := range x {
			if d := i % b; d < len(vals) && !(b == 2 && d == 1) {
				x[k] = vals[d]
			} else {
				x[k] = gen(off + k)
			}
			i /= b
		}
		return x
	}
	// coefficient-wise patterns: each of the six base-field coefficients zero or not
	mk6b := func(i, off int) F6 {
		var x F6
		for k := range x {
			g := gen(off + k)
			if i>>(2*k)&1 == 0 {
				g.A = new(big.Int)
			}
			if i>>(2*k+1)&1 == 0 {
				g.B = new(big.Int)
			}
			x[k] = g
		}
		return x
	}
	unary6 := func(x F6) string {
		m := with(c, func(s *sess) {
			z := pb.NewExt6(s.fp)
			a := bls.W6(s.e, x)
			s.c6("Neg", z.Neg(&a), x.Neg())
			s.c6("Double", z.Double(&a), x.Add(x))
			s.c6("Square", z.Square(&a), x.Mul(x))
			s.c6("MulByNonResidue", z.MulByNonResidue(&a), x.Mul(bls.V))
			if !x.IsZero() {
				s.c6("Inverse", z.Inverse(&a), x.Inv())
			}
		})
		if m != "" || !x.IsZero() {
			return m
		}
		return refuses(c, "the inverse of zero", func(s *sess) { a := bls.W6(s.e, x); pb.NewExt6(s.fp).Inverse(&a) })
	}
	c.Each("Fp6 unary", 64+64, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		if i < 64 {
			return unary6(mk6(i, 4, 0))
		}
		return unary6(mk6b(i-64, 3))
	})
	np := mc.Pick(c, 27, 64)
	pb6 := mc.Pick(c, 3, 4)
	c.Each("Fp6 pairs", np*np, func(i int) string { return fmt.Sprintf("%d , %d", i/np, i%np) }, func(i int) string {
		g := func(j, off int) F6 {
			if pb6 == 4 {
				return mk6(j, 4, off)
			}
			// {0, 1, generic}
			var x F6
			for k := range x {
				x[k] = []F2{zero2, one2, gen(off + k)}[j%3]
				j /= 3
			}
			return x
		}
		x, y := g(i/np, 0), g(i%np, 7)
		return with(c, func(s *sess) {
			z := pb.NewExt6(s.fp)
			a, b := bls.W6(s.e, x), bls.W6(s.e, y)
			s.c6("Mul", z.Mul(&a, &b), x.Mul(y))
			s.c6("Add", z.Add(&a, &b), x.Add(y))
			s.c6("Sub", z.Sub(&a, &b), x.Sub(y))
			s.c6("MulByE2", z.MulByE2(&a, &b.B0), x.Mul(F6{y[0], zero2, zero2}))
			s.c6("MulBy1", z.MulBy1(&a, &b.B1), x.Mul(F6{zero2, y[1], zero2}))
			s.c6("MulBy01", z.MulBy01(&a, &b.B0, &b.B1), x.Mul(F6{y[0], y[1], zero2}))
		})
	})
	run12(c)
	equalities(c)
	dishonest(c, l2)
	conformance(c)
}

// pat gives the Fp12 element whose k-th Fp2 coefficient is zero, one or
// generic by the k-th base-b digit (b=2: zero or generic).
func pat(i, b, off int) F12 {
	var x F12
	for k := 0; k < 6; k++ {
		d := i % b
		i /= b
		switch {
		case d == 0:
			x[k/3][k%3] = zero2
		case d == 1 && b == 3:
			x[k/3][k%3] = one2
		default:
			x[k/3][k%3] = gen(off + k)
		}
	}
	return x
}

func run12(c *mc.Ctx) {
	unary := func(x F12) string {
		m := with(c, func(s *sess) {
			z := pb.NewExt12(s.fp)
			a := bls.W12(s.e, x)
			s.c12("Conjugate", z.Conjugate(&a), x.Conj())
			s.c12("Square", z.Square(&a), x.Mul(x))
			s.c12("Frobenius", z.Frobenius(&a), x.Frob(1))
			s.c12("FrobeniusSquare", z.FrobeniusSquare(&a), x.Frob(2))
			s.c12("FrobeniusCube", z.FrobeniusCube(&a), x.Frob(3))
			s.c12("One", z.One(), bls.One12)
			if !x.IsZero() {
				s.c12("Inverse", z.Inverse(&a), x.Inv())
			}
		})
		if m != "" || !x.IsZero() {
			return m
		}
		return refuses(c, "the inverse of zero", func(s *sess) { a := bls.W12(s.e, x); pb.NewExt12(s.fp).Inverse(&a) })
	}
	n3 := 729
	nb := mc.Pick(c, 64, 4096)
	c.Each("Fp12 unary", n3+nb, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		if i < n3 {
			return unary(pat(i, 3, 0))
		}
		// base-field coefficients zero or not
		j := i - n3
		if nb == 64 {
			j = j * 65 // every pattern of the first six, repeated in the last six
		}
		x := pat(63, 2, 20)
		for k := 0; k < 12; k++ {
			if j>>k&1 == 0 {
				f := &x[k/6][k/2%3]
				if k%2 == 0 {
					f.A = new(big.Int)
				} else {
					f.B = new(big.Int)
				}
			}
		}
		return unary(x)
	})
	c.Each("Fp12 pairs", 64*64, func(i int) string { return fmt.Sprintf("%d , %d", i/64, i%64) }, func(i int) string {
		x, y := pat(i/64, 2, 0), pat(i%64, 2, 9)
		return with(c, func(s *sess) {
			z := pb.NewExt12(s.fp)
			a, b := bls.W12(s.e, x), bls.W12(s.e, y)
			s.c12("Mul", z.Mul(&a, &b), x.Mul(y))
		})
	})
	// sparse operands: (c0,0,0 ; c3,c4,0) and (c0,c1,0 ; 0,c4,0)
	sp034 := func(a, b, d F2) F12 { return F12{{a, zero2, zero2}, {b, d, zero2}} }
	sp014 := func(a, b, d F2) F12 { return F12{{a, b, zero2}, {zero2, d, zero2}} }
	tri := func(i, off int) [3]F2 {
		var r [3]F2
		for k := range r {
			r[k] = []F2{zero2, one2, gen(off + k)}[i%3]
			i /= 3
		}
		return r
	}
	c.Each("sparse times dense", 27*64, func(i int) string { return fmt.Sprintf("%d , %d", i/64, i%64) }, func(i int) string {
		t, x := tri(i/64, 30), pat(i%64, 2, 0)
		return with(c, func(s *sess) {
			z := pb.NewExt12(s.fp)
			pr, err := pb.NewPairing(s.api)
			if err != nil {
				s.bad = err.Error()
				return
			}
			a := bls.W12(s.e, x)
			f := func() (*E2, *E2, *E2) {
				p, q, r := bls.W2(s.e, t[0]), bls.W2(s.e, t[1]), bls.W2(s.e, t[2])
				return &p, &q, &r
			}
			p, q, r := f()
			s.c12("MulBy034", z.MulBy034(&a, p, q, r), x.Mul(sp034(t[0], t[1], t[2])))
			p, q, r = f()
			s.c12("MulBy014", pr.MulBy014(&a, p, q, r), x.Mul(sp014(t[0], t[1], t[2])))
		})
	})
	c.Each("sparse times sparse", 27*27, func(i int) string { return fmt.Sprintf("%d , %d", i/27, i%27) }, func(i int) string {
		t, u := tri(i/27, 30), tri(i%27, 40)
		return with(c, func(s *sess) {
			z := pb.NewExt12(s.fp)
			w := func(x F2) *E2 { r := bls.W2(s.e, x); return &r }
			s.c12("MulBy034by034", z.MulBy034by034(w(t[0]), w(t[1]), w(t[2]), w(u[0]), w(u[1]), w(u[2])), sp034(t[0], t[1], t[2]).Mul(sp034(u[0], u[1], u[2])))
			s.c12("Mul014By014", z.Mul014By014(w(t[0]), w(t[1]), w(t[2]), w(u[0]), w(u[1]), w(u[2])), sp014(t[0], t[1], t[2]).Mul(sp014(u[0], u[1], u[2])))
		})
	})
	// cyclotomic
	cy := cyc(c)
	c.Each("cyclotomic", len(cy), func(i int) string { return cy[i].String() }, func(i int) string {
		x := cy[i]
		if !x.InCyc() {
			return "harness: not a cyclotomic element"
		}
		return with(c, func(s *sess) {
			z := pb.NewExt12(s.fp)
			a := bls.W12(s.e, x)
			s.c12("CyclotomicSquare", z.CyclotomicSquare(&a), x.Mul(x))
			s.c12("DecompressKarabina", z.DecompressKarabina(comp(s, a)), x)
			b0 := comp(s, a)
			b, y := &b0, x
			for k := 1; k <= 3; k++ {
				b = z.CyclotomicSquareCompressed(b, b) // results must not be written over operands
				y = y.Mul(y)
				s.c12(fmt.Sprintf("CyclotomicSquareCompressed x%d", k), z.DecompressKarabina(*b), y)
			}
		})
	})
	ne := mc.Pick(c, 12, len(cy))
	c.Each("powers of the parameter", ne, func(i int) string { return cy[i].String() }, func(i int) string {
		x := cy[i]
		return with(c, func(s *sess) {
			z := pb.NewExt12(s.fp)
			a := bls.W12(s.e, x)
			s.c12("Expt", z.Expt(&a), x.Exp(bls.X).Conj())
			s.c12("ExptHalf", z.ExptHalf(&a), x.Exp(new(big.Int).Rsh(bls.X, 1)).Conj())
		})
	})
}

// comp forgets the two coordinates a compressed element does not carry.
func comp(s *sess, a E12) E12 {
	junk := bls.W2(s.e, gen(77))
	a.C0.B0, a.C1.B1 = junk, junk
	return a
}

func cyc(c *mc.Ctx) []F12 {
	r := []F12{bls.One12}
	r = append(r, bls.CycG3Zero(mc.Pick(c, 4, 12))...)
	for i := 1; i < 64; i += mc.Pick(c, 3, 1) {
		x := pat(i, 2, 5)
		if y := x.Cyc(); y.InCyc() {
			dup := false
			for _, z := range r {
				dup = dup || z.Eq(y)
			}
			if !dup {
				r = append(r, y)
			}
		}
	}
	for i, n := 0, len(r); i < n; i++ {
		if i%3 == 1 {
			r = append(r, r[i].Conj())
		}
	}
	return r
}

func equalities(c *mc.Ctx) {
	d := []*big.Int{big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 320), new(big.Int).Sub(bls.P, big.NewInt(1))}
	c.Each("equality", 13*len(d), func(i int) string { return fmt.Sprintf("coefficient %d by %v", i%13, d[i/13]) }, func(i int) string {
		x := pat(63, 2, 3)
		y := pat(63, 2, 3)
		k := i % 13
		if k < 12 {
			f := &y[k/6][k/2%3]
			if k%2 == 0 {
				f.A = new(big.Int).Mod(new(big.Int).Add(f.A, d[i/13]), bls.P)
			} else {
				f.B = new(big.Int).Mod(new(big.Int).Add(f.B, d[i/13]), bls.P)
			}
		}
		try := func(want bool, fn func(s *sess)) string {
			s := &sess{e: eng.New(bls.BN)}
			r := s.e.Run(func(api frontend.API) error {
				fp, err := emulated.NewField[pb.BLS12381Fp](api)
				if err != nil {
					return err
				}
				s.fp, s.api = fp, api
				fn(s)
				return nil
			})
			c.State(1)
			if r.Panic != "" {
				return r.String()
			}
			if r.OK != want {
				return fmt.Sprintf("equality gives %v", r)
			}
			return ""
		}
		if m := try(k == 12, func(s *sess) {
			a, b := bls.W12(s.e, x), bls.W12(s.e, y)
			pb.NewExt12(s.fp).AssertIsEqual(&a, &b)
		}); m != "" {
			return m
		}
		if m := try(k == 12 || k >= 6, func(s *sess) {
			a, b := bls.W12(s.e, x), bls.W12(s.e, y)
			pb.NewExt12(s.fp).AssertC0IsEqual(&a, &b)
		}); m != "" {
			return m
		}
		if m := try(k == 12 || k >= 6, func(s *sess) {
			a, b := bls.W6(s.e, x[0]), bls.W6(s.e, y[0])
			pb.NewExt6(s.fp).AssertIsEqual(&a, &b)
		}); m != "" {
			return m
		}
		return try(k == 12 || k >= 2, func(s *sess) {
			a, b := bls.W2(s.e, x[0][0]), bls.W2(s.e, y[0][0])
			pb.NewExt2(s.fp).AssertIsEqual(&a, &b)
		})
	})
}

// dishonest: no single deviation of a hint answer makes a wrong value pass.
func dishonest(c *mc.Ctx, l2 []F2) {
	small := []F12{bls.One12, pat(63, 2, 1)}
	small = append(small, bls.CycG3Zero(1)[0], pat(63, 2, 1).Cyc())
	type adv struct {
		n string
		x F12
		f func(s *sess, x F12)
	}
	var l []adv
	k := mc.Pick(c, 1, 3)
	for _, x := range small {
		l = append(l, adv{"Div", x, func(s *sess, x F12) {
			a, b := bls.W2(s.e, x[0][0]), bls.W2(s.e, gen(4))
			s.c2("Div", pb.NewExt2(s.fp).Div(&a, &b), x[0][0].Mul(gen(4).Inv()))
		}}, adv{"Halve", x, func(s *sess, x F12) {
			a := bls.W2(s.e, x[0][0])
			s.c2("Halve", pb.NewExt2(s.fp).Halve(&a), x[0][0].S(new(big.Int).ModInverse(big.NewInt(2), bls.P)))
		}}, adv{"Mul", x, func(s *sess, x F12) {
			a := bls.W6(s.e, x[0])
			s.c6("Mul", pb.NewExt6(s.fp).Mul(&a, &a), x[0].Mul(x[0]))
		}}, adv{"Inverse", x, func(s *sess, x F12) {
			a := bls.W6(s.e, x[0])
			s.c6("Inverse", pb.NewExt6(s.fp).Inverse(&a), x[0].Inv())
		}})
		if x.InCyc() {
			l = append(l, adv{"DecompressKarabina", x, func(s *sess, x F12) {
				a := bls.W12(s.e, x)
				s.c12("Decompress", pb.NewExt12(s.fp).DecompressKarabina(comp(s, a)), x)
			}})
		}
		if k > 1 {
			l = append(l, adv{"Inverse12", x, func(s *sess, x F12) {
				a := bls.W12(s.e, x)
				s.c12("Inverse", pb.NewExt12(s.fp).Inverse(&a), x.Inv())
			}})
		}
	}
	c.Each("dishonest provers", len(l), func(i int) string { return l[i].n + " " + l[i].x.String() }, func(i int) string {
		path := &eng.Path{MaxDev: 1}
		for {
			s := &sess{e: eng.New(bls.BN)}
			s.e.Ch, s.e.Alt = path, bls.Deviations(3)
			r := s.e.Run(func(api frontend.API) error {
				fp, err := emulated.NewField[pb.BLS12381Fp](api)
				if err != nil {
					return err
				}
				s.fp, s.api = fp, api
				l[i].f(s, l[i].x)
				return nil
			})
			c.State(1)
			c.Trans(int(s.e.Ops))
			if r.Panic != "" {
				return r.String()
			}
			if r.OK && s.bad != "" {
				return fmt.Sprintf("a wrong result passes with hint answers %v: %s", path.Choices(), s.bad)
			}
			if !path.Next() {
				return ""
			}
		}
	})
}

// conformance: the compiled constraint systems accept the same values.
func conformance(c *mc.Ctx) {
	x, y := pat(63, 2, 1), pat(45, 2, 8)
	cy := append([]F12{bls.One12}, x.Cyc())
	cy = append(cy, bls.CycG3Zero(1)...)
	type q struct {
		n    string
		f    func(fp *Fd, a, b *E12) *E12
		a, b F12
		w    F12
	}
	l := []q{
		{"Mul", func(fp *Fd, a, b *E12) *E12 { return pb.NewExt12(fp).Mul(a, b) }, x, y, x.Mul(y)},
		{"Inverse", func(fp *Fd, a, b *E12) *E12 { return pb.NewExt12(fp).Inverse(a) }, x, y, x.Inv()},
		{"FrobeniusCube", func(fp *Fd, a, b *E12) *E12 { return pb.NewExt12(fp).FrobeniusCube(a) }, x, y, x.Frob(3)},
	}
	for _, z := range cy {
		l = append(l, q{"Decompress", func(fp *Fd, a, b *E12) *E12 { return pb.NewExt12(fp).DecompressKarabina(*a) }, z, z, z})
	}
	flat := func(x F12) (r []*big.Int) {
		for k := 0; k < 6; k++ {
			f := x[k/3][k%3]
			for _, v := range []*big.Int{f.A, f.B} {
				for _, l := range bls.Limbs(v) {
					r = append(r, l.(*big.Int))
				}
			}
		}
		return
	}
	c.Each("compiled circuits", len(l), func(i int) string { return fmt.Sprintf("%s %d", l[i].n, i) }, func(i int) string {
		g := gk.New(bls.BN, 216, 1, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			fp, err := emulated.NewField[pb.BLS12381Fp](api)
			if err != nil {
				panic(err)
			}
			rd := func(v []frontend.Variable) *E12 {
				k := 0
				el := func() bls.El { k += 6; return bls.El{Limbs: v[k-6 : k]} }
				e2 := func() E2 { return E2{A0: el(), A1: el()} }
				e6 := func() E6 { return E6{B0: e2(), B1: e2(), B2: e2()} }
				return &E12{C0: e6(), C1: e6()}
			}
			z := l[i].f(fp, rd(in[:72]), rd(in[72:144]))
			pb.NewExt12(fp).AssertIsEqual(z, rd(in[144:]))
			return []frontend.Variable{1}
		})
		in := append(flat(l[i].a), flat(l[i].b)...)
		if m := g.Agree(append(append([]*big.Int{}, in...), flat(l[i].w)...), []*big.Int{big.NewInt(1)}, true, 0, 2); m != "" {
			return m
		}
		c.Trace(2)
		w := flat(l[i].w)
		w[5] = new(big.Int).Add(w[5], big.NewInt(1))
		return g.Agree(append(append([]*big.Int{}, in...), w...), []*big.Int{big.NewInt(1)}, false, 0, 2)
	})
}
