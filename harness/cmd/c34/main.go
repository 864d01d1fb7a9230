// C34: in-circuit BLS12-381 G2 operations against the chord-and-tangent law.
package main

import (
	"fmt"
	"math/big"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/consensys/gnark/frontend"

	"verif/harness/bls"
	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type (
	Pt = bls.Pt
	F2 = bls.F2
	S  = bls.Sess
)

func main() {
	mc.Main(mc.Meta{Prop: "C34",
		Rule:        "Jacobian operations: all pairs of the order-13 subgroup (hence every operand relation: equal, opposite, either infinite, sums and doubles that vanish) and all pairs of a list of points of other orders (infinity, small and large order, inside and outside the prime-order subgroup, related by doubling, negation and sharing an x), in several coordinate representations; affine operations over all pairs of the list, where the exceptional pairs must be refused rather than answered; scalar multiplications and cofactor clearing over the list; zero, one and equality tests over all pairs of boundary coefficients in all representations; every single deviation of a hint answer (outputs plus one, result plus the modulus) on each operand relation",
		Assumptions: []string{"affine additions do not take the point at infinity as an operand (incomplete formulas)"},
	}, run)
}

func run(c *mc.Ctx) {
	// self-checks of the reference
	c.One("reference", "", func() string {
		g := bls.Near(5)
		if !g.Mul(new(big.Int).Mul(bls.H2, bls.R)).Inf || !bls.Gen.Mul(bls.R).Inf {
			return "harness: orders"
		}
		if !bls.Gen.Psi().Eq(bls.Gen.Mul(bls.X).Neg()) {
			return "harness: psi"
		}
		// RFC 9380, appendix G.4: the effective cofactor through psi
		x := new(big.Int).Neg(bls.X)
		x2 := new(big.Int).Mul(x, x)
		a := g.Mul(x2.Sub(x2, x).Sub(x2, big.NewInt(1)))
		b := g.Mul(new(big.Int).Sub(x, big.NewInt(1))).Psi()
		if !g.Mul(bls.HEff).Eq(a.Add(b).Add(g.Add(g).Psi().Psi())) {
			return "harness: effective cofactor"
		}
		return ""
	})
	t13, t23 := bls.OfOrder(13), bls.OfOrder(23)
	jacobian(c, t13)
	pts := []Pt{bls.O, bls.Gen, bls.Gen.Neg(), bls.Gen.Add(bls.Gen), bls.Near(5), bls.Near(5).Neg(), bls.Near(5).Add(bls.Near(5)), t13, t23.Neg(), bls.Gen.Add(t13), bls.Near(5).Add(t23)}
	w := bls.Gen
	w.X = bls.Gen.X.S(third) // the same y, another x
	pts = append(pts, w)
	if c.Thorough() {
		for i := int64(20); i < 30; i++ {
			pts = append(pts, bls.Near(i), bls.Gen.Mul(big.NewInt(i*i*i)))
		}
		pts = append(pts, bls.OfOrder(2713), t13.Add(t23), bls.Near(5).Mul(bls.R), bls.Gen.Mul(bls.Lambda))
	}
	for _, p := range pts {
		if !p.On() {
			panic("harness: point")
		}
	}
	n := len(pts)
	key := func(i int) string { return fmt.Sprintf("%v , %v", pts[i/n], pts[i%n]) }
	c.Each("Jacobian pairs", n*n, key, func(i int) string {
		p, q := pts[i/n], pts[i%n]
		for k := 0; k < 2; k++ {
			if m := jacPair(c, p, q, (i+k)%bls.NJac, (i/bls.NJac+2*k)%bls.NJac); m != "" {
				return m
			}
		}
		return ""
	})
	c.Each("affine pairs", n*n, key, func(i int) string {
		p, q := pts[i/n], pts[i%n]
		if p.Inf || q.Inf {
			return ""
		}
		return affPair(c, p, q)
	})
	c.Each("unary", n*bls.NJac, func(i int) string { return fmt.Sprintf("%v (%d)", pts[i/bls.NJac], i%bls.NJac) }, func(i int) string {
		return unary(c, pts[i/bls.NJac], i%bls.NJac)
	})
	scalar(c, pts, t13, t23)
	predicates(c)
	dishonest(c, t13)
	conformance(c)
}

// third is the cube root of one the code multiplies by in Phi.
var third, _ = new(big.Int).SetString("793479390729215512621379701633421447060886740281060493010456487427281649075476305620758731620350", 10)

func jacPair(c *mc.Ctx, p, q Pt, kp, kq int) string {
	if m := bls.With(c, func(s *S) {
		s.CJac("G2JacobianAddAssign", pb.G2JacobianAddAssign(s.Api, s.Jac(p, kp), s.Jac(q, kq)), p.Add(q))
	}); m != "" {
		return m
	}
	return bls.With(c, func(s *S) {
		s.CJac("G2JacobianSubAssign", pb.G2JacobianSubAssign(s.Api, s.Jac(p, kp), s.Jac(q, kq)), p.Sub(q))
	})
}

func jacobian(c *mc.Ctx, t Pt) {
	var mul [13]Pt
	mul[0] = bls.O
	for i := 1; i < 13; i++ {
		mul[i] = mul[i-1].Add(t)
	}
	reps := [][2]int{{0, 0}, {1, 3}, {2, 1}}
	if c.Thorough() {
		reps = nil
		for i := 0; i < bls.NJac; i++ {
			for j := 0; j < bls.NJac; j++ {
				reps = append(reps, [2]int{i, j})
			}
		}
	}
	n := len(reps)
	c.Each("order 13, all pairs", 169*n, func(i int) string {
		return fmt.Sprintf("[%d]T , [%d]T in %v", i/n/13, i/n%13, reps[i%n])
	}, func(i int) string {
		return jacPair(c, mul[i/n/13], mul[i/n%13], reps[i%n][0], reps[i%n][1])
	})
	c.Each("order 13, affine pairs", 144, func(i int) string { return fmt.Sprintf("[%d]T , [%d]T", i/12+1, i%12+1) }, func(i int) string {
		return affPair(c, mul[i/12+1], mul[i%12+1])
	})
}

func affPair(c *mc.Ctx, p, q Pt) string {
	do := func(ok bool, n string, want Pt, f func(s *S) *pb.G2Affine) string {
		g := func(s *S) { s.CAff(n, f(s), want) }
		if ok {
			return bls.With(c, g)
		}
		s, r := bls.Run(c, nil, nil, g)
		if r.Panic != "" {
			return r.String()
		}
		if r.OK {
			return fmt.Sprintf("%s answers an exceptional pair: %s", n, s.Bad)
		}
		return ""
	}
	rp, rq := 0, 0
	if p.Y.A.Bit(0) == 1 {
		rp, rq = 1, 3
	}
	diff := !p.X.Eq(q.X)
	if m := do(diff, "G2AddAssign", p.Add(q), func(s *S) *pb.G2Affine { return pb.G2AddAssign(s.Api, s.Aff(p, rp), s.Aff(q, rq)) }); m != "" {
		return m
	}
	if m := do(diff, "G2SubAssign", p.Sub(q), func(s *S) *pb.G2Affine { return pb.G2SubAssign(s.Api, s.Aff(p, rq), s.Aff(q, rp)) }); m != "" {
		return m
	}
	ok := diff && !p.Add(q).X.Eq(p.X)
	return do(ok, "DoubleAndAdd", p.Add(p).Add(q), func(s *S) *pb.G2Affine {
		a, b := s.Aff(p, rp), s.Aff(q, rq)
		return pb.DoubleAndAdd(s.Api, &a, &b)
	})
}

func unary(c *mc.Ctx, p Pt, k int) string {
	phi := p
	if !p.Inf {
		phi.X = p.X.S(third)
	}
	if m := bls.With(c, func(s *S) {
		s.CJac("G2JacobianNeg", pb.G2JacobianNeg(s.Api, s.Jac(p, k)), p.Neg())
		s.CJac("G2JacobianDouble", pb.G2JacobianDouble(s.Api, s.Jac(p, k)), p.Add(p))
		s.CJac("G2JacobianDouble twice", pb.G2JacobianDouble(s.Api, pb.G2JacobianDouble(s.Api, s.Jac(p, k))), p.Mul(big.NewInt(4)))
		s.CJac("G2JacobianPsi", pb.G2JacobianPsi(s.Api, s.Jac(p, k)), p.Psi())
		s.CJac("G2JacobianPhi", pb.G2JacobianPhi(s.Api, s.Jac(p, k)), phi)
		j := s.Jac(p, k)
		s.CAff("GetG2AffineFromG2Jac", pb.GetG2AffineFromG2Jac(s.Api, &j), p)
		d := pb.G2JacobianDouble(s.Api, j)
		s.CAff("GetG2AffineFromG2Jac of a double", pb.GetG2AffineFromG2Jac(s.Api, &d), p.Add(p))
		a := s.Aff(p, k)
		s.CJac("GetG2JacFromG2Affine", *pb.GetG2JacFromG2Affine(s.Api, &a), p)
		a2 := s.Aff(p, k)
		s.Bit("G2AffineNotInfinity", pb.G2AffineNotInfinity(s.Api, &a2), !p.Inf)
		s.CAff("G2Psi", pb.G2Psi(s.Api, s.Aff(p, k)), p.Psi())
		f := pb.G2Phi(s.Api, s.Aff(p, k))
		s.CAff("G2Phi", &f, phi)
		if !p.Inf {
			s.CAff("G2Neg", pb.G2Neg(s.Api, s.Aff(p, k)), p.Neg())
			s.CAff("G2Double", pb.G2Double(s.Api, s.Aff(p, k)), p.Add(p))
		}
	}); m != "" {
		return m
	}
	// on the subgroup Phi is the multiplication by the eigenvalue
	if !p.Inf && p.Mul(bls.R).Inf && !phi.Eq(p.Mul(bls.Lambda)) {
		return "harness: third root"
	}
	return ""
}

func scalar(c *mc.Ctx, pts []Pt, t13, t23 Pt) {
	l := append([]Pt{}, pts...)
	for i := int64(2); i <= mc.Pick[int64](c, 4, 12); i++ {
		l = append(l, t13.Mul(big.NewInt(i)))
	}
	for i := int64(1); i <= mc.Pick[int64](c, 3, 22); i++ {
		l = append(l, t23.Mul(big.NewInt(i)))
	}
	gen := func(p Pt) bool { // of large order
		return !p.Mul(big.NewInt(13 * 13 * 23 * 23)).Inf
	}
	c.Each("multiplication by the parameter", len(l), func(i int) string { return fmt.Sprintf("%d %v", i, l[i]) }, func(i int) string {
		p := l[i]
		want := p.Mul(bls.X)
		if m := bls.With(c, func(s *S) {
			s.CJac("G2JacobianConstScalarMul", pb.G2JacobianConstScalarMul(s.Api, s.Jac(p, i%bls.NJac)), want)
		}); m != "" || p.Inf {
			return m
		}
		how := bls.Never
		if gen(p) {
			how = bls.With
		}
		if m := how(c, func(s *S) {
			r := pb.G2ConstScalarMulV2(s.Api, s.Aff(p, i%2))
			s.CAff("G2ConstScalarMulV2", &r, want)
		}); m != "" {
			return "G2ConstScalarMulV2: " + m
		}
		if m := how(c, func(s *S) { s.CAff("G2ConstScalarMul", pb.G2ConstScalarMul(s.Api, s.Aff(p, 0)), want) }); m != "" {
			return "G2ConstScalarMul: " + m
		}
		return ""
	})
	k := mc.Pick(c, 12, len(l))
	if k > len(l) {
		k = len(l)
	}
	c.Each("cofactor clearing", k, func(i int) string { return fmt.Sprintf("%d %v", i, l[i]) }, func(i int) string {
		p := l[i]
		want := p.Mul(bls.HEff)
		if m := bls.With(c, func(s *S) {
			s.CJac("ClearCofactor", *pb.ClearCofactor(s.Api, s.Jac(p, i%bls.NJac)), want)
		}); m != "" || p.Inf {
			return m
		}
		how := bls.Never
		if gen(p) && !p.Mul(bls.R).Inf {
			how = bls.With
		}
		return how(c, func(s *S) { s.CAff("G2ClearCofactor", pb.G2ClearCofactor(s.Api, s.Aff(p, 0)), want) })
	})
}

func predicates(c *mc.Ctx) {
	half := new(big.Int).Rsh(bls.P, 1)
	vals := []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Sub(bls.P, big.NewInt(1)), half,
		new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 320), new(big.Int).Lsh(big.NewInt(1), 380)}
	n := len(vals)
	R := bls.NRep
	c.Each("zero and one", n*n*R, func(i int) string {
		return fmt.Sprintf("%v %v (%d)", vals[i/R/n], vals[i/R%n], i%R)
	}, func(i int) string {
		x := F2{A: vals[i/R/n], B: vals[i/R%n]}
		how := bls.With
		if i%R == 4 { // an unreduced element may be refused, not misjudged
			how = bls.Never
		}
		return how(c, func(s *S) {
			s.Bit("E2NotZero", pb.E2NotZero(s.Api, s.Rep2(x, i%R)), !x.IsZero())
			s.Bit("E2NotOne", pb.E2NotOne(s.Api, s.Rep2(x, i%R)), !x.Eq(bls.N2(1, 0)))
			s.Bit("G1NotZero", pb.G1NotZero(s.Api, s.Rep(x.A, i%R)), x.A.Sign() != 0)
			s.Bit("G1NotEqualOne", pb.G1NotEqualOne(s.Api, s.Rep(x.A, i%R)), x.A.Cmp(big.NewInt(1)) != 0)
		})
	})
	RR := R * R
	c.Each("equality", n*n*RR, func(i int) string {
		return fmt.Sprintf("%v (%d) %v (%d)", vals[i/RR/n], i%RR/R, vals[i/RR%n], i%R)
	}, func(i int) string {
		a, b := vals[i/RR/n], vals[i/RR%n]
		ra, rb := i%RR/R, i%R
		how := bls.With
		if ra == 4 || rb == 4 {
			how = bls.Never
		}
		return how(c, func(s *S) {
			s.Bit("G1NotEqual", pb.G1NotEqual(s.Api, s.Rep(a, ra), s.Rep(b, rb)), a.Cmp(b) != 0)
			x, y := F2{A: vals[1], B: a}, F2{A: vals[1], B: b}
			s.Bit("E2NotEqual B", pb.E2NotEqual(s.Api, s.Rep2(x, ra), s.Rep2(y, rb)), a.Cmp(b) != 0)
			x, y = F2{A: a, B: vals[2]}, F2{A: b, B: vals[2]}
			s.Bit("E2NotEqual A", pb.E2NotEqual(s.Api, s.Rep2(x, ra), s.Rep2(y, rb)), a.Cmp(b) != 0)
		})
	})
}

func dishonest(c *mc.Ctx, t Pt) {
	g := bls.Gen
	pairs := []struct {
		n    string
		p, q Pt
	}{{"generic", g, t}, {"equal", t, t}, {"opposite", t, t.Neg()}, {"first infinite", bls.O, g}, {"second infinite", t, bls.O}, {"both infinite", bls.O, bls.O}}
	type adv struct {
		n string
		f func(s *S)
	}
	var l []adv
	for _, x := range pairs {
		p, q := x.p, x.q
		l = append(l, adv{"add " + x.n, func(s *S) {
			s.CJac("add", pb.G2JacobianAddAssign(s.Api, s.Jac(p, 1), s.Jac(q, 0)), p.Add(q))
		}})
		if !p.Inf && !q.Inf {
			l = append(l, adv{"affine add " + x.n, func(s *S) {
				s.CAff("add", pb.G2AddAssign(s.Api, s.Aff(p, 0), s.Aff(q, 0)), p.Add(q))
			}}, adv{"double and add " + x.n, func(s *S) {
				a, b := s.Aff(p, 0), s.Aff(q, 0)
				s.CAff("double and add", pb.DoubleAndAdd(s.Api, &a, &b), p.Add(p).Add(q))
			}})
		}
	}
	for _, p := range []Pt{bls.O, g, t} {
		l = append(l, adv{"double " + p.String(), func(s *S) {
			s.CJac("double", pb.G2JacobianDouble(s.Api, s.Jac(p, 1)), p.Add(p))
		}}, adv{"to affine " + p.String(), func(s *S) {
			j := s.Jac(p, 1)
			s.CAff("to affine", pb.GetG2AffineFromG2Jac(s.Api, &j), p)
		}}, adv{"from affine " + p.String(), func(s *S) {
			a := s.Aff(p, 1)
			s.CJac("from affine", *pb.GetG2JacFromG2Affine(s.Api, &a), p)
		}}, adv{"psi " + p.String(), func(s *S) {
			s.CJac("psi", pb.G2JacobianPsi(s.Api, s.Jac(p, 1)), p.Psi())
		}})
	}
	for _, x := range []F2{bls.N2(0, 0), bls.N2(1, 0), bls.N2(0, 1), bls.N2(2, 0)} {
		l = append(l, adv{"predicates " + x.String(), func(s *S) {
			s.Bit("E2NotZero", pb.E2NotZero(s.Api, s.Rep2(x, 1)), !x.IsZero())
			s.Bit("E2NotOne", pb.E2NotOne(s.Api, s.Rep2(x, 2)), !x.Eq(bls.N2(1, 0)))
			s.Bit("E2NotEqual", pb.E2NotEqual(s.Api, s.Rep2(x, 1), s.Rep2(x, 2)), false)
		}})
	}
	c.Each("dishonest provers", len(l), func(i int) string { return l[i].n }, func(i int) string {
		return bls.Adversary(c, 3, l[i].f)
	})
}

func conformance(c *mc.Ctx) {
	t := bls.OfOrder(13)
	type q struct{ p, q, r Pt }
	l := []q{{bls.Gen, t, bls.Gen.Add(t)}, {t, t, t.Add(t)}, {t, t.Neg(), bls.O}, {bls.O, t, t}, {bls.Gen, t, bls.Gen}}
	flat := func(p Pt) (r []*big.Int) {
		x, y := p.X, p.Y
		if p.Inf {
			x, y = bls.N2(0, 0), bls.N2(0, 0)
		}
		for _, v := range []*big.Int{x.A, x.B, y.A, y.B} {
			for _, k := range bls.Limbs(v) {
				r = append(r, k.(*big.Int))
			}
		}
		return
	}
	c.Each("compiled circuits", len(l), func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		g := gk.New(bls.BN, 72, 1, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			rd := func(v []frontend.Variable) *pb.G2Affine {
				e := func(k int) bls.El { return bls.El{Limbs: v[6*k : 6*k+6]} }
				return &pb.G2Affine{X: pb.E2{A0: e(0), A1: e(1)}, Y: pb.E2{A0: e(2), A1: e(3)}}
			}
			s := pb.G2JacobianAddAssign(api, *pb.GetG2JacFromG2Affine(api, rd(in[:24])), *pb.GetG2JacFromG2Affine(api, rd(in[24:48])))
			a, w := pb.GetG2AffineFromG2Jac(api, &s), rd(in[48:])
			return []frontend.Variable{api.Or(pb.E2NotEqual(api, a.X, w.X), pb.E2NotEqual(api, a.Y, w.Y))}
		})
		in := append(append(flat(l[i].p), flat(l[i].q)...), flat(l[i].r)...)
		want := int64(0)
		if !l[i].p.Add(l[i].q).Eq(l[i].r) {
			want = 1
		}
		c.Trace(2)
		if m := g.Agree(in, []*big.Int{big.NewInt(want)}, true, 0, 2); m != "" {
			return m
		}
		return g.Agree(in, []*big.Int{big.NewInt(1 - want)}, false, 0, 2)
	})
	var _ eng.Result
}
