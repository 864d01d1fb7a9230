// C36: the in-circuit BLS12-381 pairing against the definition by lines.
package main

import (
	"fmt"
	"math/big"
	"sort"
	"sync"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	bc "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark/frontend"

	"verif/harness/bls"
	"verif/harness/gk"
	"verif/harness/mc"
)

type (
	F2  = bls.F2
	F12 = bls.F12
	Pt  = bls.Pt
	P1  = bls.P1
	S   = bls.Sess
)

func main() {
	mc.Main(mc.Meta{Prop: "C36",
		Rule:        "Miller loop, final exponentiation and pairing: every list of length one, two and three from small sets of generator multiples (equal, opposite, cancelling, repeated, infinite in G1) in several representations of the coordinates, against the product of the lines by definition and against gnark-crypto; bilinearity over all exponent pairs; list lengths that do not match; final exponentiation over elements of every sparsity, subfields, cyclotomic and r-torsion elements and zero; doubling and addition steps over all points of the order-13 subgroup and over a list of points in several projective representations; sparse products over all zero patterns; every single deviation of a hint answer in a step or sparse product",
		Assumptions: []string{"points of G2 are finite and of order r (the code documents that it does not filter the point at infinity; such input is refused or one, never another value)"},
	}, run)
}

func run(c *mc.Ctx) {
	c.One("reference", "", func() string {
		p, q := []P1{bls.G1At(3), bls.G1At(-7)}, []Pt{bls.G2At(5), bls.G2At(11)}
		w := bls.Pairing(p, q)
		g, _ := bc.Pair([]bc.G1Affine{bls.ToG1(p[0]), bls.ToG1(p[1])}, []bc.G2Affine{bls.ToG2(q[0]), bls.ToG2(q[1])})
		if !bls.FromE12(g).Eq(w) || !w.Eq(et(15-77)) || !w.Exp(bls.R).Eq(et(0)) || w.Eq(et(0)) {
			return "harness: pairing"
		}
		return ""
	})
	steps(c)
	sparse(c)
	lists(c)
	miller(c)
	finalExp(c)
	pair(c)
	sequences(c)
	dishonest(c)
	conformance(c)
}

// et is e(G1, G2)^k.
func et(k int64) F12 {
	eta.Do(func() { eta1 = bls.Pairing([]P1{bls.G1At(1)}, []Pt{bls.G2At(1)}) })
	return eta1.Exp(new(big.Int).Mod(big.NewInt(k), bls.R))
}

var (
	eta  sync.Once
	eta1 F12
)

// --- steps

// proj gives (xz, yz, z) in one of four ways.
func proj(s *S, p Pt, k int) *pb.G2Projective {
	z := []F2{bls.N2(1, 0), bls.N2(3, 7), bls.N2(-1, 0), bls.N2(0, 5)}[k]
	rep := []int{0, 1, 3, 2}[k]
	return &pb.G2Projective{X: s.Rep2(p.X.Mul(z), rep), Y: s.Rep2(p.Y.Mul(z), rep), Z: s.Rep2(z, rep)}
}
func unproj(s *S, q *pb.G2Projective) Pt {
	z := bls.G2(s.E, q.Z)
	if z.IsZero() {
		return bls.O
	}
	i := z.Inv()
	return Pt{X: bls.G2(s.E, q.X).Mul(i), Y: bls.G2(s.E, q.Y).Mul(i)}
}
func cproj(s *S, n string, q *pb.G2Projective, want Pt) {
	if s.Bad == "" {
		if g := unproj(s, q); !g.Eq(want) {
			s.Bad = fmt.Sprintf("%s: got %v want %v", n, g, want)
		}
	}
}

func pr(s *S) *pb.Pairing {
	p, err := pb.NewPairing(s.Api)
	if err != nil {
		panic(err)
	}
	return p
}

func stepPair(c *mc.Ctx, p, q Pt, k, ra int) string {
	return bls.With(c, func(s *S) {
		g := pr(s)
		d, l := g.DoubleStep(proj(s, p, k))
		cproj(s, "DoubleStep", d, p.Add(p))
		a := s.Aff(q, ra)
		b := s.Aff(q, ra)
		cproj(s, "AffineToProjective", g.AffineToProjective(&b), q)
		s.CAff("NegAffine", g.NegAffine(&b), q.Neg())
		if l == nil && s.Bad == "" {
			s.Bad = "no line"
		}
		if p.X.Eq(q.X) { // not a chord
			return
		}
		r, _ := g.AddStep(proj(s, p, k), &a)
		cproj(s, "AddStep", r, p.Add(q))
		// the operands may be used again
		r2, _ := g.AddStep(d, &a)
		if dp := p.Add(p); !dp.Inf && !dp.X.Eq(q.X) {
			cproj(s, "AddStep of DoubleStep", r2, dp.Add(q))
		}
		cproj(s, "DoubleStep result", d, p.Add(p))
	})
}

func steps(c *mc.Ctx) {
	t := bls.OfOrder(13)
	m := []Pt{t}
	for i := 2; i < 13; i++ {
		m = append(m, m[len(m)-1].Add(t))
	}
	c.Each("steps, order 13", 144, func(i int) string { return fmt.Sprintf("[%d]T , [%d]T", i/12+1, i%12+1) }, func(i int) string {
		return stepPair(c, m[i/12], m[i%12], i%4, i/4%bls.NRep%4)
	})
	l := []Pt{bls.Gen, bls.Gen.Neg(), bls.Gen.Add(bls.Gen), bls.G2At(3), bls.G2At(-5), bls.Near(5), t}
	n := mc.Pick(c, 4, 16)
	c.Each("steps, other points", len(l)*len(l)*n, func(i int) string {
		return fmt.Sprintf("%v , %v (%d)", l[i/n/len(l)], l[i/n%len(l)], i%n)
	}, func(i int) string {
		return stepPair(c, l[i/n/len(l)], l[i/n%len(l)], i%n%4, (i%n/4+i%n)%4)
	})
}

// --- sparse products

func sp(a, b, d F2) F12 {
	z := bls.N2(0, 0)
	return F12{{a, b, z}, {z, d, z}}
}

func sparse(c *mc.Ctx) {
	v := []F2{bls.N2(0, 0), bls.N2(1, 0), bls.N2(-3, 5), bls.N2(0, -1)}
	full := F12{{bls.N2(2, 3), bls.N2(5, 7), bls.N2(11, -13)}, {bls.N2(17, 19), bls.N2(-23, 29), bls.N2(31, 37)}}
	n := len(v)
	at := func(i int) (a, b, d F2) { return v[i/n/n], v[i/n%n], v[i%n] }
	n3 := n * n * n
	k2 := mc.Pick(c, 8, n3) // second operands
	c.Each("sparse by sparse", n3*k2, func(i int) string { return fmt.Sprintf("%d %d", i/k2, i%k2) }, func(i int) string {
		a0, a1, a4 := at(i / k2)
		b0, b1, b4 := at(i % k2 * (n3 - 1) / (k2 - 1))
		return bls.With(c, func(s *S) {
			w := func(x F2, k int) *pb.E2 { r := s.Rep2(x, (k+i)%4); return &r }
			g := pr(s).Mul014By014(w(a0, 0), w(a1, 1), w(a4, 2), w(b0, 1), w(b1, 2), w(b4, 3))
			s.C12("Mul014By014", g, sp(a0, a1, a4).Mul(sp(b0, b1, b4)))
		})
	})
	c.Each("general by sparse", n3*64, func(i int) string { return fmt.Sprintf("%06b %d", i/n3, i%n3) }, func(i int) string {
		a0, a1, a4 := at(i % n3)
		x := full
		for b := 0; b < 6; b++ {
			if i/n3>>b&1 == 0 {
				x[b/3][b%3] = bls.N2(0, 0)
			}
		}
		if !c.Thorough() && i%n3%3 != i/n3%3 {
			return ""
		}
		return bls.With(c, func(s *S) {
			w := func(x F2, k int) *pb.E2 { r := s.Rep2(x, (k+i)%4); return &r }
			z := bls.W12(s.E, x)
			g := pr(s).MulBy014(&z, w(a0, 0), w(a1, 1), w(a4, 2))
			s.C12("MulBy014", g, x.Mul(sp(a0, a1, a4)))
			s.C12("operand of MulBy014", &z, x)
		})
	})
}

// --- lists

func g1(s *S, p P1, rep int) *pb.G1Affine {
	return &pb.G1Affine{X: s.Rep(p.X, rep), Y: s.Rep(p.Y, rep)}
}
func g2(s *S, p Pt, rep int) *pb.G2Affine { r := s.Aff(p, rep); return &r }

func lists(c *mc.Ctx) {
	c.Each("list lengths", 16, func(i int) string { return fmt.Sprintf("%d and %d", i/4, i%4) }, func(i int) string {
		np, nq := i/4, i%4
		if np == nq && np > 0 {
			return "" // in the other spaces
		}
		return bls.With(c, func(s *S) {
			var p []*pb.G1Affine
			var q []*pb.G2Affine
			for k := 0; k < np; k++ {
				p = append(p, g1(s, bls.G1At(int64(k+1)), 0))
			}
			for k := 0; k < nq; k++ {
				q = append(q, g2(s, bls.G2At(int64(k+1)), 0))
			}
			if r, err := pr(s).MillerLoop(p, q); err == nil || r != nil {
				s.Bad = "MillerLoop accepts them"
			}
			if r, err := pr(s).Pair(p, q); err == nil || r != nil {
				s.Bad = "Pair accepts them"
			}
		})
	})
}

// a list of pairs [a_i]G1, [b_i]G2
type lst [][2]int64

func (l lst) pts() (p []P1, q []Pt) {
	for _, x := range l {
		p = append(p, bls.G1At(x[0]))
		q = append(q, bls.G2At(x[1]))
	}
	return
}
func (l lst) exp() (k int64) {
	for _, x := range l {
		k += x[0] * x[1]
	}
	return
}

// ml runs the Miller loop; the value is gnark-crypto's, or else one that the
// final exponentiation takes to the pairing.
func (l lst) miller(c *mc.Ctx, rep int) string {
	p, q := l.pts()
	var gp []bc.G1Affine
	var gq []bc.G2Affine
	for k := range p {
		gp, gq = append(gp, bls.ToG1(p[k])), append(gq, bls.ToG2(q[k]))
	}
	m, err := bc.MillerLoop(gp, gq)
	if err != nil {
		return "harness: " + err.Error()
	}
	return bls.With(c, func(s *S) {
		l.run(s, rep, func(r *pb.GTEl) {
			v := bls.G12(s.E, *r)
			if !v.Eq(bls.FromE12(m)) && !v.FinalExp().Eq(bls.Pairing(p, q)) {
				s.Bad = fmt.Sprintf("MillerLoop: got %v", v)
			}
		})
	})
}
func (l lst) run(s *S, rep int, f func(r *pb.GTEl)) {
	p, q := l.pts()
	var cp []*pb.G1Affine
	var cq []*pb.G2Affine
	for k := range p {
		cp, cq = append(cp, g1(s, p[k], (rep+k)%4)), append(cq, g2(s, q[k], (rep+2*k)%4))
	}
	r, err := pr(s).MillerLoop(cp, cq)
	if err != nil {
		s.Bad = "refused: " + err.Error()
		return
	}
	f(r)
}

func miller(c *mc.Ctx) {
	var ls []lst
	one := mc.Pick(c, []int64{1, -1, 2, 5}, []int64{1, -1, 2, -2, 3, 5, -7, 1 << 40})
	for _, a := range append([]int64{0}, one...) {
		for _, b := range one {
			ls = append(ls, lst{{a, b}})
		}
	}
	two := mc.Pick(c, [][2]int64{{1, 1}, {-1, 1}, {0, 2}}, [][2]int64{{1, 1}, {-1, 1}, {1, -1}, {0, 2}, {3, 2}, {2, 3}})
	for _, a := range two {
		for _, b := range two {
			ls = append(ls, lst{a, b})
		}
	}
	ls = append(ls, lst{{1, 1}, {1, 1}, {1, 1}}, lst{{1, 1}, {-1, 1}, {2, 3}}, lst{{2, 5}, {0, 1}, {-10, 1}})
	if c.Thorough() {
		for _, a := range two {
			for _, b := range two {
				for _, d := range two {
					ls = append(ls, lst{a, b, d})
				}
			}
		}
		ls = append(ls, lst{{1, 2}, {3, 4}, {5, 6}, {7, 8}, {-9, 10}})
	}
	// longest first
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i]) > len(ls[j]) })
	c.Each("Miller loop", len(ls), func(i int) string { return fmt.Sprintf("%v (%d)", ls[i], i%4) }, func(i int) string {
		return ls[i].miller(c, i%4)
	})
	// an infinite point of G2 is not supported: refused or one
	c.Each("infinite in G2", 3, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		l := []lst{{{1, 0}}, {{2, 3}, {1, 0}}, {{0, 0}}}[i]
		return bls.Never(c, func(s *S) {
			l.run(s, 0, func(r *pb.GTEl) {
				s.C12("pairing", pr(s).FinalExponentiation(r), et(l.exp()))
			})
		})
	})
}

// --- final exponentiation

func finalExp(c *mc.Ctx) {
	full := F12{{bls.N2(2, 3), bls.N2(5, 7), bls.N2(11, -13)}, {bls.N2(17, 19), bls.N2(-23, 29), bls.N2(31, 37)}}
	var l []F12
	pat := mc.Pick(c, []int{1, 2, 3, 4, 8, 7, 16, 32, 56, 63}, nil)
	if pat == nil {
		for i := 1; i < 64; i++ {
			pat = append(pat, i)
		}
	}
	for _, m := range pat {
		x := full
		for b := 0; b < 6; b++ {
			if m>>b&1 == 0 {
				x[b/3][b%3] = bls.N2(0, 0)
			}
		}
		l = append(l, x)
	}
	one := et(0)
	l = append(l, one, et(1), et(-1), full.Cyc(), full.Conj(), bls.Miller([]P1{bls.G1At(2)}, []Pt{bls.G2At(3)}))
	c.Each("final exponentiation", len(l), func(i int) string { return fmt.Sprintf("%d %v", i, l[i]) }, func(i int) string {
		want := l[i].FinalExp()
		return bls.With(c, func(s *S) {
			x := bls.W12(s.E, l[i])
			s.C12("FinalExponentiation", pr(s).FinalExponentiation(&x), want)
			s.C12("operand of FinalExponentiation", &x, l[i])
		})
	})
	c.One("final exponentiation", "zero", func() string {
		s, r := bls.Run(c, nil, nil, func(s *S) {
			z := bls.N2(0, 0)
			x := bls.W12(s.E, F12{{z, z, z}, {z, z, z}})
			pr(s).FinalExponentiation(&x)
		})
		_ = s
		if r.OK {
			return "zero is accepted"
		}
		if r.Panic != "" {
			return r.String()
		}
		return ""
	})
}

// --- pairing

func pair(c *mc.Ctx) {
	var ls []lst
	one := mc.Pick(c, []int64{1, -2}, []int64{1, -1, 2, 3, -5})
	for _, a := range append([]int64{0}, one...) {
		for _, b := range one {
			ls = append(ls, lst{{a, b}})
		}
	}
	// products that are one, by cancellation, bilinearity, both
	ls = append(ls, lst{{1, 1}, {-1, 1}}, lst{{2, 3}, {-3, 2}}, lst{{1, 6}, {-2, 2}, {-1, 2}}, lst{{3, 1}, {3, 1}})
	if c.Thorough() {
		ls = append(ls, lst{{1, 1}, {1, -1}}, lst{{0, 1}, {0, 2}}, lst{{4, 5}, {0, 1}, {-20, 1}}, lst{{1, 1}, {2, 2}, {3, 3}, {-14, 1}})
	}
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i]) > len(ls[j]) })
	c.Each("pairing", len(ls), func(i int) string { return fmt.Sprintf("%v (%d)", ls[i], i%4) }, func(i int) string {
		l := ls[i]
		return bls.With(c, func(s *S) {
			p, q := l.pts()
			var cp []*pb.G1Affine
			var cq []*pb.G2Affine
			for k := range p {
				cp, cq = append(cp, g1(s, p[k], (i+k)%4)), append(cq, g2(s, q[k], (i+2*k)%4))
			}
			r, err := pr(s).Pair(cp, cq)
			if err != nil {
				s.Bad = "refused: " + err.Error()
				return
			}
			s.C12("Pair", r, et(l.exp()))
			for k := range p {
				s.CAff("operand of Pair", cq[k], q[k])
			}
		})
	})
}

// sequences: several pairings in one circuit, on one gadget or two, some refused.
func sequences(c *mc.Ctx) {
	n := mc.Pick(c, 4, 4)
	c.Each("sequences", n, func(i int) string { return fmt.Sprintf("%02b", i) }, func(i int) string {
		return bls.With(c, func(s *S) {
			a := pr(s)
			b := a
			if i&1 == 1 {
				b = pr(s)
			}
			p, q := g1(s, bls.G1At(2), 1), g2(s, bls.G2At(3), 1)
			if i&2 == 2 {
				if _, err := a.MillerLoop([]*pb.G1Affine{p}, nil); err == nil {
					s.Bad = "mismatch accepted"
				}
			}
			x, err := a.MillerLoop([]*pb.G1Affine{p, p}, []*pb.G2Affine{q, q})
			y, err2 := b.MillerLoop([]*pb.G1Affine{p}, []*pb.G2Affine{q})
			if err != nil || err2 != nil {
				s.Bad = "refused"
				return
			}
			w := bls.Miller([]P1{bls.G1At(2)}, []Pt{bls.G2At(3)}).FinalExp()
			if v := bls.G12(s.E, *y).FinalExp(); !v.Eq(w) {
				s.Bad = "second pairing wrong"
			}
			if v := bls.G12(s.E, *x).FinalExp(); !v.Eq(w.Mul(w)) {
				s.Bad = "first pairing wrong"
			}
		})
	})
}

// --- dishonest provers

func dishonest(c *mc.Ctx) {
	t := bls.OfOrder(13)
	type adv struct {
		n string
		f func(s *S)
	}
	var l []adv
	for _, p := range []Pt{bls.Gen, t} {
		for _, q := range []Pt{bls.G2At(2), t.Add(t)} {
			l = append(l, adv{fmt.Sprintf("steps %v %v", p, q), func(s *S) {
				g := pr(s)
				a := s.Aff(q, 1)
				d, _ := g.DoubleStep(proj(s, p, 1))
				cproj(s, "DoubleStep", d, p.Add(p))
				r, _ := g.AddStep(proj(s, p, 1), &a)
				cproj(s, "AddStep", r, p.Add(q))
			}})
		}
	}
	x := F12{{bls.N2(2, 3), bls.N2(5, 7), bls.N2(11, -13)}, {bls.N2(0, 0), bls.N2(-23, 29), bls.N2(31, 37)}}
	l = append(l, adv{"sparse", func(s *S) {
		w := func(a, b int64) *pb.E2 { r := s.Rep2(bls.N2(a, b), 1); return &r }
		s.C12("Mul014By014", pr(s).Mul014By014(w(1, 2), w(0, 0), w(3, -1), w(4, 5), w(6, 7), w(0, 1)), sp(bls.N2(1, 2), bls.N2(0, 0), bls.N2(3, -1)).Mul(sp(bls.N2(4, 5), bls.N2(6, 7), bls.N2(0, 1))))
		z := bls.W12(s.E, x)
		s.C12("MulBy014", pr(s).MulBy014(&z, w(1, 2), w(0, 0), w(3, -1)), x.Mul(sp(bls.N2(1, 2), bls.N2(0, 0), bls.N2(3, -1))))
	}})
	c.Each("dishonest provers", len(l), func(i int) string { return l[i].n }, func(i int) string {
		return bls.Adversary(c, 3, l[i].f)
	})
}

// --- conformance of the engine: the same circuit in gnark's test engine

func conformance(c *mc.Ctx) {
	flat := func(x F12) (r []*big.Int) {
		for _, h := range x {
			for _, f := range h {
				for _, v := range []*big.Int{f.A, f.B} {
					for _, k := range bls.Limbs(v) {
						r = append(r, k.(*big.Int))
					}
				}
			}
		}
		return
	}
	c.Each("conformance", 2, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		g := gk.New(bls.BN, 72, 1, func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			g, err := pb.NewPairing(api)
			if err != nil {
				panic(err)
			}
			p, q := pb.NewG1Affine(bls.ToG1(bls.G1At(2))), pb.NewG2Affine(bls.ToG2(bls.G2At(3)))
			r, err := g.Pair([]*pb.G1Affine{&p}, []*pb.G2Affine{&q})
			if err != nil {
				panic(err)
			}
			k := 0
			e2 := func() pb.E2 {
				k += 12
				return pb.E2{A0: bls.El{Limbs: in[k-12 : k-6]}, A1: bls.El{Limbs: in[k-6 : k]}}
			}
			ne := frontend.Variable(0)
			for _, x := range []pb.E2{r.C0.B0, r.C0.B1, r.C0.B2, r.C1.B0, r.C1.B1, r.C1.B2} {
				ne = api.Or(ne, pb.E2NotEqual(api, x, e2()))
			}
			return []frontend.Variable{ne}
		})
		c.Trace(1)
		return g.Agree(flat(et([]int64{6, 5}[i])), []*big.Int{big.NewInt(int64(i))}, true, 2)
	})
}
