// C30: in-circuit edwards25519 arithmetic against the group law.
package main

import (
	"fmt"
	"math/big"

	ced "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"

	"verif/harness/ed"
	"verif/harness/eng"
	"verif/harness/mc"
)

type F = frontend.Variable

func main() {
	mc.Main(mc.Meta{Prop: "C30",
		Rule: "points: every sum of a torsion point (8) and a multiple of the generator from a boundary list; all pairs for addition; all scalars of bounded length, all windows placed at every bit position, and the values around the group order and the native modulus; every single (and in thorough every pair of) deviation of a prover's hint answers",
		Assumptions: []string{"operands outside the point set behave like its members of the same relation (the code branches on nothing but scalar bits)",
			"a prover deviates by adding 1 or a power of two to one output limb of a hint"},
	}, run)
}

type named struct {
	n string
	p ed.Pt
}

func points(ks []int64) []named {
	ts := ed.Torsion()
	var r []named
	for _, k := range ks {
		var b ed.Pt
		if k >= 0 {
			b = ed.B.Mul(big.NewInt(k))
		} else {
			b = ed.B.Mul(big.NewInt(-k)).Neg()
		}
		for j, t := range ts {
			r = append(r, named{fmt.Sprintf("%dB+T%d", k, j), b.Add(t)})
		}
	}
	return r
}

var mask51 = new(big.Int).SetUint64(1<<51 - 1)

func el(e *eng.Engine, x *big.Int) emulated.Element[ced.Ed25519Fp] {
	return emulated.Element[ced.Ed25519Fp]{Limbs: e.Vals(limbs(x))}
}
func limbs(x *big.Int) []F {
	r := make([]F, 5)
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(51*i)), mask51)
	}
	return r
}
func pt(e *eng.Engine, p ed.Pt) ced.Point { return ced.Point{X: el(e, p.X), Y: el(e, p.Y)} }

func val(e *eng.Engine, l []F) *big.Int {
	r := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		r.Lsh(r, 51).Add(r, e.Big(l[i]))
	}
	return r.Mod(r, ed.P)
}
func get(e *eng.Engine, p ced.Point) ed.Pt { return ed.Pt{X: val(e, p.X.Limbs), Y: val(e, p.Y.Limbs)} }

// ask runs fn on the real curve code and compares the result with want.
func ask(c *mc.Ctx, e *eng.Engine, want ed.Pt, fn func(cv ced.Curve) ced.Point) string {
	var out ced.Point
	r := e.Run(func(api frontend.API) error {
		cv, err := ced.VerifCurve(api)
		if err != nil {
			return err
		}
		out = fn(cv)
		return nil
	})
	c.State(1)
	c.Trans(int(e.Ops))
	if !r.OK {
		return r.String()
	}
	if g := get(e, out); !g.Eq(want) {
		return fmt.Sprintf("got (%v,%v) want (%v,%v)", g.X, g.Y, want.X, want.Y)
	}
	return ""
}

var bn = ecc.BN254.ScalarField()

func run(c *mc.Ctx) {
	ks := []int64{0, 1, -1, 2, -2, 3, 1 << 40}
	if c.Thorough() {
		ks = append(ks, 4, -3, 5, 7, 255, -(1 << 50))
	}
	ps := points(ks)
	n := len(ps)
	c.Each("add", n*n, func(i int) string { return ps[i/n].n + " + " + ps[i%n].n }, func(i int) string {
		a, b := ps[i/n].p, ps[i%n].p
		e := eng.New(bn)
		return ask(c, e, a.Add(b), func(cv ced.Curve) ced.Point { return cv.Add(pt(e, a), pt(e, b)) })
	})
	c.Each("unary", n*3, func(i int) string { return fmt.Sprint([]string{"double ", "neg ", "oncurve "}[i%3], ps[i/3].n) }, func(i int) string {
		a := ps[i/3].p
		e := eng.New(bn)
		switch i % 3 {
		case 0:
			return ask(c, e, a.Add(a), func(cv ced.Curve) ced.Point { return cv.Double(pt(e, a)) })
		case 1:
			return ask(c, e, a.Neg(), func(cv ced.Curve) ced.Point { return cv.Neg(pt(e, a)) })
		}
		return ask(c, e, a, func(cv ced.Curve) ced.Point { p := pt(e, a); cv.AssertIsOnCurve(p); return p })
	})
	// results feed the next operation without being normalised
	type chain struct{ a, b, op int }
	var chains []chain
	for a := range ps {
		for op := 0; op < 27; op++ {
			chains = append(chains, chain{a, (a*7 + op) % n, op})
		}
	}
	c.Each("chains", len(chains), func(i int) string {
		return fmt.Sprint(ps[chains[i].a].n, ",", ps[chains[i].b].n, " ops ", chains[i].op)
	}, func(i int) string {
		ch := chains[i]
		a, b := ps[ch.a].p, ps[ch.b].p
		e := eng.New(bn)
		w := a
		op := ch.op
		ops := make([]int, 3)
		for k := range ops {
			ops[k] = op % 3
			op /= 3
			switch ops[k] {
			case 0:
				w = w.Add(b)
			case 1:
				w = w.Add(w)
			case 2:
				w = w.Neg()
			}
		}
		return ask(c, e, w, func(cv ced.Curve) ced.Point {
			p := pt(e, a)
			for _, o := range ops {
				switch o {
				case 0:
					p = cv.Add(p, pt(e, b))
				case 1:
					p = cv.Double(p)
				case 2:
					p = cv.Neg(p)
				}
			}
			cv.AssertIsOnCurve(p)
			return p
		})
	})
	// refusals: points off the curve, and results other than the identity
	type bad struct {
		what string
		p    ed.Pt
		q    bool // AssertQ instead of AssertIsOnCurve
	}
	var bads []bad
	for _, p := range ps {
		for _, l := range []uint{0, 1, 50, 51, 102, 153, 204, 253} {
			d := new(big.Int).Lsh(big.NewInt(1), l)
			for s, q := range []ed.Pt{{X: ed.Add(p.p.X, d), Y: p.p.Y}, {X: p.p.X, Y: ed.Add(p.p.Y, d)}, {X: ed.Sub(p.p.X, d), Y: p.p.Y}, {X: p.p.X, Y: ed.Sub(p.p.Y, d)}, {X: p.p.Y, Y: p.p.X}} {
				if !q.OnCurve() {
					bads = append(bads, bad{fmt.Sprintf("off curve %s bit %d way %d", p.n, l, s), q, false})
				}
			}
		}
		if !p.p.Eq(ed.Id) {
			bads = append(bads, bad{"not the identity " + p.n, p.p, true})
		}
	}
	for _, p := range []ed.Pt{{X: big.NewInt(1), Y: big.NewInt(1)}, {X: big.NewInt(0), Y: big.NewInt(0)}, {X: big.NewInt(0), Y: ed.Neg(big.NewInt(1))}, {X: big.NewInt(1), Y: big.NewInt(0)}, {X: big.NewInt(0), Y: new(big.Int).Lsh(big.NewInt(1), 51)}, {X: new(big.Int).Lsh(big.NewInt(1), 204), Y: big.NewInt(1)}} {
		bads = append(bads, bad{fmt.Sprintf("not the identity (%v,%v)", p.X, p.Y), p, true})
	}
	c.Each("refusals", len(bads), func(i int) string { return bads[i].what }, func(i int) string {
		e := eng.New(bn)
		r := e.Run(func(api frontend.API) error {
			cv, err := ced.VerifCurve(api)
			if err != nil {
				return err
			}
			if bads[i].q {
				cv.AssertQ(pt(e, bads[i].p))
			} else {
				cv.AssertIsOnCurve(pt(e, bads[i].p))
			}
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if r.OK {
			return "accepted"
		}
		if r.Panic != "" {
			return r.String()
		}
		return ""
	})
	c.Each("identity asserted", 1, func(int) string { return "(0,1)" }, func(int) string {
		e := eng.New(bn)
		return ask(c, e, ed.Id, func(cv ced.Curve) ced.Point { p := pt(e, ed.Id); cv.AssertQ(p); return p })
	})

	// scalar multiplication
	scs := scalars(c)
	bases := []named{ps[0], ps[1], ps[8], ps[8+3], ps[16+5], ps[n-1]}
	fields := []struct {
		n string
		p *big.Int
	}{{"BN254", bn}, {"BLS12-377", ecc.BLS12_377.ScalarField()}}
	type sm struct{ f, b, s int }
	var sms []sm
	for s := range scs {
		for b := range bases {
			for f := range fields {
				if (b > 2 && s%4 != 0 || f == 1 && (s+b)%6 != 0) && !c.Thorough() {
					continue
				}
				if scs[s].Cmp(fields[f].p) < 0 {
					sms = append(sms, sm{f, b, s})
				}
			}
		}
	}
	c.Each("scalar multiplication", len(sms), func(i int) string {
		return fmt.Sprintf("%s [%s]%s", fields[sms[i].f].n, scs[sms[i].s].Text(16), bases[sms[i].b].n)
	}, func(i int) string {
		m := sms[i]
		e := eng.New(fields[m.f].p)
		p := bases[m.b].p
		return ask(c, e, p.Mul(scs[m.s]), func(cv ced.Curve) ced.Point { return cv.ScalarMul(pt(e, p), e.Val(scs[m.s])) })
	})
	// double-base
	type dm struct {
		a, b   int
		s1, s2 *big.Int
	}
	var dms []dm
	add := func(a, b int, s1, s2 *big.Int) {
		if s1.Cmp(bn) < 0 && s2.Cmp(ed.L) < 0 {
			dms = append(dms, dm{a, b, s1, s2})
		}
	}
	lim := mc.Pick(c, int64(4), int64(16))
	for x := int64(0); x < lim; x++ {
		for y := int64(0); y < lim; y++ {
			add(2, 3, big.NewInt(x), big.NewInt(y))
			add(2, 2, big.NewInt(x), big.NewInt(y))
		}
	}
	for i := range scs {
		add(2, 5, scs[i], scs[(i*5+3)%len(scs)])
		if c.Thorough() {
			for b := range bases {
				add(b, (b+i)%len(bases), scs[i], scs[(i*11+b)%len(scs)])
			}
		}
	}
	c.Each("double-base multiplication", len(dms), func(i int) string {
		d := dms[i]
		return fmt.Sprintf("[%s]%s + [%s]%s", d.s1.Text(16), bases[d.a].n, d.s2.Text(16), bases[d.b].n)
	}, func(i int) string {
		d := dms[i]
		e := eng.New(bn)
		p, q := bases[d.a].p, bases[d.b].p
		return ask(c, e, p.Mul(d.s1).Add(q.Mul(d.s2)), func(cv ced.Curve) ced.Point {
			return cv.DoubleBaseScalarMul(pt(e, p), pt(e, q), e.Val(d.s1), &emulated.Element[ced.Ed25519Fr]{Limbs: e.Vals(limbs(d.s2))})
		})
	})
	// dishonest provers
	adv := []struct {
		n  string
		fn func(e *eng.Engine, cv ced.Curve, a, b ed.Pt) ced.Point
		w  func(a, b ed.Pt) ed.Pt
	}{
		{"add", func(e *eng.Engine, cv ced.Curve, a, b ed.Pt) ced.Point { return cv.Add(pt(e, a), pt(e, b)) }, func(a, b ed.Pt) ed.Pt { return a.Add(b) }},
		{"double", func(e *eng.Engine, cv ced.Curve, a, b ed.Pt) ced.Point { return cv.Double(pt(e, a)) }, func(a, b ed.Pt) ed.Pt { return a.Add(a) }},
	}
	pick := []int{0, 1, 8, 9, 16 + 2, n - 1}
	c.Each("dishonest provers", len(adv)*len(pick)*len(pick), func(i int) string {
		return fmt.Sprintf("%s %s %s", adv[i%2].n, ps[pick[i/2%len(pick)]].n, ps[pick[i/2/len(pick)]].n)
	}, func(i int) string {
		a, b := ps[pick[i/2%len(pick)]].p, ps[pick[i/2/len(pick)]].p
		ad := adv[i%2]
		want := ad.w(a, b)
		path := &eng.Path{MaxDev: 1}
		for {
			e := eng.New(bn)
			e.Ch = path
			e.Alt = func(name string, in, honest []*big.Int) (int, func(int) []*big.Int) {
				// first and last output limb, +1 and +2^20
				return 4, func(k int) []*big.Int {
					o := make([]*big.Int, len(honest))
					copy(o, honest)
					j := 0
					if k&1 == 1 {
						j = len(o) - 1
					}
					o[j] = new(big.Int).Add(o[j], new(big.Int).Lsh(big.NewInt(1), uint(k>>1*20)))
					return o
				}
			}
			var out ced.Point
			r := e.Run(func(api frontend.API) error {
				cv, err := ced.VerifCurve(api)
				if err != nil {
					return err
				}
				out = ad.fn(e, cv, a, b)
				return nil
			})
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" {
				return r.String()
			}
			if r.OK && !get(e, out).Eq(want) {
				return fmt.Sprintf("a wrong result passes with hint answers %v", path.Choices())
			}
			if !path.Next() {
				return ""
			}
		}
	})
}

func scalars(c *mc.Ctx) []*big.Int {
	one := big.NewInt(1)
	var r []*big.Int
	for i := int64(0); i < mc.Pick(c, int64(20), int64(256)); i++ {
		r = append(r, big.NewInt(i))
	}
	step := mc.Pick(c, 23, 1)
	for i := 4; i < 254; i += step {
		for _, w := range []int64{1, 3, 5, 7} {
			r = append(r, new(big.Int).Lsh(big.NewInt(w), uint(i)))
			if !c.Thorough() {
				break
			}
		}
		r = append(r, new(big.Int).Sub(new(big.Int).Lsh(one, uint(i)), one))
	}
	for d := int64(-2); d <= 2; d++ {
		r = append(r, new(big.Int).Add(ed.L, big.NewInt(d)))
		r = append(r, new(big.Int).Add(new(big.Int).Lsh(ed.L, 1), big.NewInt(d)))
		r = append(r, new(big.Int).Add(new(big.Int).Mul(ed.L, big.NewInt(8)), big.NewInt(d)))
	}
	r = append(r, new(big.Int).Sub(bn, one), new(big.Int).Sub(ecc.BLS12_377.ScalarField(), one), new(big.Int).Lsh(one, 253), new(big.Int).Lsh(one, 252))
	a, _ := new(big.Int).SetString("5555555555555555555555555555555555555555555555555555555555555555", 16)
	for k := uint(2); k < 5; k++ {
		r = append(r, new(big.Int).Rsh(a, k))
	}
	return r
}
