package bls

import "math/big"

// CycOrder is p^4 - p^2 + 1, the order of the cyclotomic subgroup.
var CycOrder = func() *big.Int {
	p2 := new(big.Int).Mul(P, P)
	r := new(big.Int).Mul(p2, p2)
	return r.Sub(r, p2).Add(r, one)
}()

// InCyc tests membership through the Frobenius: x^(p^4)·x = x^(p^2).
func (x F12) InCyc() bool {
	return !x.IsZero() && x.Frob(2).Frob(2).Mul(x).Eq(x.Frob(2))
}

// CubeRoot in Fp2, if there is one.
func (x F2) CubeRoot() (F2, bool) {
	m := new(big.Int).Sub(new(big.Int).Mul(P, P), one)
	three := big.NewInt(3)
	e := 0
	for new(big.Int).Mod(m, three).Sign() == 0 {
		m.Div(m, three)
		e++
	}
	r := x.Exp(new(big.Int).ModInverse(three, m))
	// a generator of the 3-Sylow subgroup
	var g F2
	for i := int64(1); ; i++ {
		g = N2(i, 1).Exp(m)
		t := g
		for j := 0; j < e-1; j++ {
			t = t.Mul(t).Mul(t)
		}
		if !t.Eq(N2(1, 0)) {
			break
		}
	}
	n := 1
	for i := 0; i < e; i++ {
		n *= 3
	}
	for i := 0; i < n; i++ {
		if r.Mul(r).Mul(r).Eq(x) {
			return r, true
		}
		r = r.Mul(g)
	}
	return x, false
}

// CycG3Zero finds n cyclotomic elements whose coefficient of w (g3 in the
// compressed form) is zero, other than one. With g5 = s·g1 the equations of
// the subgroup leave a quadratic for g1³.
func CycG3Zero(n int) (r []F12) {
	half := new(big.Int).ModInverse(big.NewInt(2), P)
	un := N2(1, 0)
	for i := int64(1); len(r) < n; i++ {
		s := N2(i, 2*i+1)
		c := Xi.Mul(s).Mul(s).Add(N2(3, 0)).S(half)
		g4 := s.K(2).Mul(c.Inv())
		a := un.Add(Xi.Mul(g4).Mul(g4).K(2))
		// x0 = a - 3ξcT, x0² - x0 = ξ(cT - g4²)
		b3 := Xi.Mul(c).K(3)
		// 9ξ²c²T² + (-2a·3ξc + 3ξc - ξc)T + a² - a + ξ g4² = 0
		qa := b3.Mul(b3)
		qb := b3.Neg().Mul(a).K(2).Add(b3).Sub(Xi.Mul(c))
		qc := a.Mul(a).Sub(a).Add(Xi.Mul(g4).Mul(g4))
		d, ok := qb.Mul(qb).Sub(qa.Mul(qc).K(4)).Sqrt()
		if !ok {
			continue
		}
		for k := 0; k < 2; k++ {
			t := d.Sub(qb).Mul(qa.K(2).Inv())
			d = d.Neg()
			g1, ok := t.CubeRoot()
			if !ok || t.IsZero() {
				continue
			}
			g2 := c.Mul(g1).Mul(g1)
			x := F12{{a.Sub(b3.Mul(t)), g1, g2}, {N2(0, 0), g4, s.Mul(g1)}}
			if x.InCyc() {
				r = append(r, x)
			}
		}
		if i > 200 {
			panic("no cyclotomic element with g3 = 0 found")
		}
	}
	return r
}
