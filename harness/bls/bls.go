// Package bls is an independent reference for BLS12-381 over math/big: the
// extension tower by its defining polynomials (schoolbook), the affine group
// law of the twist, and the adversary that answers hints non-canonically.
package bls

import "math/big"

var (
	P, _ = new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
	R, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
	// X is the absolute value of the (negative) curve parameter.
	X, _ = new(big.Int).SetString("d201000000010000", 16)
	zero = new(big.Int)
	one  = big.NewInt(1)
)

func mod(a *big.Int) *big.Int { return new(big.Int).Mod(a, P) }

// F2 is a + b·u with u² = -1.
type F2 struct{ A, B *big.Int }

func N2(a, b int64) F2       { return F2{mod(big.NewInt(a)), mod(big.NewInt(b))} }
func M2(a, b *big.Int) F2    { return F2{mod(a), mod(b)} }
func (x F2) Add(y F2) F2     { return M2(new(big.Int).Add(x.A, y.A), new(big.Int).Add(x.B, y.B)) }
func (x F2) Sub(y F2) F2     { return M2(new(big.Int).Sub(x.A, y.A), new(big.Int).Sub(x.B, y.B)) }
func (x F2) Neg() F2         { return M2(new(big.Int).Neg(x.A), new(big.Int).Neg(x.B)) }
func (x F2) Conj() F2        { return M2(x.A, new(big.Int).Neg(x.B)) }
func (x F2) Eq(y F2) bool    { return x.A.Cmp(y.A) == 0 && x.B.Cmp(y.B) == 0 }
func (x F2) IsZero() bool    { return x.A.Sign() == 0 && x.B.Sign() == 0 }
func (x F2) String() string  { return "(" + x.A.Text(16) + "," + x.B.Text(16) + ")" }
func (x F2) S(k *big.Int) F2 { return M2(new(big.Int).Mul(x.A, k), new(big.Int).Mul(x.B, k)) }
func (x F2) K(k int64) F2    { return x.S(big.NewInt(k)) }
func (x F2) Mul(y F2) F2 {
	a := new(big.Int).Mul(x.A, y.A)
	a.Sub(a, new(big.Int).Mul(x.B, y.B))
	b := new(big.Int).Mul(x.A, y.B)
	b.Add(b, new(big.Int).Mul(x.B, y.A))
	return F2{a.Mod(a, P), b.Mod(b, P)}
}

// Inv gives 0 for 0.
func (x F2) Inv() F2 {
	if x.IsZero() {
		return x
	}
	n := new(big.Int).Mul(x.A, x.A)
	n.Add(n, new(big.Int).Mul(x.B, x.B))
	n.ModInverse(n.Mod(n, P), P)
	return x.Conj().S(n)
}

func (x F2) Exp(k *big.Int) F2 {
	r := N2(1, 0)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if k.Bit(i) == 1 {
			r = r.Mul(x)
		}
	}
	return r
}

// Sgn0 of RFC 9380.
func (x F2) Sgn0() uint {
	if x.A.Sign() == 0 {
		return x.B.Bit(0)
	}
	return x.A.Bit(0)
}

// IsSquare: the norm is a square in Fp (every norm of a non-zero square is).
func (x F2) IsSquare() bool {
	n := new(big.Int).Mul(x.A, x.A)
	n.Add(n, new(big.Int).Mul(x.B, x.B))
	return big.Jacobi(n.Mod(n, P), P) >= 0
}

// Sqrt gives some square root; ok is false for a non-square. Complex method.
func (x F2) Sqrt() (r F2, ok bool) {
	if x.B.Sign() == 0 {
		if s := new(big.Int).ModSqrt(x.A, P); s != nil {
			return F2{s, zero}, true
		}
		s := new(big.Int).ModSqrt(mod(new(big.Int).Neg(x.A)), P)
		return F2{zero, s}, true // (s u)² = -s²
	}
	n := new(big.Int).Mul(x.A, x.A)
	n.Add(n, new(big.Int).Mul(x.B, x.B))
	s := new(big.Int).ModSqrt(n.Mod(n, P), P)
	if s == nil {
		return x, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), P)
	for i := 0; i < 2; i++ {
		t := mod(new(big.Int).Mul(new(big.Int).Add(x.A, s), half))
		if a := new(big.Int).ModSqrt(t, P); a != nil && a.Sign() != 0 {
			b := new(big.Int).ModInverse(new(big.Int).Lsh(a, 1), P)
			r = M2(a, b.Mul(b, x.B))
			if r.Mul(r).Eq(x) {
				return r, true
			}
		}
		s = new(big.Int).Neg(s)
	}
	return x, false
}

// Xi is the non-residue 1+u.
var Xi = N2(1, 1)

// F6 is a0 + a1·v + a2·v² with v³ = Xi.
type F6 [3]F2

func (x F6) Add(y F6) F6 { return F6{x[0].Add(y[0]), x[1].Add(y[1]), x[2].Add(y[2])} }
func (x F6) Sub(y F6) F6 { return F6{x[0].Sub(y[0]), x[1].Sub(y[1]), x[2].Sub(y[2])} }
func (x F6) Neg() F6     { return F6{x[0].Neg(), x[1].Neg(), x[2].Neg()} }
func (x F6) Mul(y F6) F6 {
	var r [5]F2
	for i := range r {
		r[i] = N2(0, 0)
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			r[i+j] = r[i+j].Add(x[i].Mul(y[j]))
		}
	}
	return F6{r[0].Add(r[3].Mul(Xi)), r[1].Add(r[4].Mul(Xi)), r[2]}
}
func (x F6) Eq(y F6) bool { return x[0].Eq(y[0]) && x[1].Eq(y[1]) && x[2].Eq(y[2]) }
func (x F6) IsZero() bool { return x[0].IsZero() && x[1].IsZero() && x[2].IsZero() }

// V is v.
var V = F6{N2(0, 0), N2(1, 0), N2(0, 0)}

// F12 is a0 + a1·w with w² = v.
type F12 [2]F6

func (x F12) Add(y F12) F12 { return F12{x[0].Add(y[0]), x[1].Add(y[1])} }
func (x F12) Mul(y F12) F12 {
	return F12{x[0].Mul(y[0]).Add(x[1].Mul(y[1]).Mul(V)), x[0].Mul(y[1]).Add(x[1].Mul(y[0]))}
}
func (x F12) Conj() F12     { return F12{x[0], x[1].Neg()} }
func (x F12) Eq(y F12) bool { return x[0].Eq(y[0]) && x[1].Eq(y[1]) }
func (x F12) IsZero() bool  { return x[0].IsZero() && x[1].IsZero() }
func (x F12) String() string {
	s := ""
	for i := 0; i < 6; i++ {
		s += x[i/3][i%3].String()
	}
	return s
}

var One12 = func() F12 {
	z := N2(0, 0)
	return F12{{N2(1, 0), z, z}, {z, z, z}}
}()

func (x F12) Exp(k *big.Int) F12 {
	r := One12
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if k.Bit(i) == 1 {
			r = r.Mul(x)
		}
	}
	return r
}

// flat: coefficients of w^0..w^5 over Fp2.
func (x F12) flat() [6]F2 {
	return [6]F2{x[0][0], x[1][0], x[0][1], x[1][1], x[0][2], x[1][2]}
}
func unflat(c [6]F2) F12 { return F12{{c[0], c[2], c[4]}, {c[1], c[3], c[5]}} }

// frobW[k][i] = w^(i·(p^k - 1)), an element of Fp2.
var frobW = func() (r [4][6]F2) {
	for k := 1; k < 4; k++ {
		e := new(big.Int).Sub(new(big.Int).Exp(P, big.NewInt(int64(k)), nil), one)
		e.Div(e, big.NewInt(6)) // w^6 = Xi
		g := Xi.Exp(e)
		r[k][0] = N2(1, 0)
		for i := 1; i < 6; i++ {
			r[k][i] = r[k][i-1].Mul(g)
		}
	}
	return
}()

// Frob is x^(p^k), k = 1..3.
func (x F12) Frob(k int) F12 {
	c := x.flat()
	for i := range c {
		if k%2 == 1 {
			c[i] = c[i].Conj()
		}
		c[i] = c[i].Mul(frobW[k][i])
	}
	return unflat(c)
}

// Inv by the norm to Fp2 (0 for 0).
func (x F12) Inv() F12 {
	n := x.Conj()
	n6 := x.Mul(n)[0] // in Fp6
	i6 := n6.Inv()
	return F12{n[0].Mul(i6), n[1].Mul(i6)}
}

// Inv over Fp2 by Cramer's rule on the multiplication matrix.
func (x F6) Inv() F6 {
	// columns: x, x·v, x·v²
	c := [3]F6{x, x.Mul(V), x.Mul(V).Mul(V)}
	det2 := func(a, b, d, e F2) F2 { return a.Mul(e).Sub(b.Mul(d)) }
	m := func(r, k int) F2 { return c[k][r] }
	var co [3]F2
	co[0] = det2(m(1, 1), m(1, 2), m(2, 1), m(2, 2))
	co[1] = det2(m(1, 0), m(1, 2), m(2, 0), m(2, 2)).Neg()
	co[2] = det2(m(1, 0), m(1, 1), m(2, 0), m(2, 1))
	d := m(0, 0).Mul(co[0]).Add(m(0, 1).Mul(co[1])).Add(m(0, 2).Mul(co[2])).Inv()
	return F6{co[0].Mul(d), co[1].Mul(d), co[2].Mul(d)}
}

// Cyc projects to the cyclotomic subgroup: x^((p^6-1)(p^2+1)).
func (x F12) Cyc() F12 {
	y := x.Conj().Mul(x.Inv())
	return y.Frob(2).Mul(y)
}
