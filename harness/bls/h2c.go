package bls

import (
	"crypto/sha256"
	"fmt"
	"math/big"
)

// RFC 9380, suite BLS12381G2_XMD:SHA-256_SSWU_RO_ (and NU for encoding).

// IsoA, IsoB, Z are the curve 3-isogenous to the twist and the SSWU constant.
var (
	IsoA = N2(0, 240)
	IsoB = N2(1012, 1012)
	Z    = N2(-2, -1)
)

// ExpandXMD is expand_message_xmd with SHA-256.
func ExpandXMD(msg, dst []byte, n int) []byte {
	ell := (n + 31) / 32
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	h := sha256.New()
	h.Write(make([]byte, 64))
	h.Write(msg)
	h.Write([]byte{byte(n >> 8), byte(n), 0})
	h.Write(dp)
	b0 := h.Sum(nil)
	var out, prev []byte
	prev = make([]byte, 32)
	for i := 1; i <= ell; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ prev[j]
		}
		s := sha256.Sum256(append(append(x, byte(i)), dp...))
		prev = s[:]
		out = append(out, prev...)
	}
	return out[:n]
}

// HashToField gives n elements of Fp2.
func HashToField(msg, dst []byte, n int) (r []F2) {
	b := ExpandXMD(msg, dst, 128*n)
	for i := 0; i < n; i++ {
		r = append(r, M2(new(big.Int).SetBytes(b[128*i:128*i+64]), new(big.Int).SetBytes(b[128*i+64:128*i+128])))
	}
	return
}

// SSWU is the simplified map of section 6.6.2, to the isogenous curve.
func SSWU(u F2) (x, y F2) {
	un := N2(1, 0)
	zu2 := Z.Mul(u).Mul(u)
	t := zu2.Mul(zu2).Add(zu2)
	var x1 F2
	if t.IsZero() {
		x1 = IsoB.Mul(Z.Mul(IsoA).Inv())
	} else {
		x1 = IsoB.Neg().Mul(IsoA.Inv()).Mul(un.Add(t.Inv()))
	}
	g := func(x F2) F2 { return x.Mul(x).Mul(x).Add(IsoA.Mul(x)).Add(IsoB) }
	x = x1
	if !g(x1).IsSquare() {
		x = zu2.Mul(x1)
	}
	y, ok := g(x).Sqrt()
	if !ok {
		panic("bls: sswu")
	}
	if u.Sgn0() != y.Sgn0() {
		y = y.Neg()
	}
	return
}

// iso3 is the 3-isogeny by Vélu's formulas, scaled onto the twist: kernel
// abscissa, the sums t and u, and the scaling.
type iso3 struct{ x0, t, u, c2, c3 F2 }

var theIso *iso3

func init() {
	// a root of the 3-division polynomial 3x⁴+6Ax²+12Bx-A²
	three := N2(3, 0)
	f := []F2{IsoA.Mul(IsoA).Neg(), IsoB.K(12), IsoA.K(6), N2(0, 0), three}
	for _, x0 := range roots(f) {
		g := x0.Mul(x0).K(3).Add(IsoA)
		t := g.K(2)
		u := x0.Mul(x0).Mul(x0).Add(IsoA.Mul(x0)).Add(IsoB).K(4)
		a2 := IsoA.Sub(t.K(5))
		b2 := IsoB.Sub(u.Add(x0.Mul(t)).K(7))
		if !a2.IsZero() {
			continue
		}
		// scale: (x/c², y/c³) with c⁶ = b2/B; the suite's choice is fixed by the
		// leading coefficients of RFC 9380, appendix E.3
		k1, _ := new(big.Int).SetString("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1", 16)
		k3, _ := new(big.Int).SetString("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10", 16)
		i2, i3 := F2{k1, zero}, F2{k3, zero}
		q := b2.Mul(i3).Mul(i3)
		if !q.Eq(B) || !b2.Mul(i2).Mul(i2).Mul(i2).Eq(B) {
			continue
		}
		theIso = &iso3{x0, t, u, i2, i3}
	}
	if theIso == nil {
		panic("bls: isogeny")
	}
}

// roots in Fp2 of a polynomial (low degree first), by splitting.
func roots(f []F2) (r []F2) {
	// gcd(x^(p²)-x, f)
	q := new(big.Int).Mul(P, P)
	xq := polyPow([]F2{N2(0, 0), N2(1, 0)}, q, f)
	g := polyGCD(f, polySub(xq, []F2{N2(0, 0), N2(1, 0)}))
	var split func(g []F2)
	split = func(g []F2) {
		if len(g) <= 1 {
			return
		}
		if len(g) == 2 {
			r = append(r, g[0].Mul(g[1].Inv()).Neg())
			return
		}
		e := new(big.Int).Rsh(q, 1)
		for i := int64(1); ; i++ {
			h := polyPow([]F2{N2(i, 1), N2(1, 0)}, e, g)
			d := polyGCD(g, polySub(h, []F2{N2(1, 0)}))
			if len(d) > 1 && len(d) < len(g) {
				split(d)
				qq, _ := polyDiv(g, d)
				split(qq)
				return
			}
		}
	}
	split(g)
	return
}

func trimP(a []F2) []F2 {
	for len(a) > 0 && a[len(a)-1].IsZero() {
		a = a[:len(a)-1]
	}
	return a
}
func polySub(a, b []F2) []F2 {
	n := max(len(a), len(b))
	r := make([]F2, n)
	for i := range r {
		x, y := N2(0, 0), N2(0, 0)
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		r[i] = x.Sub(y)
	}
	return trimP(r)
}
func polyDiv(a, b []F2) (q, r []F2) {
	r = trimP(append([]F2{}, a...))
	b = trimP(append([]F2{}, b...))
	inv := b[len(b)-1].Inv()
	q = make([]F2, max(0, len(r)-len(b)+1))
	for i := range q {
		q[i] = N2(0, 0)
	}
	for len(r) >= len(b) {
		k := len(r) - len(b)
		c := r[len(r)-1].Mul(inv)
		q[k] = c
		for i := range b {
			r[k+i] = r[k+i].Sub(c.Mul(b[i]))
		}
		r = trimP(r[:len(r)-1])
	}
	return trimP(q), r
}
func polyGCD(a, b []F2) []F2 {
	for len(b) > 0 {
		_, r := polyDiv(a, b)
		a, b = b, r
	}
	return a
}
func polyMulMod(a, b, m []F2) []F2 {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make([]F2, len(a)+len(b)-1)
	for i := range r {
		r[i] = N2(0, 0)
	}
	for i := range a {
		for j := range b {
			r[i+j] = r[i+j].Add(a[i].Mul(b[j]))
		}
	}
	_, r = polyDiv(r, m)
	return r
}
func polyPow(a []F2, e *big.Int, m []F2) []F2 {
	r := []F2{N2(1, 0)}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = polyMulMod(r, r, m)
		if e.Bit(i) == 1 {
			r = polyMulMod(r, a, m)
		}
	}
	return r
}

// Iso maps a point of the isogenous curve to the twist.
func Iso(x, y F2) Pt {
	i := theIso
	d := x.Sub(i.x0)
	if d.IsZero() {
		return O
	}
	d = d.Inv()
	d2 := d.Mul(d)
	d3 := d2.Mul(d)
	X := x.Add(i.t.Mul(d)).Add(i.u.Mul(d2))
	Y := y.Mul(N2(1, 0).Sub(i.t.Mul(d2)).Sub(i.u.K(2).Mul(d3)))
	p := Pt{X: X.Mul(i.c2), Y: Y.Mul(i.c3)}
	if !p.On() {
		panic(fmt.Sprint("bls: off the twist: ", x))
	}
	return p
}

// MapToCurve is SSWU and the isogeny, before cofactor clearing.
func MapToCurve(u F2) Pt { return Iso(SSWU(u)) }

// Hash and Encode are the suite's two functions.
func Hash(msg, dst []byte) Pt {
	u := HashToField(msg, dst, 2)
	return MapToCurve(u[0]).Add(MapToCurve(u[1])).Mul(HEff)
}
func Encode(msg, dst []byte) Pt {
	return MapToCurve(HashToField(msg, dst, 1)[0]).Mul(HEff)
}

// IsoCurve are the points of the isogenous curve with ordinate y.
func IsoCurve(y F2) (r [][2]F2) {
	for _, x := range roots([]F2{IsoB.Sub(y.Mul(y)), IsoA, N2(0, 0), N2(1, 0)}) {
		r = append(r, [2]F2{x, y})
	}
	return
}

func sqrts(x F2) (r []F2) {
	if s, ok := x.Sqrt(); ok {
		r = append(r, s)
		if !s.IsZero() {
			r = append(r, s.Neg())
		}
	}
	return
}

// quad are the solutions of s² + b s + c = 0.
func quad(b, c F2) (r []F2) {
	h := N2(2, 0).Inv()
	for _, d := range sqrts(b.Mul(b).Sub(c.K(4))) {
		r = append(r, d.Sub(b).Mul(h))
	}
	return
}

// SSWUOfT are the elements u with Z²u⁴ + Zu² = t.
func SSWUOfT(t F2) (r []F2) {
	for _, s := range quad(N2(1, 0), t.Neg()) {
		r = append(r, sqrts(s.Mul(Z.Inv()))...)
	}
	return
}

// SSWUInverse are the elements u that the map takes to (x, y).
func SSWUInverse(x, y F2) (r []F2) {
	w := x.Neg().Mul(IsoA).Mul(IsoB.Inv()) // x = -B/A w
	var c []F2
	if d := w.Sub(N2(1, 0)); !d.IsZero() {
		c = append(c, SSWUOfT(d.Inv())...) // w = 1 + 1/t
	}
	for _, s := range quad(N2(1, 0).Sub(w), N2(1, 0).Sub(w)) { // w = s + 1/(s+1)
		c = append(c, sqrts(s.Mul(Z.Inv()))...)
	}
	for _, u := range c {
		if a, b := SSWU(u); a.Eq(x) && b.Eq(y) {
			r = append(r, u)
		}
	}
	return
}
