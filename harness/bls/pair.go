package bls

import (
	"math/big"

	bc "github.com/consensys/gnark-crypto/ecc/bls12-381"
)

// P1 is a point of E: y² = x³ + 4.
type P1 struct {
	X, Y *big.Int
	Inf  bool
}

// G1At is the multiple k of the generator of the order-r subgroup.
func G1At(k int64) P1 {
	_, _, g, _ := bc.Generators()
	var q bc.G1Affine
	q.ScalarMultiplication(&g, mod2(k))
	return FromG1(q)
}

// G2At is the multiple k of the generator of the order-r subgroup of the twist.
func G2At(k int64) Pt { return Gen.Mul(mod2(k)) }

func mod2(k int64) *big.Int { return new(big.Int).Mod(big.NewInt(k), R) }

func FromG1(q bc.G1Affine) P1 {
	if q.IsInfinity() {
		return P1{X: new(big.Int), Y: new(big.Int), Inf: true}
	}
	return P1{X: q.X.BigInt(new(big.Int)), Y: q.Y.BigInt(new(big.Int))}
}
func ToG1(p P1) (q bc.G1Affine) {
	if !p.Inf {
		q.X.SetBigInt(p.X)
		q.Y.SetBigInt(p.Y)
	}
	return
}

// Miller is f_{|x|,Q}(P)^(p^6), by the definition: the product of the lines of
// the double-and-add chain, the points of the twist taken to E(Fp12) by
// (x/w², y/w³). Points at infinity contribute one. Lines in verticals are left
// out, as the final exponentiation does away with them.
func Miller(p []P1, q []Pt) F12 {
	z := N2(0, 0)
	f := unflat([6]F2{N2(1, 0), z, z, z, z, z})
	n := new(big.Int).Abs(X)
	t := append([]Pt{}, q...)
	line := func(k int, b Pt) {
		l := F2{}
		switch a := t[k]; {
		case p[k].Inf || a.Inf || b.Inf:
			return
		case a.Eq(b):
			l = a.X.Mul(a.X).K(3).Mul(a.Y.K(2).Inv())
		case a.X.Eq(b.X):
			panic("vertical line")
		default:
			l = a.Y.Sub(b.Y).Mul(a.X.Sub(b.X).Inv())
		}
		xi := Xi.Inv()
		c := [6]F2{z, z, z, z, z, z}
		// yP - y/w³ - (l/w)(xP - x/w²), with 1/w = w⁵/ξ, 1/w³ = w³/ξ
		c[0] = M2(p[k].Y, new(big.Int))
		c[3] = l.Mul(t[k].X).Sub(t[k].Y).Mul(xi)
		c[5] = l.S(p[k].X).Mul(xi).Neg()
		f = f.Mul(unflat(c))
	}
	for i := n.BitLen() - 2; i >= 0; i-- {
		f = f.Mul(f)
		for k := range q {
			line(k, t[k])
			t[k] = t[k].Add(t[k])
			if n.Bit(i) == 1 {
				line(k, q[k])
				t[k] = t[k].Add(q[k])
			}
		}
	}
	return f.Conj()
}

// hard is 3(p⁴-p²+1)/r.
var hard = func() *big.Int {
	p2 := new(big.Int).Mul(P, P)
	e := new(big.Int).Mul(p2, p2)
	e.Sub(e, p2).Add(e, one).Mul(e, big.NewInt(3))
	q, m := new(big.Int).DivMod(e, R, new(big.Int))
	if m.Sign() != 0 {
		panic("r")
	}
	return q
}()

// FinalExp is x^(3(p¹²-1)/r).
func (x F12) FinalExp() F12 { return x.Cyc().Exp(hard) }

// Pair is the product of the pairings (cubed, as in gnark-crypto).
func Pairing(p []P1, q []Pt) F12 { return Miller(p, q).FinalExp() }
