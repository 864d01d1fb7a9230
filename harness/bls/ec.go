package bls

import (
	"math/big"

	bc "github.com/consensys/gnark-crypto/ecc/bls12-381"
)

// B is the coefficient of the twist y² = x³ + 4(1+u).
var B = N2(4, 4)

// H2 is the cofactor of the twist, HEff RFC 9380's effective cofactor for G2.
var (
	H2      = new(big.Int)
	HEff, _ = new(big.Int).SetString("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551", 16)
)

func init() {
	x := new(big.Int).Neg(X)
	pw := func(k int64) *big.Int { return new(big.Int).Exp(x, big.NewInt(k), nil) }
	for k, c := range map[int64]int64{8: 1, 7: -4, 6: 5, 4: -4, 3: 6, 2: -4, 1: -4, 0: 13} {
		H2.Add(H2, new(big.Int).Mul(big.NewInt(c), pw(k)))
	}
	H2.Div(H2, big.NewInt(9))
}

// Pt is a point of the twist; Inf excludes the coordinates.
type Pt struct {
	X, Y F2
	Inf  bool
}

var O = Pt{X: N2(0, 0), Y: N2(0, 0), Inf: true}

func (p Pt) String() string {
	if p.Inf {
		return "O"
	}
	s, y := p.X.String(), p.Y.A.Text(16)
	if len(s) > 20 {
		s = s[:14] + "…" + s[len(s)-6:]
	}
	if len(y) > 6 {
		y = y[:6]
	}
	return s + "/" + y
}
func (p Pt) Eq(q Pt) bool {
	return p.Inf == q.Inf && (p.Inf || p.X.Eq(q.X) && p.Y.Eq(q.Y))
}
func (p Pt) On() bool { return p.Inf || p.Y.Mul(p.Y).Eq(p.X.Mul(p.X).Mul(p.X).Add(B)) }
func (p Pt) Neg() Pt {
	if p.Inf {
		return p
	}
	return Pt{X: p.X, Y: p.Y.Neg()}
}

// Add is the chord-and-tangent law with all its cases.
func (p Pt) Add(q Pt) Pt {
	switch {
	case p.Inf:
		return q
	case q.Inf:
		return p
	}
	var l F2
	if p.X.Eq(q.X) {
		if !p.Y.Eq(q.Y) || p.Y.IsZero() {
			return O
		}
		l = p.X.Mul(p.X).K(3).Mul(p.Y.K(2).Inv())
	} else {
		l = q.Y.Sub(p.Y).Mul(q.X.Sub(p.X).Inv())
	}
	x := l.Mul(l).Sub(p.X).Sub(q.X)
	return Pt{X: x, Y: l.Mul(p.X.Sub(x)).Sub(p.Y)}
}

func (p Pt) Sub(q Pt) Pt { return p.Add(q.Neg()) }

func (p Pt) Mul(k *big.Int) Pt {
	if k.Sign() < 0 {
		return p.Neg().Mul(new(big.Int).Neg(k))
	}
	r := O
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(p)
		}
	}
	return r
}

// Psi is untwist, Frobenius, twist: with x = x'/w², y = y'/w³.
var psiX, psiY = Xi.Exp(div(P, 3)).Inv(), Xi.Exp(div(P, 2)).Inv()

func div(p *big.Int, k int64) *big.Int {
	return new(big.Int).Div(new(big.Int).Sub(p, one), big.NewInt(k))
}

func (p Pt) Psi() Pt {
	if p.Inf {
		return p
	}
	return Pt{X: p.X.Conj().Mul(psiX), Y: p.Y.Conj().Mul(psiY)}
}

// Lambda is the eigenvalue of the third-root endomorphism on the subgroup.
var Lambda = new(big.Int).Sub(new(big.Int).Mul(X, X), one)

// Near is the first curve point at or after x = (i, 1), of full order or not as
// it comes.
func Near(i int64) Pt {
	for ; ; i++ {
		x := N2(i, 1)
		if y, ok := x.Mul(x).Mul(x).Add(B).Sqrt(); ok {
			return Pt{X: x, Y: y}
		}
	}
}

// OfOrder gives a point of prime order n dividing the cofactor.
func OfOrder(n int64) Pt {
	all := new(big.Int).Mul(H2, R)
	k := new(big.Int)
	for i := int64(3); ; i += 7 {
		m := new(big.Int).Set(all)
		for {
			var r big.Int
			k.DivMod(m, big.NewInt(n), &r)
			if r.Sign() != 0 {
				break
			}
			m.Set(k)
		}
		p := Near(i).Mul(m)
		if p.Inf {
			continue
		}
		for !p.Mul(big.NewInt(n)).Inf {
			p = p.Mul(big.NewInt(n))
		}
		return p
	}
}

// Gen is the standard generator of G2.
var Gen = func() Pt {
	_, _, _, g := bc.Generators()
	return FromG2(g)
}()

func FromG2(g bc.G2Affine) Pt {
	p := Pt{X: FromE2(g.X), Y: FromE2(g.Y)}
	if p.X.IsZero() && p.Y.IsZero() {
		return O
	}
	return p
}

func ToG2(p Pt) (g bc.G2Affine) {
	if !p.Inf {
		g.X, g.Y = ToE2(p.X), ToE2(p.Y)
	}
	return
}
