// Package ed is an independent reference for edwards25519 over math/big: the
// complete affine group law, the encoding of RFC 8032 and the signature scheme.
package ed

import (
	"crypto/sha512"
	"math/big"
)

var (
	P, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	L, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	D    = Mul(big.NewInt(-121665), Inv(big.NewInt(121666)))
	// I is a square root of -1: 2^((p-1)/4)
	I = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(1)), 2), P)
	B = base()
)

type Pt struct{ X, Y *big.Int }

func Mod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, P) }
func Add(a, b *big.Int) *big.Int { return Mod(new(big.Int).Add(a, b)) }
func Sub(a, b *big.Int) *big.Int { return Mod(new(big.Int).Sub(a, b)) }
func Mul(a, b *big.Int) *big.Int { return Mod(new(big.Int).Mul(a, b)) }
func Inv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(Mod(a), P) }
func Neg(a *big.Int) *big.Int    { return Mod(new(big.Int).Neg(a)) }

// Sqrt returns a square root or nil.
func Sqrt(a *big.Int) *big.Int { return new(big.Int).ModSqrt(Mod(a), P) }

func base() Pt {
	p, ok := FromY(Mul(big.NewInt(4), Inv(big.NewInt(5))), 0)
	if !ok {
		panic("base")
	}
	return p
}

// FromY returns the point with the given y and parity of x.
func FromY(y *big.Int, sign uint) (Pt, bool) {
	yy := Mul(y, y)
	u := Sub(yy, big.NewInt(1))
	v := Add(Mul(D, yy), big.NewInt(1))
	x := Sqrt(Mul(u, Inv(v)))
	if x == nil {
		return Pt{}, false
	}
	if x.Bit(0) != sign {
		if x.Sign() == 0 {
			return Pt{}, false
		}
		x = Neg(x)
	}
	return Pt{x, Mod(y)}, true
}

func (a Pt) OnCurve() bool {
	xx, yy := Mul(a.X, a.X), Mul(a.Y, a.Y)
	return Sub(yy, xx).Cmp(Add(big.NewInt(1), Mul(D, Mul(xx, yy)))) == 0
}
func (a Pt) Eq(b Pt) bool { return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0 }
func (a Pt) Neg() Pt      { return Pt{Neg(a.X), a.Y} }

// Add is the complete addition law for a = -1.
func (a Pt) Add(b Pt) Pt {
	x1y2, y1x2 := Mul(a.X, b.Y), Mul(a.Y, b.X)
	yy, xx := Mul(a.Y, b.Y), Mul(a.X, b.X)
	k := Mul(D, Mul(x1y2, y1x2))
	one := big.NewInt(1)
	return Pt{Mul(Add(x1y2, y1x2), Inv(Add(one, k))), Mul(Add(yy, xx), Inv(Sub(one, k)))}
}

var Id = Pt{big.NewInt(0), big.NewInt(1)}

// extended coordinates for fast multiplication
type ext struct{ x, y, z, t *big.Int }

func (a Pt) ext() ext { return ext{a.X, a.Y, big.NewInt(1), Mul(a.X, a.Y)} }
func (a ext) add(b ext) ext {
	A, Bb := Mul(Sub(a.y, a.x), Sub(b.y, b.x)), Mul(Add(a.y, a.x), Add(b.y, b.x))
	C, Dd := Mul(Mul(a.t, b.t), Add(D, D)), Mul(Add(a.z, a.z), b.z)
	E, F, G, H := Sub(Bb, A), Sub(Dd, C), Add(Dd, C), Add(Bb, A)
	return ext{Mul(E, F), Mul(G, H), Mul(F, G), Mul(E, H)}
}
func (a ext) aff() Pt { z := Inv(a.z); return Pt{Mul(a.x, z), Mul(a.y, z)} }

// Mul computes [k]a for k >= 0.
func (a Pt) Mul(k *big.Int) Pt {
	r, b := Id.ext(), a.ext()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(b)
		}
	}
	return r.aff()
}

// Torsion returns the 8 points of small order.
func Torsion() []Pt {
	// [L] of any point is in the torsion subgroup; look for one of order 8
	for y := int64(2); ; y++ {
		p, ok := FromY(big.NewInt(y), 0)
		if !ok {
			continue
		}
		t := p.Mul(L)
		if !t.Mul(big.NewInt(4)).Eq(Id) {
			r := []Pt{Id}
			for i := 1; i < 8; i++ {
				r = append(r, r[i-1].Add(t))
			}
			return r
		}
	}
}

func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// LE gives n little-endian bytes.
func LE(x *big.Int, n int) []byte { return rev(x.FillBytes(make([]byte, n))) }
func FromLE(b []byte) *big.Int    { return new(big.Int).SetBytes(rev(b)) }

func (a Pt) Bytes() []byte {
	r := LE(a.Y, 32)
	r[31] |= byte(a.X.Bit(0)) << 7
	return r
}

// Decode follows RFC 8032 5.1.3 but also reports whether the encoding is canonical.
func Decode(b []byte) (p Pt, canonical, ok bool) {
	c := append([]byte(nil), b...)
	s := uint(c[31] >> 7)
	c[31] &= 127
	y := FromLE(c)
	canonical = y.Cmp(P) < 0
	y = Mod(y)
	p, ok = FromY(y, s)
	if !ok && s == 1 {
		// x = 0 with the sign bit set
		if q, k := FromY(y, 0); k && q.X.Sign() == 0 {
			return q, false, true
		}
	}
	return
}

// Hram is SHA-512(R || A || M) mod L.
func Hram(r, a, m []byte) *big.Int {
	h := sha512.New()
	h.Write(r)
	h.Write(a)
	h.Write(m)
	return new(big.Int).Mod(FromLE(h.Sum(nil)), L)
}
