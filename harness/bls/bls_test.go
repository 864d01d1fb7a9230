package bls

import (
	"math/big"
	"testing"
)

func TestT(t *testing.T) {
	x := F12{{N2(3, 5), N2(7, 11), N2(13, 17)}, {N2(19, 23), N2(29, 31), N2(-3, 37)}}
	if !x.Exp(P).Eq(x.Frob(1)) || !x.Exp(new(big.Int).Mul(P, P)).Eq(x.Frob(2)) || !x.Frob(2).Frob(1).Eq(x.Frob(3)) || !x.Mul(x.Inv()).Eq(One12) {
		t.Fatal()
	}
	s, ok := N2(5, 9).Mul(N2(5, 9)).Sqrt()
	if !ok || !(s.Eq(N2(5, 9)) || s.Eq(N2(5, 9).Neg())) {
		t.Fatal(s)
	}
}
