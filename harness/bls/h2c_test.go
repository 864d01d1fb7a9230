package bls

import (
	"testing"

	bc "github.com/consensys/gnark-crypto/ecc/bls12-381"
)

func TestH2C(t *testing.T) {
	dst := []byte("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_")
	for i := 0; i < 20; i++ {
		m := []byte{byte(i), 1, 2}
		a, _ := bc.HashToG2(m, dst)
		b, _ := bc.EncodeToG2(m, dst)
		if !FromG2(a).Eq(Hash(m, dst)) || !FromG2(b).Eq(Encode(m, dst)) {
			t.Fatal(i)
		}
	}
	for _, u := range []F2{N2(0, 0), N2(0, 1), N2(1, 0), N2(0, 2), N2(-1, 0)} {
		if !FromG2(bc.MapToG2(ToE2(u))).Eq(MapToCurve(u).Mul(HEff)) {
			t.Fatal(u)
		}
	}
}
