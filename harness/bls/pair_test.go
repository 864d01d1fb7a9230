package bls

import (
	"testing"

	bc "github.com/consensys/gnark-crypto/ecc/bls12-381"
)

func TestPair(t *testing.T) {
	p := []P1{G1At(3), G1At(-7)}
	q := []Pt{G2At(5), G2At(11)}
	m, _ := bc.MillerLoop([]bc.G1Affine{ToG1(p[0]), ToG1(p[1])}, []bc.G2Affine{ToG2(q[0]), ToG2(q[1])})
	t.Log("miller equal", FromE12(m).Eq(Miller(p, q)))
	if !FromE12(bc.FinalExponentiation(&m)).Eq(FromE12(m).FinalExp()) {
		t.Fatal("fe")
	}
	if !FromE12(bc.FinalExponentiation(&m)).Eq(Pairing(p, q)) {
		t.Fatal("pair")
	}
}
