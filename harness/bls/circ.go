package bls

import (
	"math/big"
	"strings"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/consensys/gnark-crypto/ecc"
	bc "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"

	"verif/harness/eng"
)

// the circuit side of the values

type (
	El = emulated.Element[pb.BLS12381Fp]
	F  = frontend.Variable
)

var (
	BN     = ecc.BN254.ScalarField()
	mask64 = new(big.Int).SetUint64(1<<64 - 1)
)

// Limbs are constants holding the 64-bit limbs of x.
func Limbs(x *big.Int) []F {
	r := make([]F, 6)
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), mask64)
	}
	return r
}

// W makes a witness element.
func W(e *eng.Engine, x *big.Int) El { return El{Limbs: e.Vals(Limbs(x))} }

// W2 is a witness of Fp2.
func W2(e *eng.Engine, x F2) pb.E2    { return pb.E2{A0: W(e, x.A), A1: W(e, x.B)} }
func W6(e *eng.Engine, x F6) pb.E6    { return pb.E6{B0: W2(e, x[0]), B1: W2(e, x[1]), B2: W2(e, x[2])} }
func W12(e *eng.Engine, x F12) pb.E12 { return pb.E12{C0: W6(e, x[0]), C1: W6(e, x[1])} }

// G reads an element back, modulo p.
func G(e *eng.Engine, x El) *big.Int {
	r := new(big.Int)
	for i := len(x.Limbs) - 1; i >= 0; i-- {
		v := e.Big(x.Limbs[i])
		// limbs may be small negative numbers in intermediate values
		if v.BitLen() > 200 {
			v = new(big.Int).Sub(v, e.Field())
		}
		r.Lsh(r, 64).Add(r, v)
	}
	return r.Mod(r, P)
}
func G2(e *eng.Engine, x pb.E2) F2    { return F2{G(e, x.A0), G(e, x.A1)} }
func G6(e *eng.Engine, x pb.E6) F6    { return F6{G2(e, x.B0), G2(e, x.B1), G2(e, x.B2)} }
func G12(e *eng.Engine, x pb.E12) F12 { return F12{G6(e, x.C0), G6(e, x.C1)} }

// From gnark-crypto's types.
func FromE2(x bc.E2) F2 {
	return F2{x.A0.BigInt(new(big.Int)), x.A1.BigInt(new(big.Int))}
}
func FromE12(x bc.GT) F12 {
	return F12{{FromE2(x.C0.B0), FromE2(x.C0.B1), FromE2(x.C0.B2)}, {FromE2(x.C1.B0), FromE2(x.C1.B1), FromE2(x.C1.B2)}}
}
func ToE2(x F2) (r bc.E2) { r.A0.SetBigInt(x.A); r.A1.SetBigInt(x.B); return }

// Deviations gives a HintFn: for multiplications the remainder plus p (with
// quotient and carries to match) where it still fits the width, and for every
// hint the first and last output plus one. kinds: bit 0 the former, bit 1 the latter.
func Deviations(kinds int) eng.HintFn {
	return func(name string, in, honest []*big.Int) (int, func(int) []*big.Int) {
		var alts [][]*big.Int
		if kinds&1 != 0 {
			if a := plusP(name, in, honest); a != nil {
				alts = append(alts, a)
			}
		}
		n := len(alts)
		if kinds&2 != 0 {
			n += 2
		}
		return n, func(k int) []*big.Int {
			if k < len(alts) {
				return alts[k]
			}
			o := append([]*big.Int(nil), honest...)
			j := 0
			if k > len(alts) {
				j = len(o) - 1
			}
			o[j] = new(big.Int).Add(o[j], one)
			return o
		}
	}
}

func rec(l []*big.Int) *big.Int {
	r := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		r.Lsh(r, 64).Add(r, l[i])
	}
	return r
}
func dec(x *big.Int, n int) []*big.Int {
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), mask64)
	}
	return r
}

// plusP rewrites an answer so that the result is represented by itself plus p.
func plusP(name string, in, honest []*big.Int) []*big.Int {
	short := name[strings.LastIndex(name, ".")+1:]
	switch short {
	case "RemHint", "InverseHint", "DivHint":
		x := new(big.Int).Add(rec(honest), P)
		if x.BitLen() > 381 {
			return nil
		}
		return dec(x, len(honest))
	case "mulHint":
		nl := 6
		if in[1].Int64() != 6 || in[0].Int64() != 64 {
			return nil
		}
		p, a, b := in[2:2+nl], in[2+nl:2+2*nl], in[2+2*nl:2+3*nl]
		nq := (len(honest) - 2*nl + 2) / 2
		quo, rem := rec(honest[:nq]), rec(honest[nq:nq+nl])
		rem = new(big.Int).Add(rem, P)
		quo = new(big.Int).Sub(quo, one)
		if rem.BitLen() > 381 || quo.Sign() < 0 {
			return nil
		}
		q, r := dec(quo, nq), dec(rem, nl)
		n := nl + nq - 1
		xp, yp := make([]*big.Int, n), make([]*big.Int, n)
		for i := range xp {
			xp[i], yp[i] = new(big.Int), new(big.Int)
		}
		t := new(big.Int)
		for i := 0; i < nl; i++ {
			for j := 0; j < nl; j++ {
				xp[i+j].Add(xp[i+j], t.Mul(a[i], b[j]))
			}
			yp[i].Add(yp[i], r[i])
			for j := 0; j < nq; j++ {
				yp[i+j].Add(yp[i+j], t.Mul(q[j], p[i]))
			}
		}
		out := append(append([]*big.Int{}, q...), r...)
		c := new(big.Int)
		for i := 0; i < nl+nq-2; i++ {
			c.Add(c, xp[i])
			c.Sub(c, yp[i])
			c.Rsh(c, 64)
			out = append(out, new(big.Int).Set(c))
		}
		return out
	}
	return nil
}
