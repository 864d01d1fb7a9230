package bls

import (
	"fmt"
	"math/big"

	pb "github.com/brevis-network/zk-utils/circuits/gadgets/pairing_bls12381"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"

	"verif/harness/eng"
	"verif/harness/mc"
)

// Sess is one run of a circuit; the first mismatch with the reference is kept.
type Sess struct {
	E   *eng.Engine
	Fp  *emulated.Field[pb.BLS12381Fp]
	Api frontend.API
	Bad string
}

// Run runs fn in one circuit. ch and alt, when given, choose hint answers.
func Run(c *mc.Ctx, ch *eng.Path, alt eng.HintFn, fn func(s *Sess)) (*Sess, eng.Result) {
	s := &Sess{E: eng.New(BN)}
	if ch != nil {
		s.E.Ch, s.E.Alt = ch, alt
	}
	r := s.E.Run(func(api frontend.API) error {
		fp, err := emulated.NewField[pb.BLS12381Fp](api)
		if err != nil {
			return err
		}
		s.Fp, s.Api = fp, api
		fn(s)
		return nil
	})
	c.State(1)
	c.Trans(int(s.E.Ops))
	return s, r
}

// With: the circuit must be satisfied and give the right values.
func With(c *mc.Ctx, fn func(s *Sess)) string {
	s, r := Run(c, nil, nil, fn)
	if s.Bad != "" {
		return s.Bad
	}
	if !r.OK {
		return r.String()
	}
	return ""
}

// Never: whatever the circuit does for the honest prover, it does not accept a
// wrong value and does not crash.
func Never(c *mc.Ctx, fn func(s *Sess)) string {
	s, r := Run(c, nil, nil, fn)
	if r.Panic != "" {
		return r.String()
	}
	if r.OK && s.Bad != "" {
		return "accepted: " + s.Bad
	}
	return ""
}

// Adversary runs fn under every path of at most one deviating hint answer: no
// accepted run has a wrong value.
func Adversary(c *mc.Ctx, kinds int, fn func(s *Sess)) string {
	path := &eng.Path{MaxDev: 1}
	alt := Deviations(kinds)
	for {
		s, r := Run(c, path, alt, fn)
		if r.Panic != "" {
			return r.String()
		}
		if r.OK && s.Bad != "" {
			return fmt.Sprintf("a wrong result passes with hint answers %v: %s", path.Choices(), s.Bad)
		}
		if !path.Next() {
			return ""
		}
	}
}

func (s *Sess) C2(n string, got *pb.E2, want F2) {
	if s.Bad == "" {
		if g := G2(s.E, *got); !g.Eq(want) {
			s.Bad = fmt.Sprintf("%s: got %v want %v", n, g, want)
		}
	}
}

func (s *Sess) C12(n string, got *pb.E12, want F12) {
	if s.Bad == "" {
		if g := G12(s.E, *got); !g.Eq(want) {
			s.Bad = fmt.Sprintf("%s: got %v want %v", n, g, want)
		}
	}
}

func (s *Sess) Bit(n string, got frontend.Variable, want bool) {
	if s.Bad == "" {
		w := int64(0)
		if want {
			w = 1
		}
		if g := s.E.Big(got); g.Cmp(big.NewInt(w)) != 0 {
			s.Bad = fmt.Sprintf("%s: got %v want %v", n, g, w)
		}
	}
}

var two50 = new(big.Int).Lsh(one, 50)

// NRep ways to represent a field element.
const NRep = 5

func (s *Sess) Rep(x *big.Int, k int) El {
	switch k {
	case 1: // a lazy difference
		t := big.NewInt(987654321)
		a, b := W(s.E, mod(new(big.Int).Add(x, t))), W(s.E, t)
		return *s.Fp.Sub(&a, &b)
	case 2: // much overflow
		i := new(big.Int).ModInverse(two50, P)
		a := W(s.E, mod(i.Mul(i, x)))
		return *s.Fp.MulConst(&a, two50)
	case 3: // a constant
		return emulated.ValueOf[pb.BLS12381Fp](x)
	case 4: // unreduced, where it fits the width
		if y := new(big.Int).Add(x, P); y.BitLen() <= 381 {
			return W(s.E, y)
		}
	}
	return W(s.E, x)
}
func (s *Sess) Rep2(x F2, k int) pb.E2 { return pb.E2{A0: s.Rep(x.A, k), A1: s.Rep(x.B, k)} }

// NJac ways to represent a point in Jacobian coordinates.
const NJac = 4

// jacZ are the denominators used: one, a generic one, minus one, a lazy one.
var jacZ = []F2{N2(1, 0), M2(new(big.Int).Exp(big.NewInt(3), big.NewInt(200), P), big.NewInt(77)), N2(-1, 0), N2(0, 5)}

func (s *Sess) Jac(p Pt, k int) pb.G2Jacobian {
	z := jacZ[k]
	rep := 0
	if k == 3 {
		rep = 1
	}
	x, y := p.X, p.Y
	if p.Inf {
		x, y = N2(1, 0), N2(1, 0)
		if k == 1 {
			x, y = N2(25, 0), N2(125, 0)
		}
		return pb.G2Jacobian{X: s.Rep2(x, rep), Y: s.Rep2(y, rep), Z: s.Rep2(N2(0, 0), rep)}
	}
	z2 := z.Mul(z)
	return pb.G2Jacobian{X: s.Rep2(x.Mul(z2), rep), Y: s.Rep2(y.Mul(z2).Mul(z), rep), Z: s.Rep2(z, rep)}
}

// Aff gives the affine form; infinity is (0, 0).
func (s *Sess) Aff(p Pt, rep int) pb.G2Affine {
	x, y := p.X, p.Y
	if p.Inf {
		x, y = N2(0, 0), N2(0, 0)
	}
	return pb.G2Affine{X: s.Rep2(x, rep), Y: s.Rep2(y, rep)}
}

func (s *Sess) GJac(q pb.G2Jacobian) Pt {
	z := G2(s.E, q.Z)
	if z.IsZero() {
		return O
	}
	i := z.Inv()
	i2 := i.Mul(i)
	return Pt{X: G2(s.E, q.X).Mul(i2), Y: G2(s.E, q.Y).Mul(i2).Mul(i)}
}
func (s *Sess) GAff(q pb.G2Affine) Pt {
	p := Pt{X: G2(s.E, q.X), Y: G2(s.E, q.Y)}
	if p.X.IsZero() && p.Y.IsZero() {
		return O
	}
	return p
}

func (s *Sess) CJac(n string, q pb.G2Jacobian, want Pt) {
	if s.Bad == "" {
		if g := s.GJac(q); !g.Eq(want) {
			s.Bad = fmt.Sprintf("%s: got %v want %v", n, g, want)
		}
	}
}
func (s *Sess) CAff(n string, q *pb.G2Affine, want Pt) {
	if s.Bad == "" {
		if g := s.GAff(*q); !g.Eq(want) {
			s.Bad = fmt.Sprintf("%s: got %v want %v", n, g, want)
		}
	}
}
