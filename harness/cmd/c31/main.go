// C31: in-circuit Ed25519 verification against RFC 8032.
package main

import (
	"crypto/ed25519"
	"fmt"
	"math/big"

	ced "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"

	"verif/harness/ed"
	"verif/harness/eng"
	"verif/harness/mc"
)

type F = frontend.Variable

func main() {
	mc.Main(mc.Meta{Prop: "C31",
		Rule:        "genuine signatures over message patterns and keys, also with every small-order component in R or the key (accepted); for one signature every byte of the message and of the key, every limb of both points, and scalar bits altered in turn, every signature part exchanged with another signature's, every multiple of the group order added to the scalar, non-canonical coordinates, and signatures constructed from points off the curve (all rejected)",
		Assumptions: []string{"Go's crypto/ed25519 produces the genuine signatures", "altering one byte by one bit stands for every alteration of that byte (SHA-512 mixes it)"},
	}, run)
}

var one = big.NewInt(1)
var bn = ecc.BN254.ScalarField()

// wit is everything a prover assigns.
type wit struct {
	pub            [2]*big.Int
	msg            [5]*big.Int
	rx, ry, ax, ay []*big.Int // 51-bit limbs
	s              *big.Int
}

func limbs(x *big.Int) []*big.Int {
	m := new(big.Int).SetUint64(1<<51 - 1)
	r := make([]*big.Int, 5)
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(51*i)), m)
	}
	return r
}
func packMsg(m []byte) (r [5]*big.Int) {
	for i := range r {
		r[i] = new(big.Int).SetBytes(m[i*25 : min(len(m), (i+1)*25)])
	}
	return
}
func packPub(p []byte) [2]*big.Int {
	return [2]*big.Int{new(big.Int).SetBytes(p[:16]), new(big.Int).SetBytes(p[16:])}
}

func mk(pub, msg []byte, r, a ed.Pt, s *big.Int) *wit {
	return &wit{packPub(pub), packMsg(msg), limbs(r.X), limbs(r.Y), limbs(a.X), limbs(a.Y), s}
}
func (w *wit) clone() *wit {
	c := *w
	cp := func(l []*big.Int) []*big.Int { return append([]*big.Int(nil), l...) }
	c.rx, c.ry, c.ax, c.ay = cp(w.rx), cp(w.ry), cp(w.ax), cp(w.ay)
	return &c
}

func verify(c *mc.Ctx, w *wit) eng.Result {
	e := eng.New(bn)
	el := func(l []*big.Int) emulated.Element[ced.Ed25519Fp] {
		v := make([]F, len(l))
		for i := range l {
			v[i] = e.Val(l[i])
		}
		return emulated.Element[ced.Ed25519Fp]{Limbs: v}
	}
	r := e.Run(func(api frontend.API) error {
		v, err := ced.NewEd25519(api)
		if err != nil {
			return err
		}
		var msg [5]F
		for i := range msg {
			msg[i] = e.Val(w.msg[i])
		}
		return v.Verify([]F{e.Val(w.pub[0]), e.Val(w.pub[1])},
			ced.Signature{R: ced.Point{X: el(w.rx), Y: el(w.ry)}, S: e.Val(w.s)}, msg,
			ced.PublicKey{A: ced.Point{X: el(w.ax), Y: el(w.ay)}})
	})
	c.State(1)
	c.Trans(int(e.Ops))
	return r
}

func key(seed byte) ed25519.PrivateKey {
	b := make([]byte, 32)
	for i := range b {
		b[i] = seed + byte(i)*seed
	}
	return ed25519.NewKeyFromSeed(b)
}

func sign(k ed25519.PrivateKey, msg []byte) *wit {
	sg := ed25519.Sign(k, msg)
	pub := k.Public().(ed25519.PublicKey)
	r, _, ok := ed.Decode(sg[:32])
	a, _, ok2 := ed.Decode(pub)
	if !ok || !ok2 {
		panic("reference cannot decode a genuine signature")
	}
	return mk(pub, msg, r, a, ed.FromLE(sg[32:]))
}

func message(k int) []byte {
	m := make([]byte, 122)
	for i := range m {
		switch k {
		case 0:
			m[i] = 0
		case 1:
			m[i] = 0xff
		default:
			m[i] = byte(i*k + k)
		}
	}
	return m
}

// forge makes a "signature" by nobody: R is a pair of coordinates off the curve
// for which the addition formula gives a point that doubles into the identity.
func forge(pub, msg []byte, a ed.Pt, s *big.Int) *wit {
	for y0 := int64(2); ; y0++ {
		y := big.NewInt(y0)
		for sign := uint(0); sign < 2; sign++ {
			rb := ed.LE(y, 32)
			rb[31] |= byte(sign) << 7
			h := ed.Hram(rb, pub, msg)
			q := ed.B.Mul(s).Add(a.Neg().Mul(h)).Neg()
			k := ed.Mul(ed.D, ed.Mul(y, ed.Mul(q.X, q.Y)))
			for _, i := range []*big.Int{ed.I, ed.Neg(ed.I)} {
				qa := ed.Mul(k, ed.Add(q.X, ed.Mul(i, q.Y)))
				qb := ed.Sub(ed.Add(q.X, ed.Mul(k, ed.Mul(y, q.Y))), ed.Mul(i, ed.Sub(q.Y, ed.Mul(k, ed.Mul(y, q.X)))))
				qc := ed.Mul(y, ed.Sub(q.Y, ed.Mul(i, q.X)))
				d := ed.Sqrt(ed.Sub(ed.Mul(qb, qb), ed.Mul(big.NewInt(4), ed.Mul(qa, qc))))
				if d == nil || qa.Sign() == 0 {
					continue
				}
				for _, dd := range []*big.Int{d, ed.Neg(d)} {
					x := ed.Mul(ed.Sub(dd, qb), ed.Inv(ed.Add(qa, qa)))
					if x.Bit(0) == sign && !(ed.Pt{X: x, Y: y}).OnCurve() {
						return mk(pub, msg, ed.Pt{X: x, Y: y}, a, s)
					}
				}
			}
		}
	}
}

type kase struct {
	n string
	w *wit
}

func run(c *mc.Ctx) {
	var good []kase
	for k := 1; k <= mc.Pick(c, 2, 8); k++ {
		for m := 0; m < 4; m++ {
			good = append(good, kase{fmt.Sprintf("key %d message %d", k, m), sign(key(byte(k*37)), message(m+(k-1)*m))})
		}
	}
	// keys and nonces whose points have both x parities and the extreme scalars
	{
		// nonce 0: R is the identity; nonce 1: R is the generator; secret scalars 1 and L-1
		for _, sk := range []*big.Int{one, new(big.Int).Sub(ed.L, one), big.NewInt(2)} {
			for _, nk := range []*big.Int{new(big.Int), one, new(big.Int).Sub(ed.L, one)} {
				a, r := ed.B.Mul(sk), ed.B.Mul(nk)
				msg := message(9)
				h := ed.Hram(r.Bytes(), a.Bytes(), msg)
				s := new(big.Int).Mul(h, sk)
				s.Add(s, nk).Mod(s, ed.L)
				good = append(good, kase{fmt.Sprintf("secret %v nonce %v", sk, nk), mk(a.Bytes(), msg, r, a, s)})
			}
		}
	}
	// RFC 8032's equation is multiplied by the cofactor: points may have a small-order component
	tor := torsion()
	for i := 1; i < 8; i++ {
		for _, on := range mc.Pick(c, []int{1 + i%3}, []int{1, 2, 3}) {
			sk, nk := big.NewInt(int64(1000+i)), big.NewInt(int64(77*i))
			a, r := ed.B.Mul(sk), ed.B.Mul(nk)
			if on&1 != 0 {
				r = r.Add(tor[i])
			}
			if on&2 != 0 {
				a = a.Add(tor[(3*i)%8])
			}
			msg := message(11)
			h := ed.Hram(r.Bytes(), a.Bytes(), msg)
			s := new(big.Int).Mul(h, sk)
			s.Add(s, nk).Mod(s, ed.L)
			good = append(good, kase{fmt.Sprintf("torsion component %d in %d", i, on), mk(a.Bytes(), msg, r, a, s)})
		}
	}
	c.Each("genuine", len(good), func(i int) string { return good[i].n }, func(i int) string {
		if r := verify(c, good[i].w); !r.OK {
			return r.String()
		}
		return ""
	})

	var bad []kase
	add := func(n string, w *wit) { bad = append(bad, kase{n, w}) }
	k1, msg := key(37), message(3)
	pub := []byte(k1.Public().(ed25519.PublicKey))
	g := sign(k1, msg)
	base := func() *wit { return g.clone() }
	for i := 0; i < 122; i++ {
		for _, bit := range mc.Pick(c, []int{i % 8}, []int{0, 7, (i*3 + 1) % 8}) {
			m := append([]byte(nil), msg...)
			m[i] ^= 1 << bit
			w := base()
			w.msg = packMsg(m)
			add(fmt.Sprintf("message byte %d bit %d", i, bit), w)
		}
	}
	for i := 0; i < 5; i++ {
		w := base()
		lim := uint(200)
		if i == 4 {
			lim = 176
		}
		w.msg[i] = new(big.Int).Add(w.msg[i], new(big.Int).Lsh(one, lim))
		add(fmt.Sprintf("message variable %d too wide", i), w)
	}
	for i := 0; i < 2; i++ {
		w := base()
		w.pub[i] = new(big.Int).Add(w.pub[i], new(big.Int).Lsh(one, 128))
		add(fmt.Sprintf("key half %d too wide", i), w)
	}
	for i := 0; i < 256; i++ {
		p := append([]byte(nil), pub...)
		p[i/8] ^= 1 << (i % 8)
		w := base()
		w.pub = packPub(p)
		add(fmt.Sprintf("key bit %d, point unchanged", i), w)
		// the same with the point the altered bytes stand for (when there is one)
		if a, can, ok := ed.Decode(p); ok && can && (i%16 == 7 || i > 250 || c.Thorough()) {
			w := base()
			w.pub = packPub(p)
			w.ax, w.ay = limbs(a.X), limbs(a.Y)
			add(fmt.Sprintf("key bit %d, its own point", i), w)
		}
	}
	// coordinates, limb by limb
	for l := 0; l < 5; l++ {
		for _, bit := range mc.Pick(c, []uint{0, 47}, []uint{0, 1, 25, 47}) {
			for k := 0; k < 4; k++ {
				w := base()
				t := [][]*big.Int{w.rx, w.ry, w.ax, w.ay}[k]
				t[l] = new(big.Int).Xor(t[l], new(big.Int).Lsh(one, bit))
				add(fmt.Sprintf("coordinate %d limb %d bit %d", k, l, bit), w)
			}
		}
	}
	// scalar
	for i := uint(0); i < 253; i += mc.Pick(c, uint(7), uint(1)) {
		w := base()
		w.s = new(big.Int).Xor(w.s, new(big.Int).Lsh(one, i))
		add(fmt.Sprintf("scalar bit %d", i), w)
	}
	for k := int64(1); ; k++ {
		s := new(big.Int).Add(g.s, new(big.Int).Mul(ed.L, big.NewInt(k)))
		if s.Cmp(bn) >= 0 {
			break
		}
		w := base()
		w.s = s
		add(fmt.Sprintf("scalar plus %d times the group order", k), w)
	}
	for _, s := range []*big.Int{new(big.Int), one, new(big.Int).Sub(ed.L, g.s), new(big.Int).Sub(bn, g.s)} {
		w := base()
		w.s = s
		add("scalar replaced by "+s.Text(16), w)
	}
	// parts of other signatures
	g2 := sign(k1, message(4))
	g3 := sign(key(74), msg)
	for i, o := range []*wit{g2, g3} {
		for m := 1; m < 31; m++ {
			if i == 0 && m&24 != 0 { // same key in both
				continue
			}
			w := base()
			var n string
			if m&1 != 0 {
				w.rx, w.ry, n = o.rx, o.ry, n+" R"
			}
			if m&2 != 0 {
				w.s, n = o.s, n+" S"
			}
			if m&4 != 0 {
				if i == 1 {
					continue // same message in both
				}
				w.msg, n = o.msg, n+" message"
			}
			if m&8 != 0 {
				w.pub, n = o.pub, n+" key"
			}
			if m&16 != 0 {
				w.ax, w.ay, n = o.ax, o.ay, n+" key point"
			}
			if m == 7 && i == 0 || m == 27 && i == 1 { // the whole other signature
				continue
			}
			add(fmt.Sprintf("from signature %d:%s", i, n), w)
		}
	}
	// negated points with the same bytes, and with the bytes of the negated point
	a, _, _ := ed.Decode(pub)
	r := ed.Pt{X: val(g.rx), Y: val(g.ry)}
	{
		w := base()
		w.rx = limbs(ed.Neg(r.X))
		add("R negated", w)
		w = base()
		w.ax = limbs(ed.Neg(a.X))
		add("key point negated, bytes unchanged", w)
		w = base()
		w.ax = limbs(ed.Neg(a.X))
		w.pub = packPub(a.Neg().Bytes())
		add("key negated", w)
		w = base()
		w.rx, w.ry = limbs(a.X), limbs(a.Y)
		add("R replaced by the key", w)
		w = base()
		w.rx, w.ry, w.s = limbs(ed.Id.X), limbs(ed.Id.Y), new(big.Int)
		add("identity and zero", w)
		w = base()
		w.rx, w.ry = limbs(big.NewInt(0)), limbs(big.NewInt(0))
		add("R is (0,0)", w)
	}
	// a scalar that is exactly a multiple of the order, with points for which everything else holds
	for k := int64(1); k < 4; k++ {
		add(fmt.Sprintf("S is %d times the order, R and key the identity", k), mk(ed.Id.Bytes(), msg, ed.Id, ed.Id, new(big.Int).Mul(ed.L, big.NewInt(k))))
	}
	// points off the curve
	for _, s := range []*big.Int{new(big.Int), one, g.s} {
		add("forged with R off the curve, S="+s.Text(16), forge(pub, msg, a, s))
		p3 := key(74).Public().(ed25519.PublicKey)
		a3, _, _ := ed.Decode(p3)
		add("forged for another key, S="+s.Text(16), forge(p3, message(1), a3, s))
	}
	// coordinates that are not reduced change the encoding that is hashed
	{
		// R = (p, 1): the identity with the sign bit set, which RFC 8032 does not decode
		sk := big.NewInt(7)
		a := ed.B.Mul(sk)
		for _, v := range []struct {
			n    string
			x, y *big.Int
		}{{"x", ed.P, one}, {"y", new(big.Int), new(big.Int).Add(ed.P, one)}, {"x and y", ed.P, new(big.Int).Add(ed.P, one)}} {
			rb := ed.LE(v.y, 32)
			rb[31] |= byte(v.x.Bit(0)) << 7
			h := ed.Hram(rb, a.Bytes(), msg)
			s := new(big.Int).Mul(h, sk)
			s.Mod(s, ed.L)
			w := mk(a.Bytes(), msg, ed.Id, a, s)
			w.rx, w.ry = limbs(v.x), limbs(v.y)
			add("R with unreduced "+v.n, w)
			// the same for the key
			rr := ed.B.Mul(sk)
			h = ed.Hram(rr.Bytes(), rb, msg)
			w = mk(rb, msg, rr, ed.Id, sk)
			w.ax, w.ay = limbs(v.x), limbs(v.y)
			add("key with unreduced "+v.n, w)
			_ = h
		}
	}
	c.Each("altered", len(bad), func(i int) string { return bad[i].n }, func(i int) string {
		r := verify(c, bad[i].w)
		if r.OK {
			return "accepted"
		}
		if r.Panic != "" {
			return r.String()
		}
		return ""
	})
}

// torsion lists the multiples of a point of order eight.
func torsion() (r [8]ed.Pt) {
	for y := int64(2); ; y++ {
		b := ed.LE(big.NewInt(y), 32)
		p, _, ok := ed.Decode(b)
		if !ok {
			continue
		}
		t := p.Mul(ed.L)
		if u := t.Mul(big.NewInt(4)); u.X.Sign() == 0 && u.Y.Cmp(one) == 0 {
			continue // its order divides four
		}
		for i := range r {
			r[i] = t.Mul(big.NewInt(int64(i)))
		}
		return
	}
}

func val(l []*big.Int) *big.Int {
	r := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		r.Lsh(r, 51).Add(r, l[i])
	}
	return r
}
