// C19: emulated MiMC against native MiMC over all bounded operation histories.
package main

import (
	"fmt"
	"hash"
	"math/big"

	emimc "github.com/brevis-network/zk-utils/circuits/gadgets/emulated/mimc"
	"github.com/consensys/gnark-crypto/ecc"
	nbls "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	nbn "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	nbw "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

// operations of a history
var opNames = []string{"W1", "W2", "W0", "Sum", "Reset", "Hash1", "Hash2"}

func main() {
	mc.Main(mc.Meta{Prop: "C19",
		Rule:        "every history over {write 1, write 2, write none, sum, reset, hash 1, hash 2} up to the depth bound with written values taken from the boundary set; every sum in the history is compared with the curve's native MiMC driven by the same history; plus every ordered pair of boundary values",
		Assumptions: []string{"values of written elements are drawn from {0, 1, modulus-1, 2^64-1, a full-width constant}, rotated through the history"},
	}, run)
}

func seqs(depth int) [][]int {
	var r [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			r = append(r, append([]int{}, p...))
		}
		if len(p) == depth {
			return
		}
		for o := range opNames {
			// a history that does not end in an observation is extended by Sum below
			rec(append(p, o))
		}
	}
	rec(nil)
	return r
}

func limbs(x *big.Int, nb int) []F {
	m := new(big.Int).SetUint64(^uint64(0))
	r := make([]F, nb)
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m)
	}
	return r
}

func curve[T emulated.FieldParams](c *mc.Ctx, name string, id ecc.ID, native func() hash.Hash, depth int) {
	var p T
	mod, nb := p.Modulus(), int(p.NbLimbs())
	g, _ := new(big.Int).SetString("123456789abcdef0fedcba9876543210123456789abcdef0fedcba987654321", 16)
	vals := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(mod, big.NewInt(1)), new(big.Int).SetUint64(^uint64(0)), g.Mod(g, mod)}
	bs := len(mod.Bytes())
	type cas struct {
		ops []int
		off int
		two [2]int // fixed values when off<0
	}
	var cases []cas
	for _, s := range seqs(depth) {
		cases = append(cases, cas{ops: s, off: len(s)})
	}
	for a := range vals {
		for b := range vals {
			cases = append(cases, cas{ops: []int{1, 3}, off: -1, two: [2]int{a, b}})
		}
	}
	c.Each(name, len(cases), func(i int) string {
		s := ""
		for _, o := range cases[i].ops {
			s += opNames[o] + " "
		}
		return fmt.Sprintf("%soff=%d %v", s, cases[i].off, cases[i].two)
	}, func(i int) string {
		cs := cases[i]
		k := cs.off
		next := func() *big.Int {
			if cs.off < 0 {
				v := vals[cs.two[(-k-1)%2]]
				k--
				return v
			}
			k++
			return vals[k%len(vals)]
		}
		h := native()
		put := func(x *big.Int) { b := make([]byte, bs); x.FillBytes(b); h.Write(b) }
		e := eng.New(gk.BN254)
		var msg string
		r := e.Run(func(api frontend.API) error {
			m := emimc.NewMiMC[T](api, id)
			el := func(x *big.Int) *emulated.Element[T] { return &emulated.Element[T]{Limbs: e.Vals(limbs(x, nb))} }
			// writes pass slices with spare capacity: the gadget must neither
			// overwrite what lies behind them nor keep reading them afterwards
			canary := el(big.NewInt(77))
			var spare [][]*emulated.Element[T]
			write := func(xs ...*big.Int) {
				b := make([]*emulated.Element[T], len(xs)+3)
				for j := range b {
					b[j] = canary
				}
				for j, x := range xs {
					b[j] = el(x)
				}
				m.Write(b[:len(xs)]...)
				for j := range xs {
					b[j] = canary
				}
				spare = append(spare, b)
			}
			check := func(at int, got *emulated.Element[T], want []byte) {
				w := new(big.Int).SetBytes(want)
				g := new(big.Int)
				for j := len(got.Limbs) - 1; j >= 0; j-- {
					l := e.Big(got.Limbs[j])
					g.Lsh(g, 64).Add(g, l)
					if l.BitLen() > 64 { // the digest is reduced: its words can be taken apart
						msg = fmt.Sprintf("step %d: word %d of the digest is %s", at, j, l.Text(16))
						return
					}
				}
				if len(got.Limbs) > nb || g.Mod(g, mod).Cmp(w) != 0 {
					msg = fmt.Sprintf("step %d: %s, native %s", at, g.Text(16), w.Text(16))
				}
			}
			for at, o := range append(cs.ops, 3) {
				c.State(1)
				switch o {
				case 0:
					x := next()
					put(x)
					write(x)
				case 1:
					x, y := next(), next()
					put(x)
					put(y)
					write(x, y)
				case 2:
					m.Write()
				case 3:
					check(at, m.Sum(), h.Sum(nil))
				case 4:
					h.Reset()
					m.Reset()
				case 5, 6:
					h.Reset()
					var xs []*emulated.Element[T]
					for j := 0; j < o-4; j++ {
						x := next()
						put(x)
						xs = append(xs, el(x))
					}
					check(at, m.Hash(xs...), h.Sum(nil))
				}
				for _, b := range spare {
					for _, x := range b {
						if x != canary && msg == "" {
							msg = fmt.Sprintf("step %d: the caller's slice was overwritten", at)
						}
					}
				}
				if msg != "" {
					return nil
				}
			}
			return nil
		})
		c.Trans(int(e.Ops))
		if !r.OK {
			return r.String()
		}
		return msg
	})
	// the compiled circuit accepts the native digest and rejects a changed one
	gd := gk.New(gk.BN254, 3*nb, 0, func(api frontend.API, in []F) []F {
		m := emimc.NewMiMC[T](api, id)
		f, _ := emulated.NewField[T](api)
		m.Write(&emulated.Element[T]{Limbs: in[:nb]}, &emulated.Element[T]{Limbs: in[nb : 2*nb]})
		f.AssertIsEqual(m.Sum(), &emulated.Element[T]{Limbs: in[2*nb:]})
		return nil
	})
	c.Each(name+" solver", 4, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		h := native()
		var in []*big.Int
		for _, x := range []*big.Int{vals[i%len(vals)], vals[(i*2+1)%len(vals)]} {
			b := make([]byte, bs)
			x.FillBytes(b)
			h.Write(b)
			for _, l := range limbs(x, nb) {
				in = append(in, l.(*big.Int))
			}
		}
		d := new(big.Int).SetBytes(h.Sum(nil))
		ok := i%2 == 0
		if !ok {
			d.Xor(d, big.NewInt(1))
		}
		for _, l := range limbs(d, nb) {
			in = append(in, l.(*big.Int))
		}
		if m := gd.Agree(in, nil, ok, 0, 2); m != "" {
			return m
		}
		c.Trace(2)
		return ""
	})
}

func run(c *mc.Ctx) {
	d := mc.Pick(c, 3, 4)
	curve[emulated.BN254Fr](c, "bn254", ecc.BN254, func() hash.Hash { return nbn.NewMiMC() }, d)
	curve[emulated.BLS12377Fr](c, "bls12377", ecc.BLS12_377, func() hash.Hash { return nbls.NewMiMC() }, d)
	curve[emulated.BW6761Fr](c, "bw6761", ecc.BW6_761, func() hash.Hash { return nbw.NewMiMC() }, d)
}
