// C12: hex digits to numbers.
package main

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

func main() {
	mc.Main(mc.Meta{Prop: "C12",
		Rule:        "every maximum length up to 64, every actual length from 0 to past the maximum, and for each the digit contents that determine a digit-linear value exactly (every value of every single digit over zero and over all-f neighbours, plus mixed contents); all digit contents for short arrays; result compared with the big-endian value of exactly the first 'actual length' digits",
		Assumptions: []string{"inputs are hex digits (the circuits constrain them elsewhere)", "the two-word form is used for whole bytes: the low word has 62 digits, the high word the two before them"},
	}, run)
}

var P = ecc.BN254.ScalarField()

func val(d []int) *big.Int {
	r := new(big.Int)
	for _, x := range d {
		r.Lsh(r, 4).Add(r, big.NewInt(int64(x)))
	}
	return r
}

// contents(n) lists digit arrays of length n.
func contents(n int, all bool) (r [][]int) {
	if all {
		t := 1
		for i := 0; i < n; i++ {
			t *= 16
		}
		for i := 0; i < t; i++ {
			d := make([]int, n)
			for k, x := 0, i; k < n; k++ {
				d[k] = x % 16
				x /= 16
			}
			r = append(r, d)
		}
		return
	}
	for _, base := range []int{0, 15} {
		d := make([]int, n)
		for k := range d {
			d[k] = base
		}
		r = append(r, d)
		for k := 0; k < n; k++ {
			for _, v := range []int{0, 1, 2, 4, 8, 15} {
				if v == base {
					continue
				}
				x := append([]int{}, d...)
				x[k] = v
				r = append(r, x)
			}
		}
	}
	for s := 1; s < 16; s += 2 {
		d := make([]int, n)
		for k := range d {
			d[k] = (k*s + s) % 16
		}
		r = append(r, d)
	}
	return
}

func run(c *mc.Ctx) {
	type cs struct{ max, real int }
	var l []cs
	for m := 2; m <= 64; m++ {
		if m > 16 && m < 60 && m%mc.Pick(c, 5, 1) != 0 {
			continue
		}
		for r := 0; r <= m+4; r++ {
			l = append(l, cs{m, r})
		}
		l = append(l, cs{m, 1 << 20})
	}
	c.Each("number", len(l), func(i int) string { return fmt.Sprintf("max=%d actual=%d", l[i].max, l[i].real) }, func(i int) string {
		t := l[i]
		for _, d := range contents(t.max, t.max <= mc.Pick(c, 3, 4)) {
			e := eng.New(P)
			var in []F
			for _, x := range d {
				in = append(in, e.Val(x))
			}
			var out F
			r := e.Run(func(api frontend.API) error { out = rlp.HexToDecimal(api, in, t.max, e.Val(t.real)); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" {
				return r.String()
			}
			n := t.real
			if n > t.max {
				// refused, or no more than the digits there are
				if !r.OK {
					continue
				}
				n = t.max
			}
			if !r.OK {
				return fmt.Sprintf("refused: %v", r)
			}
			w := val(d[:n])
			w.Mod(w, P)
			if e.Big(out).Cmp(w) != 0 {
				return fmt.Sprintf("digits %x give %x, want %x", d, e.Big(out), w)
			}
		}
		return ""
	})
	// two words from 64 digits
	var rl []int
	for r := 0; r <= 70; r++ {
		if r == 63 { // half a byte more than the low word: not a whole number of bytes
			continue
		}
		rl = append(rl, r)
	}
	split := func(d []int, n int) (*big.Int, *big.Int) {
		lo := val(d[:n])
		hi := new(big.Int).Rsh(lo, 248)
		lo.And(lo, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 248), big.NewInt(1)))
		return lo, hi
	}
	c.Each("two words", len(rl), func(i int) string { return fmt.Sprintf("actual=%d", rl[i]) }, func(i int) string {
		n := rl[i]
		for _, d := range contents(64, false) {
			e := eng.New(P)
			var in []F
			for _, x := range d {
				in = append(in, e.Val(x))
			}
			var out [2]F
			r := e.Run(func(api frontend.API) error { out = rlp.Hex64To2Fr(api, in, e.Val(n)); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" {
				return r.String()
			}
			if n > 64 {
				if !r.OK {
					continue
				}
				n = 64
			}
			if !r.OK {
				return "refused: " + r.String()
			}
			lo, hi := split(d, n)
			if e.Big(out[0]).Cmp(lo) != 0 || e.Big(out[1]).Cmp(hi) != 0 {
				return fmt.Sprintf("digits %x give (%x,%x), want (%x,%x)", d, e.Big(out[0]), e.Big(out[1]), lo, hi)
			}
		}
		return ""
	})
	g1 := gk.New(P, 7, 1, func(api frontend.API, in []F) []F { return []F{rlp.HexToDecimal(api, in[1:], 6, in[0])} })
	g2 := gk.New(P, 65, 2, func(api frontend.API, in []F) []F { r := rlp.Hex64To2Fr(api, in[1:], in[0]); return r[:] })
	lens := []int64{0, 1, 2, 5, 6, 7, 8, 61, 62, 64, 65, 66}
	c.Each("bn254 conformance", 2*len(lens), func(i int) string { return fmt.Sprintf("words=%d actual=%d", 1+i%2, lens[i/2]) }, func(i int) string {
		g, n := g1, 6
		if i%2 == 1 {
			g, n = g2, 64
		}
		in := gk.Ints(lens[i/2])
		for k := 0; k < n; k++ {
			in = append(in, big.NewInt(int64((k*7+9)%16)))
		}
		out, r, e := g.Eng(in)
		c.State(1)
		c.Trans(int(e.Ops))
		if m := g.Agree(in, out, r.OK, 0, 1, 2); m != "" {
			return m
		}
		c.Trace(3)
		return ""
	})
}
