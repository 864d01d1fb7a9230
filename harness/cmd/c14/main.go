// C14: in-circuit Keccak padding and nibble packing.
package main

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

var P = ecc.BN254.ScalarField()

func main() {
	mc.Main(mc.Meta{Prop: "C14",
		Rule:        "variable-length padding: element widths 1, 4 and 8 bits, windows [min,max] placed around every block boundary and small ones, every length in the window with two message contents and two kinds of left-over data behind the message, and every length up to a block outside the window, lengths that are no whole bytes, and field elements that divide to an in-window value; fixed-length padding: every length; packing: every nibble value in every position of a word and distinct values in every position, too large digits",
		Assumptions: []string{"fixed-length padding is given boolean variables"},
	}, run)
}

func pad(msg []byte) []byte {
	out := append(append([]byte{}, msg...), make([]byte, 136-len(msg)%136)...)
	out[len(msg)] ^= 1
	out[len(out)-1] ^= 0x80
	return out
}

type win struct{ bits, min, max int } // min, max in elements

func content(k, v int) byte {
	switch v {
	case 0:
		return byte(k*11 + k/256*3 + 1)
	case 1:
		return 0xff
	}
	return 0
}

func elems(b []byte, bits int) (r []F) {
	for _, x := range b {
		for s := 8 - bits; s >= 0; s -= bits {
			r = append(r, int64(x>>s)&(1<<bits-1))
		}
	}
	return
}

func run(c *mc.Ctx) {
	var ws []win
	for _, bits := range []int{4, 8, 1} {
		per := 8 / bits
		for _, w := range [][2]int{{0, 0}, {0, 1}, {0, 5}, {1, 1}, {3, 9}, {33, 33}, {130, 135}, {134, 136}, {130, 140}, {135, 135}, {136, 136}, {137, 137}, {0, 136}, {269, 274}, {271, 271}, {272, 272}, {120, 275}, {405, 411}, {540, 546}} {
			if bits == 1 && !c.Thorough() && w[1]-w[0] > 12 {
				continue
			}
			ws = append(ws, win{bits, w[0] * per, w[1] * per})
		}
		if c.Thorough() {
			for n := 0; n < 420; n += 7 {
				ws = append(ws, win{bits, n * per, (n + 9) * per})
			}
			ws = append(ws, win{bits, 0, 290 * per}, win{bits, 500 * per, 700 * per})
		}
	}
	type job struct {
		w     win
		n     *big.Int // claimed length in elements
		bytes int      // actual length in bytes when it fits, else -1
	}
	var jobs []job
	for _, w := range ws {
		per := 8 / w.bits
		for n := w.min; n <= w.max; n++ {
			j := job{w, big.NewInt(int64(n)), -1}
			if n%per == 0 {
				j.bytes = n / per
			} else if w.bits == 1 && n > w.min+16 {
				continue
			}
			jobs = append(jobs, j)
		}
		for d := 1; d < 20; d++ {
			jobs = append(jobs, job{w, big.NewInt(int64(w.min - d)), -1}, job{w, big.NewInt(int64(w.max + d)), -1})
		}
		for _, x := range []*big.Int{new(big.Int).Lsh(big.NewInt(1), 32), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Rsh(P, 1), new(big.Int).Sub(P, big.NewInt(1))} {
			jobs = append(jobs, job{w, new(big.Int).Add(x, big.NewInt(int64(w.min))), -1})
		}
		for d := int64(1); d < 8; d++ { // in-window after an inverse
			inv := new(big.Int).ModInverse(big.NewInt(int64(8)), P)
			jobs = append(jobs, job{w, inv.Mul(inv, big.NewInt(d)).Mod(inv, P), -1})
		}
	}
	c.Each("variable length", len(jobs), func(i int) string {
		return fmt.Sprintf("%d-bit elements %d..%d length %v", jobs[i].w.bits, jobs[i].w.min, jobs[i].w.max, jobs[i].n)
	}, func(i int) string {
		j := jobs[i]
		per := 8 / j.w.bits
		n := new(big.Int).Mod(j.n, P)
		blocks := (j.w.max/per)/136 + 1
		for v := 0; v < 2; v++ {
			for junk := 0; junk < 3; junk++ {
				if (junk == 1 || j.bytes < 0) && v == 1 {
					continue
				}
				m := make([]byte, j.w.max/per)
				for k := range m {
					if k < j.bytes {
						m[k] = content(k, v)
					} else {
						m[k] = content(k, junk)
					}
				}
				e := eng.New(P)
				var out []F
				r := e.Run(func(api frontend.API) error {
					out = keccak.Pad101Bits(api, j.w.bits, j.w.min, j.w.max, e.Vals(elems(m, j.w.bits)), e.Val(n))
					return nil
				})
				c.State(1)
				c.Trans(int(e.Ops))
				if j.bytes < 0 {
					if r.OK || r.Panic != "" {
						return fmt.Sprintf("a length outside the window: %v", r)
					}
					continue
				}
				if !r.OK {
					return fmt.Sprintf("%v", r)
				}
				want := pad(m[:j.bytes])
				if len(out) < blocks*1088 || len(out)%1088 != 0 {
					return fmt.Sprintf("%d bits out", len(out))
				}
				for k := range out {
					w := int64(0)
					if k/8 < len(want) {
						w = int64(want[k/8] >> (k % 8) & 1)
					}
					if e.Int(out[k]) != w {
						return fmt.Sprintf("contents %d/%d: bit %d (byte %d) is %d", v, junk, k, k/8, e.Int(out[k]))
					}
				}
			}
		}
		return ""
	})
	// elements that are too wide
	c.Each("wide elements", 3*24, func(i int) string { return fmt.Sprintf("width %d at %d", []int{1, 4, 8}[i%3], i/3) }, func(i int) string {
		bits := []int{1, 4, 8}[i%3]
		per := 8 / bits
		for _, bad := range []int64{1 << bits, 1<<bits + 1, -1, 255 + 1<<bits} {
			in := elems([]byte{1, 2, 3}, bits)
			in[(i/3)%len(in)] = bad
			for _, ln := range []int64{0, int64(1 * per), int64(3 * per)} {
				e := eng.New(P)
				r := e.Run(func(api frontend.API) error {
					keccak.Pad101Bits(api, bits, 0, 3*per, e.Vals(in), e.Val(ln))
					return nil
				})
				c.State(1)
				c.Trans(int(e.Ops))
				if r.OK || r.Panic != "" {
					return fmt.Sprintf("element %d: %v", bad, r)
				}
			}
		}
		return ""
	})
	// fixed length
	maxB := mc.Pick(c, 136*4+2, 136*12+2)
	c.Each("fixed length", maxB, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		m := make([]byte, i)
		for k := range m {
			m[k] = content(k, 0)
		}
		want := pad(m)
		for extra := 0; extra < 3; extra++ {
			rounds := len(want)/136 + extra
			e := eng.New(P)
			var in, out []F
			for k := 0; k < 8*i; k++ {
				in = append(in, e.Val(int64(m[k/8]>>(k%8)&1)))
			}
			in = in[:len(in):cap(in)]
			keep := append([]F{}, in...)
			r := e.Run(func(api frontend.API) error { out = keccak.PadBits101(api, in, rounds); return nil })
			c.State(1)
			c.Trans(int(e.Ops) + 1)
			if !r.OK {
				return fmt.Sprint(r)
			}
			if len(out) != rounds*1088 {
				return fmt.Sprintf("%d bits for %d blocks", len(out), rounds)
			}
			for k := range out {
				w := int64(0)
				if k/8 < len(want) {
					w = int64(want[k/8] >> (k % 8) & 1)
				}
				if e.Int(out[k]) != w {
					return fmt.Sprintf("bit %d (byte %d) is %d", k, k/8, e.Int(out[k]))
				}
			}
			for k := range in {
				if e.Int(in[k]) != e.Int(keep[k]) {
					return "input changed"
				}
			}
		}
		return ""
	})
	// packing
	type packer struct {
		name  string
		words int
		f     func(api frontend.API, n []F) [][17]F
	}
	ps := []packer{
		{"NibblesToU64Array", 170, func(api frontend.API, n []F) [][17]F { r := keccak.NibblesToU64Array(api, n); return r[:] }},
		{"Normal", 17 * 13, func(api frontend.API, n []F) [][17]F {
			r := keccak.NibblesToU64ArrayForNormalTransactionLeafValue(api, n)
			return r[:]
		}},
		{"Max", 17 * 13, func(api frontend.API, n []F) [][17]F {
			r := keccak.NibblesToU64ArrayForMaxTransactionLeafValue(api, n)
			return r[:]
		}},
	}
	for w := 1; w <= 14; w++ {
		w := w
		ps = append(ps, packer{fmt.Sprintf("Recompose%d", w), 17 * w, func(api frontend.API, n []F) [][17]F { return keccak.RecomposeHexToKeccakU64s(api, n, w) }})
	}
	c.Each("packing", len(ps)*9, func(i int) string { return fmt.Sprintf("%s %d", ps[i/9].name, i%9) }, func(i int) string {
		p, v := ps[i/9], i%9
		for words := 0; words <= p.words; words++ {
			if words%17 != 0 && words > 3 && words < p.words-2 && !c.Thorough() {
				continue
			}
			e := eng.New(P)
			in := make([]F, 16*words)
			val := func(k int) int64 {
				if v < 8 {
					return int64((k + k/16 + k/272*5 + v*2) % 16)
				}
				return 15
			}
			for k := range in {
				in[k] = e.Val(val(k))
			}
			var out [][17]F
			r := e.Run(func(api frontend.API) error { out = p.f(api, in); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if !r.OK {
				return fmt.Sprintf("%d words: %v", words, r)
			}
			for k := 0; k < p.words; k++ {
				want := new(big.Int)
				if k < words {
					for b := 7; b >= 0; b-- {
						want.Lsh(want, 8).Add(want, big.NewInt(val(16*k+2*b)<<4|val(16*k+2*b+1)))
					}
				}
				if e.Big(out[k/17][k%17]).Cmp(want) != 0 {
					return fmt.Sprintf("%d words: word %d is %x, want %x", words, k, e.Big(out[k/17][k%17]), want)
				}
			}
			// a digit that is none
			if v == 0 && words > 0 {
				for q := 0; q < 16*words; q += 1 + words/3*7 {
					e := eng.New(P)
					in := make([]F, 16*words)
					for k := range in {
						in[k] = e.Val(1)
					}
					in[q] = e.Val([]int64{16, -1, 256}[q%3])
					r := e.Run(func(api frontend.API) error { p.f(api, in); return nil })
					c.State(1)
					if r.OK || r.Panic != "" {
						return fmt.Sprintf("%d words, digit %d too large: %v", words, q, r)
					}
				}
			}
		}
		return ""
	})
	// conformance with gnark
	g := gk.New(P, 7, 1088, func(api frontend.API, in []F) []F {
		return keccak.Pad101Bits(api, 4, 0, 6, in[:6], in[6])
	})
	g2 := gk.New(P, 32, 170, func(api frontend.API, in []F) (r []F) {
		for _, b := range keccak.NibblesToU64Array(api, in) {
			r = append(r, b[:]...)
		}
		return
	})
	c.Each("bn254 conformance", 24, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		in := gk.Ints(1, 15, 3, 8, 7, 9, int64(i-4))
		in[6].Mod(in[6], P)
		if i == 20 {
			in[6] = big.NewInt(4)
			in[5] = big.NewInt(16)
		}
		out, r, e := g.Eng(in)
		c.State(1)
		c.Trans(int(e.Ops))
		if m := g.Agree(in, out, r.OK, 0, 1, 2); m != "" {
			return m
		}
		c.Trace(3)
		in = make([]*big.Int, 32)
		for k := range in {
			in[k] = big.NewInt(int64((k*i + k) % 16))
		}
		if i%5 == 4 {
			in[i] = big.NewInt(16)
		}
		out, r, e = g2.Eng(in)
		c.State(1)
		c.Trans(int(e.Ops))
		if m := g2.Agree(in, out, r.OK, 0, 1, 2); m != "" {
			return m
		}
		c.Trace(3)
		return ""
	})
}
