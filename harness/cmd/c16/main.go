// C16: streaming SHA-2 gadgets over all bounded histories.
package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"math/big"

	c256 "github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	c512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

type gadget interface {
	Write([]F) (int, error)
	Sum() []F
	Reset()
}

type alg struct {
	name   string
	block  int
	native func() hash.Hash
	mk     func(frontend.API) gadget
}

var algs = []alg{
	{"sha256", 64, sha256.New, func(a frontend.API) gadget { d := c256.New(a); return &d }},
	{"sha512", 128, sha512.New, func(a frontend.API) gadget { d := c512.New(a); return &d }},
}

func main() {
	mc.Main(mc.Meta{Prop: "C16",
		Rule:        "every history of writes (chunk lengths 0, 1 and those around the padding and block boundaries), sums and resets up to the depth bound, driving the gadget and the standard library side by side and comparing every sum; every message length over several blocks in one write and split at every block-boundary class; every message that differs in one bit from a base over one and two blocks; inputs that are not bytes",
		Assumptions: []string{"Go's crypto/sha256 and crypto/sha512 are the standard functions", "message contents are a fixed dense pattern, all-zero, all-one and single-bit variations of it"},
	}, run)
}

// op >= 0 writes that many bytes
const (
	opSum   = -1
	opReset = -2
)

// history runs ops on both and compares every sum (one is appended).
func history(c *mc.Ctx, a alg, ops []int, data func(i int) byte) string {
	e := eng.New(gk.BN254)
	h := a.native()
	var msg string
	pos := 0
	r := e.Run(func(api frontend.API) error {
		g := a.mk(api)
		type sp struct {
			b []F
		}
		canary := e.Val(new(big.Int).Lsh(big.NewInt(1), 99))
		var spare [][]F
		var sums [][]F
		var wants [][]byte
		for at, o := range append(append([]int{}, ops...), opSum) {
			c.State(1)
			switch {
			case o == opReset:
				h.Reset()
				g.Reset()
			case o == opSum:
				got, want := g.Sum(), h.Sum(nil)
				sums, wants = append(sums, got), append(wants, want)
				if len(got) != len(want) {
					msg = fmt.Sprintf("step %d: %d bytes", at, len(got))
					return nil
				}
			default:
				p := make([]byte, o)
				b := make([]F, o+140)
				for j := range b {
					b[j] = canary
				}
				for j := range p {
					p[j] = data(pos)
					pos++
					b[j] = e.Val(int64(p[j]))
				}
				h.Write(p)
				n, err := g.Write(b[:o])
				if n != o || err != nil {
					msg = fmt.Sprintf("step %d: Write returned %d, %v", at, n, err)
					return nil
				}
				for j := range p {
					b[j] = canary
				}
				spare = append(spare, b)
			}
		}
		// looked at only after the whole history: a sum must not change later
		for k := range sums {
			for j := range sums[k] {
				if x := e.Big(sums[k][j]); x.Cmp(big.NewInt(int64(wants[k][j]))) != 0 {
					msg = fmt.Sprintf("sum %d byte %d: %s, standard %d", k, j, x, wants[k][j])
					return nil
				}
			}
		}
		for _, b := range spare {
			for _, x := range b {
				if e.Big(x).Cmp(e.Big(canary)) != 0 {
					msg = "the caller's slice was overwritten"
				}
			}
		}
		return nil
	})
	c.Trans(int(e.Ops))
	if !r.OK {
		return r.String()
	}
	return msg
}

func dense(i int) byte { return byte(i*i*7 + i*13 + i>>8*31 + 5) }

func run(c *mc.Ctx) {
	for _, a := range algs {
		a := a
		B := a.block
		L := B - B/8 // room before the length field
		acts := append([]int{0, 1, L - 1, L, B - 1, B, B + 1, 2*B - 3}, opSum, opReset)
		depth := mc.Pick(c, 2, 3)
		var hs [][]int
		var rec func(p []int)
		rec = func(p []int) {
			if len(p) == depth {
				hs = append(hs, append([]int{}, p...))
				return
			}
			for _, o := range acts {
				rec(append(p, o))
			}
		}
		rec(nil)
		if !c.Thorough() {
			acts = []int{1, L, B, opSum, opReset}
			depth = 3
			rec(nil)
		}
		// deeper histories over fewer actions
		acts = mc.Pick(c, []int{1, opSum, opReset}, []int{1, L, B, opSum, opReset})
		for depth = 4; depth <= mc.Pick(c, 4, 5); depth++ {
			rec(nil)
		}
		c.Each(a.name+" histories", len(hs), func(i int) string { return fmt.Sprint(hs[i]) }, func(i int) string {
			return history(c, a, hs[i], dense)
		})
		// lengths
		max := mc.Pick(c, 2*B, 6*B) + 2
		c.Each(a.name+" lengths", max*mc.Pick(c, 2, 3), func(i int) string { return fmt.Sprintf("len %d split %d", i/mc.Pick(c, 2, 3), i%mc.Pick(c, 2, 3)) }, func(i int) string {
			n, v := i/mc.Pick(c, 2, 3), i%mc.Pick(c, 2, 3)
			if v == 1 && !c.Thorough() {
				v = 1 + n%2
			}
			switch v {
			case 1:
				return history(c, a, []int{n / 2, n - n/2}, dense)
			case 2:
				// byte by byte for the last part
				k := n % B
				if k > 20 {
					k = 20
				}
				ops := []int{n - k}
				for j := 0; j < k; j++ {
					ops = append(ops, 1)
				}
				return history(c, a, ops, dense)
			}
			return history(c, a, []int{n}, dense)
		})
		// contents
		bitsN := 8 * (L - 1)
		bases := mc.Pick(c, 1, 3)
		c.Each(a.name+" bits", bases*bitsN, func(i int) string { return fmt.Sprintf("base %d bit %d", i/bitsN, i%bitsN) }, func(i int) string {
			b := i % bitsN
			return history(c, a, []int{L - 1}, func(k int) byte {
				var v byte
				switch i / bitsN {
				case 0:
					v = dense(k)
				case 1:
					v = 0xff
				}
				if k == b/8 {
					v ^= 1 << (b % 8)
				}
				return v
			})
		})
		// not a byte
		bad := []*big.Int{big.NewInt(256), big.NewInt(257), big.NewInt(511), big.NewInt(1 << 32), new(big.Int).Lsh(big.NewInt(1), 248), new(big.Int).Sub(gk.BN254, big.NewInt(1)), new(big.Int).Rsh(gk.BN254, 1)}
		c.Each(a.name+" not bytes", len(bad)*3, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
			n := []int{1, 5, B + 1}[i%3]
			e := eng.New(gk.BN254)
			r := e.Run(func(api frontend.API) error {
				g := a.mk(api)
				in := make([]F, n)
				for j := range in {
					in[j] = e.Val(3)
				}
				in[n-1] = e.Val(bad[i/3])
				g.Write(in)
				g.Sum()
				return nil
			})
			c.State(1)
			if r.OK {
				return "accepted an input that is not a byte: " + bad[i/3].String()
			}
			return ""
		})
		// gnark itself
		for _, n := range []int{3, L} {
			n := n
			hl := len(a.native().Sum(nil))
			gd := gk.New(gk.BN254, n, hl, func(api frontend.API, in []F) []F {
				g := a.mk(api)
				g.Write(in[:n/2])
				g.Sum()
				g.Write(in[n/2:])
				return g.Sum()
			})
			c.Each(fmt.Sprintf("%s gnark len %d", a.name, n), mc.Pick(c, 5, 16), func(i int) string { return fmt.Sprint(i) }, func(i int) string {
				p := make([]byte, n)
				for k := range p {
					p[k] = dense(k * (i + 1))
				}
				h := a.native()
				h.Write(p)
				w := h.Sum(nil)
				toI := func(b []byte) (r []*big.Int) {
					for _, x := range b {
						r = append(r, big.NewInt(int64(x)))
					}
					return
				}
				in, ok := toI(p), true
				if i%5 == 3 {
					w = bytes.Clone(w)
					w[i%hl] ^= 1
					ok = false
				} else if i%5 == 4 {
					in[i%n] = big.NewInt(256 + int64(p[i%n]))
					ok = false
				}
				c.State(1)
				c.Trace(2)
				if m := gd.Agree(in, toI(w), ok, 0); m != "" {
					return m
				}
				return gd.Agree(in, toI(w), ok, 2)
			})
		}
	}
}
