// C18: packing into and out of non-native field elements.
package main

import (
	"fmt"
	"math/big"

	emu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

func main() {
	mc.Main(mc.Meta{Prop: "C18",
		Rule:        "for each native/non-native field pair and each chunk width: all values whose 64-bit limbs come from a boundary alphabet (canonical elements), converted out and in; every count of grouped elements up to the bound; oversized chunks and lists that do not fill whole elements must be refused",
		Assumptions: []string{"limb values outside the boundary alphabet behave like its members (the gadgets are linear and bit-wise)"},
	}, run)
}

var one = big.NewInt(1)

func bitsMSB(x *big.Int, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[n-1-i] = int(x.Bit(i))
	}
	return r
}
func val(b []int) *big.Int {
	r := new(big.Int)
	for _, x := range b {
		r.Lsh(r, 1).Add(r, big.NewInt(int64(x)))
	}
	return r
}
func chop(b []int, n int) []*big.Int {
	var r []*big.Int
	for len(b) > 0 {
		m := min(n, len(b))
		r = append(r, val(b[:m]))
		b = b[m:]
	}
	return r
}

// limb alphabet
var alpha = []*big.Int{big.NewInt(0), one, new(big.Int).SetUint64(1 << 63), new(big.Int).SetUint64(^uint64(0)), new(big.Int).SetUint64(0x0123456789abcdef)}

func elements(mod *big.Int, nb int, cap int) []*big.Int {
	var r []*big.Int
	n := 1
	for i := 0; i < nb; i++ {
		n *= len(alpha)
	}
	step := 1
	if n > cap {
		step = n/cap | 1
	}
	for i := 0; i < n; i += step {
		x := new(big.Int)
		y := i
		for k := 0; k < nb; k++ {
			x.Lsh(x, 64).Or(x, alpha[y%len(alpha)])
			y /= len(alpha)
		}
		if x.Cmp(mod) >= 0 {
			x.Mod(x, mod)
		}
		r = append(r, x)
	}
	r = append(r, new(big.Int).Sub(mod, one), new(big.Int).Rsh(mod, 1))
	return r
}

func limbsOf(x *big.Int, nb int) []F {
	m := new(big.Int).SetUint64(^uint64(0))
	r := make([]F, nb)
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m)
	}
	return r
}

func limbVal(e *eng.Engine, l []F) *big.Int {
	r := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		r.Lsh(r, 64).Add(r, e.Big(l[i]))
	}
	return r
}

func pair[T emulated.FieldParams](c *mc.Ctx, name string, native *big.Int) {
	var p T
	mod, nb := p.Modulus(), int(p.NbLimbs())
	els := elements(mod, nb, mc.Pick(c, 250, 5000))
	total := nb * 64
	outSizes := []int{1, 2, 3, 5, 7, 8, 16, 24, 32, 48, 64, 72, 96, 100, 128, 192, 200}
	c.Each(name+" out", len(els)*len(outSizes), func(i int) string {
		return fmt.Sprintf("bits=%d x=%s", outSizes[i%len(outSizes)], els[i/len(outSizes)].Text(16))
	}, func(i int) string {
		w, x := outSizes[i%len(outSizes)], els[i/len(outSizes)]
		e := eng.New(native)
		var out []F
		r := e.Run(func(api frontend.API) error {
			out = emu.FromElement[T](api, &emulated.Element[T]{Limbs: e.Vals(limbsOf(x, nb))}, w)
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if !r.OK {
			return r.String()
		}
		want := chop(bitsMSB(x, total), w)
		if len(want) != len(out) {
			return fmt.Sprintf("%d chunks, want %d", len(out), len(want))
		}
		for k := range out {
			if e.Big(out[k]).Cmp(want[k]) != 0 {
				return fmt.Sprintf("chunk %d: %v want %v", k, e.Big(out[k]), want[k])
			}
		}
		return ""
	})
	inSizes := []int{1, 4, 8, 12, 16, 20, 30, 32, 40, 60, 64, 80, 96, 120, 128}
	c.Each(name+" in", len(els)*len(inSizes), func(i int) string {
		return fmt.Sprintf("bits=%d x=%s", inSizes[i%len(inSizes)], els[i/len(inSizes)].Text(16))
	}, func(i int) string {
		w, x := inSizes[i%len(inSizes)], els[i/len(inSizes)]
		if total%w != 0 {
			// keep the chunk list at whole chunks no wider than the element
			n := total / w
			x = new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(one, uint(n*w)), one))
		}
		n := total / w
		ch := chop(bitsMSB(x, n*w), w)
		e := eng.New(native)
		var el *emulated.Element[T]
		r := e.Run(func(api frontend.API) error {
			vs := make([]F, len(ch))
			for k := range ch {
				vs[k] = e.Val(ch[k])
			}
			el = emu.ToElement[T](api, vs, w)
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if r.Panic != "" && n*w <= total-64 {
			return "" // refused when the circuit is built
		}
		if !r.OK {
			return r.String()
		}
		if got := limbVal(e, el.Limbs); got.Cmp(x) != 0 {
			return fmt.Sprintf("element %s want %s", got.Text(16), x.Text(16))
		}
		return ""
	})
	// shorter lists: every number of bytes / 16-bit / 64-bit words up to the element
	for _, w := range []int{8, 16, 64} {
		w := w
		nmax := total / w
		c.Each(fmt.Sprintf("%s in short w=%d", name, w), nmax*4, func(i int) string { return fmt.Sprintf("n=%d v=%d", i/4+1, i%4) }, func(i int) string {
			n := i/4 + 1
			x := new(big.Int).And(els[(i%4)*97%len(els)], new(big.Int).Sub(new(big.Int).Lsh(one, uint(n*w)), one))
			if i%4 == 0 {
				x = new(big.Int).SetBit(one, n*w-1, 1)
			}
			if x.BitLen() > mod.BitLen() || x.Cmp(mod) >= 0 {
				x = big.NewInt(1)
			}
			ch := chop(bitsMSB(x, n*w), w)
			e := eng.New(native)
			var el *emulated.Element[T]
			r := e.Run(func(api frontend.API) error {
				vs := make([]F, len(ch))
				for k := range ch {
					vs[k] = e.Val(ch[k])
				}
				el = emu.ToElement[T](api, vs, w)
				return nil
			})
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" && n*w <= total-64 {
				return "" // refused when the circuit is built
			}
			if !r.OK {
				return r.String()
			}
			if got := limbVal(e, el.Limbs); got.Cmp(x) != 0 {
				return fmt.Sprintf("element %s want %s", got.Text(16), x.Text(16))
			}
			return ""
		})
	}
	// a chunk that does not fit its width is rejected, or carried so that the integer is kept
	c.Each(name+" oversized", nb*3+3, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		e := eng.New(native)
		x := new(big.Int)
		got := new(big.Int)
		r := e.Run(func(api frontend.API) error {
			if i < nb*3 {
				l := limbsOf(new(big.Int).Rsh(mod, 2), nb)
				l[i/3] = new(big.Int).Add(new(big.Int).Lsh(one, 64), big.NewInt(int64(i%3)))
				x = limbVal(e, l)
				w := []int{8, 32, 128}[i%3]
				for _, o := range emu.FromElement[T](api, &emulated.Element[T]{Limbs: e.Vals(l)}, w) {
					got.Lsh(got, uint(w)).Add(got, e.Big(o))
				}
				return nil
			}
			vs := make([]F, nb)
			for k := range vs {
				vs[k] = e.Val(k)
			}
			vs[1+(i-nb*3)%(nb-1)] = e.Val(new(big.Int).Lsh(one, 64))
			for _, v := range vs {
				x.Lsh(x, 64).Add(x, e.Big(v))
			}
			got = limbVal(e, emu.ToElement[T](api, vs, 64).Limbs)
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if r.OK && x.Cmp(got) != 0 {
			return fmt.Sprintf("oversized chunk accepted: %s became %s", x.Text(16), got.Text(16))
		}
		return ""
	})
	// grouping: counts 1..N, every divisor width of the limb
	for _, w := range []int{1, 2, 4, 8, 16, 32, 64} {
		w := w
		maxN := mc.Pick(c, 4, 9)
		per := total / w
		c.Each(fmt.Sprintf("%s group w=%d", name, w), maxN*len(els)/7, func(i int) string { return fmt.Sprintf("n=%d first=%d", i%maxN+1, i/maxN) }, func(i int) string {
			n := i%maxN + 1
			var ch []*big.Int
			var want []*big.Int
			for k := 0; k < n; k++ {
				x := els[(i/maxN*7+k*13)%len(els)]
				want = append(want, x)
				ch = append(ch, chop(bitsMSB(x, total), w)...)
			}
			_ = per
			e := eng.New(native)
			var out []*emulated.Element[T]
			r := e.Run(func(api frontend.API) error {
				vs := make([]F, len(ch))
				for k := range ch {
					vs[k] = e.Val(ch[k])
				}
				out = emu.ToElements[T](api, vs, w)
				return nil
			})
			c.State(1)
			c.Trans(int(e.Ops))
			if !r.OK || len(out) != n {
				return fmt.Sprintf("%v: %d elements want %d", r, len(out), n)
			}
			for k := range out {
				if got := limbVal(e, out[k].Limbs); got.Cmp(want[k]) != 0 {
					return fmt.Sprintf("element %d: %s want %s", k, got.Text(16), want[k].Text(16))
				}
			}
			return ""
		})
	}
	// lists that do not fill whole elements, and widths that do not fill limbs: never a wrong value
	ws := []int{3, 5, 8, 16, 24, 40, 48, 64, 128}
	c.Each(name+" group ragged", len(ws)*(2*total/8+3), func(i int) string { return fmt.Sprintf("w=%d n=%d", ws[i%len(ws)], i/len(ws)+1) }, func(i int) string {
		w, n := ws[i%len(ws)], i/len(ws)+1
		if n*w > 3*total {
			return ""
		}
		ch := make([]*big.Int, n)
		for k := range ch {
			ch[k] = big.NewInt(int64(k%3 + 1)) // fits every width used
			if k*w/total > 0 || k == 0 {
				ch[k] = big.NewInt(0)
			}
		}
		e := eng.New(native)
		var out []*emulated.Element[T]
		r := e.Run(func(api frontend.API) error {
			vs := make([]F, len(ch))
			for k := range ch {
				vs[k] = e.Val(ch[k])
			}
			out = emu.ToElements[T](api, vs, w)
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if !r.OK {
			return ""
		}
		// accepted: then nothing may be lost
		var all []int
		for _, x := range ch {
			all = append(all, bitsMSB(x, w)...)
		}
		if len(all)%total != 0 {
			return fmt.Sprintf("%d bits accepted as %d whole elements of %d bits", len(all), len(out), total)
		}
		for k := range out {
			want := val(all[k*total : (k+1)*total])
			if got := limbVal(e, out[k].Limbs); got.Cmp(want) != 0 {
				return fmt.Sprintf("element %d: %s want %s", k, got.Text(16), want.Text(16))
			}
		}
		return ""
	})
	// conformance with gnark's solver
	if native.Cmp(gk.BN254) == 0 {
		g := gk.New(native, nb, total/8, func(api frontend.API, in []F) []F {
			return emu.FromElement[T](api, &emulated.Element[T]{Limbs: in}, 8)
		})
		g2 := gk.New(native, total/8, nb, func(api frontend.API, in []F) []F {
			return emu.ToElement[T](api, in, 8).Limbs
		})
		c.Each(name+" solver", 6, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
			x := els[len(els)-1-i*3]
			var in []*big.Int
			for _, l := range limbsOf(x, nb) {
				in = append(in, l.(*big.Int))
			}
			by := chop(bitsMSB(x, total), 8)
			for _, k := range []int{0, 2} {
				if m := g.Agree(in, by, true, k); m != "" {
					return m
				}
				if m := g2.Agree(by, in, true, k); m != "" {
					return m
				}
				c.Trace(2)
			}
			bad := append([]*big.Int{}, by...)
			bad[i] = new(big.Int).Xor(bad[i], one)
			if m := g.Agree(in, bad, false, 0, 2); m != "" {
				return m
			}
			c.Trace(2)
			return ""
		})
	}
}

func run(c *mc.Ctx) {
	gk.Hints = []solver.Option{solver.WithHints(limbs.SplitHint)}
	bn, bw, b377 := ecc.BN254.ScalarField(), ecc.BW6_761.ScalarField(), ecc.BLS12_377.ScalarField()
	pair[emulated.BLS12377Fr](c, "bls12377fr/bn254", bn)
	pair[emulated.BN254Fr](c, "bn254fr/bn254", bn)
	pair[emulated.Secp256k1Fp](c, "secp256k1fp/bn254", bn)
	pair[emulated.BLS12381Fp](c, "bls12381fp/bn254", bn)
	pair[emulated.BW6761Fr](c, "bw6761fr/bn254", bn)
	pair[emulated.BLS12377Fr](c, "bls12377fr/bw6761", bw)
	pair[emulated.BN254Fr](c, "bn254fr/bls12377", b377)
	pair[emulated.BW6761Fr](c, "bw6761fr/bw6761", bw)
}
