// C09: selection, comparison and sub-range gadgets.
package main

import (
	"fmt"
	"math/big"
	"math/bits"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}
func digits(i, base, n int) []int {
	r := make([]int, n)
	for k := range r {
		r[k] = i % base
		i /= base
	}
	return r
}

func main() {
	mc.Main(mc.Meta{Prop: "C09",
		Rule:        "every selector / operand / range bound of a whole small field, every input array over a small alphabet, every shape up to the bound; the gadget runs on the exploration engine and the verdict and outputs are compared with the array semantics; a slice of the cases is replayed on gnark's test engine and compiled R1CS/SCS over BN254",
		Assumptions: []string{"gadgets are field-generic: only the modulus changes between the exhaustively explored small field and BN254 (bound on BN254 by the replayed traces)"},
	}, run)
}

func run(c *mc.Ctx) {
	type sh struct{ nIn, wIn, p, alpha int }
	var shapes []sh
	for n := 1; n <= mc.Pick(c, 5, 7); n++ {
		for w := 1; w <= 2; w++ {
			a := 3
			if n*w > 6 {
				a = 2
			}
			shapes = append(shapes, sh{n, w, 11, a})
		}
	}
	shapes = append(shapes, sh{12, 1, 31, 1}, sh{17, 2, 31, 1}, sh{30, 1, 31, 1}, sh{31, 1, 31, 1})
	for _, which := range []string{"mux", "rlp"} {
		for _, s := range shapes {
			s, which := s, which
			f := mux.Multiplex
			if which == "rlp" {
				f = rlp.Multiplexer
			}
			cells := s.nIn * s.wIn
			nv := pow(s.alpha, cells)
			sp := fmt.Sprintf("%s.select n=%d w=%d p=%d", which, s.nIn, s.wIn, s.p)
			c.Each(sp, nv*s.p, func(i int) string {
				return fmt.Sprintf("selector=%d cells=%v", i%s.p, digits(i/s.p, s.alpha, cells))
			}, func(i int) string {
				sel := i % s.p
				d := digits(i/s.p, s.alpha, cells)
				if s.alpha == 1 {
					for k := range d {
						d[k] = (k*7 + 3) % s.p
					}
				}
				e := eng.NewSmall(int64(s.p))
				in := make([][]F, s.wIn)
				for w := range in {
					for k := 0; k < s.nIn; k++ {
						in[w] = append(in[w], e.Val(d[w*s.nIn+k]))
					}
				}
				var out []F
				r := e.Run(func(api frontend.API) error { out = f(api, e.Val(sel), s.wIn, s.nIn, in); return nil })
				c.State(1)
				c.Trans(int(e.Ops))
				if r.OK != (sel < s.nIn) || r.Panic != "" {
					return fmt.Sprintf("selector %d of %d inputs: %v", sel, s.nIn, r)
				}
				if !r.OK {
					return ""
				}
				if len(out) != s.wIn {
					return fmt.Sprintf("%d outputs", len(out))
				}
				for w := range out {
					if e.Int(out[w]) != int64(d[w*s.nIn+sel]) {
						return fmt.Sprintf("output[%d]=%d, selected %d", w, e.Int(out[w]), d[w*s.nIn+sel])
					}
				}
				return ""
			})
		}
	}
	// one-hot decoding: the mask must be exact and success must tell membership
	for w := 1; w <= 12; w++ {
		w := w
		p := 29
		c.Each(fmt.Sprintf("rlp.one-hot width=%d", w), p, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
			e := eng.NewSmall(int64(p))
			var out []F
			var ok F
			r := e.Run(func(api frontend.API) error { out, ok = rlp.Decoder(api, w, e.Val(i)); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if !r.OK || len(out) != w {
				return r.String()
			}
			for k := range out {
				want := int64(0)
				if k == i {
					want = 1
				}
				if e.Int(out[k]) != want {
					return fmt.Sprintf("mask[%d]=%v", k, out[k])
				}
			}
			if (e.Int(ok) == 1) != (i < w) {
				return "success flag wrong"
			}
			return ""
		})
	}
	// comparisons: every pair of the field
	for _, p := range mc.Pick(c, []int{7, 31, 127, 251}, []int{7, 31, 127, 251, 257, 509, 1021}) {
		p := p
		c.Each(fmt.Sprintf("compare p=%d", p), p*p, func(i int) string { return fmt.Sprintf("%d,%d", i%p, i/p) }, func(i int) string {
			a, b := i%p, i/p
			e := eng.NewSmall(int64(p))
			var lt, eq F
			r := e.Run(func(api frontend.API) error {
				lt, eq = rlp.LessThan(api, e.Val(a), e.Val(b)), rlp.Equal(api, e.Val(a), e.Val(b))
				return nil
			})
			c.State(1)
			c.Trans(int(e.Ops))
			if !r.OK {
				return r.String()
			}
			if (e.Int(lt) == 1) != (a < b) || (e.Int(eq) == 1) != (a == b) || e.Int(lt) > 1 || e.Int(eq) > 1 {
				return fmt.Sprintf("lt=%d eq=%d", e.Int(lt), e.Int(eq))
			}
			return ""
		})
	}
	// inner products
	c.Each("inner-product p=5 n<=3", 4*pow(5, 6), func(i int) string { return fmt.Sprintf("n=%d v=%v", i%4, digits(i/4, 5, 6)) }, func(i int) string {
		n, d := i%4, digits(i/4, 5, 6)
		e := eng.NewSmall(5)
		var a, b []F
		want := 0
		for k := 0; k < 3; k++ {
			a, b = append(a, e.Val(d[k])), append(b, e.Val(d[3+k]))
			if k < n {
				want += d[k] * d[3+k]
			}
		}
		var o F
		r := e.Run(func(api frontend.API) error { o = rlp.EscalarProduct(api, n, a, b); return nil })
		c.State(1)
		c.Trans(int(e.Ops))
		if !r.OK || e.Int(e.Val(o)) != int64(want%5) {
			return fmt.Sprintf("%v got %v want %d", r, o, want%5)
		}
		return ""
	})
	// prefix equality
	for m := 0; m <= mc.Pick(c, 4, 5); m++ {
		m := m
		p := 17
		n := pow(3, 2*m)
		c.Each(fmt.Sprintf("prefix-equal max=%d p=%d", m, p), n*p, func(i int) string {
			return fmt.Sprintf("len=%d ab=%v", i%p, digits(i/p, 3, 2*m))
		}, func(i int) string {
			t, d := i%p, digits(i/p, 3, 2*m)
			e := eng.NewSmall(int64(p))
			a, b := make([]F, m), make([]F, m)
			eq := true
			for k := 0; k < m; k++ {
				// alphabet 0, 1, p-1
				mp := []int{0, 1, p - 1}
				a[k], b[k] = e.Val(mp[d[k]]), e.Val(mp[d[m+k]])
				if k < t && d[k] != d[m+k] {
					eq = false
				}
			}
			var o F
			r := e.Run(func(api frontend.API) error { o = rlp.ArrayEqual(api, a, b, m, e.Val(t)); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" || r.OK != (t <= m) {
				return r.String()
			}
			if r.OK && (e.Int(o) == 1) != eq {
				return fmt.Sprintf("got %v want %v", o, eq)
			}
			return ""
		})
	}
	// long prefix equality: the shapes the trie gadgets use; one difference anywhere, any length
	for _, m := range []int{64, 66} {
		m := m
		p := 131
		c.Each(fmt.Sprintf("prefix-equal max=%d one difference", m), (m+1)*p, func(i int) string { return fmt.Sprintf("len=%d diff=%d", i%p, i/p) }, func(i int) string {
			t, df := i%p, i/p
			e := eng.NewSmall(int64(p))
			a, b := make([]F, m), make([]F, m)
			for k := 0; k < m; k++ {
				a[k] = e.Val((k * 5) % 16)
				b[k] = a[k]
				if k == df {
					b[k] = e.Val((k*5)%16 + 1)
				}
			}
			var o F
			r := e.Run(func(api frontend.API) error { o = rlp.ArrayEqual(api, a, b, m, e.Val(t)); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" || r.OK != (t <= m) {
				return r.String()
			}
			if r.OK && (e.Int(o) == 1) != (df >= t) {
				return fmt.Sprintf("got %v", o)
			}
			return ""
		})
	}
	// sub-ranges: every (from,end) of the field
	for n := 1; n <= mc.Pick(c, 9, 14); n++ {
		for ms := 1; ms <= n; ms++ {
			n, ms := n, ms
			p := 37
			c.Each(fmt.Sprintf("subarray n=%d max=%d", n, ms), p*p, func(i int) string { return fmt.Sprintf("from=%d end=%d", i%p, i/p) }, func(i int) string {
				from, end := i%p, i/p
				e := eng.NewSmall(int64(p))
				in := make([]F, n)
				for k := range in {
					in[k] = e.Val((k*k + 11*k + 5) % p)
				}
				var out []F
				var ol F
				r := e.Run(func(api frontend.API) error {
					out, ol = rlp.NewSubArray(n, ms, rlp.LogCeil(n)).SubArray(api, in, e.Val(from), e.Val(end))
					return nil
				})
				c.State(1)
				c.Trans(int(e.Ops))
				want := from <= end && end <= n && end-from <= ms
				if r.Panic != "" || r.OK != want {
					return r.String()
				}
				if !want {
					return ""
				}
				if e.Int(ol) != int64(end-from) || len(out) != ms {
					return fmt.Sprintf("length %v", ol)
				}
				for k := 0; k < end-from; k++ {
					if e.Int(out[k]) != e.Int(in[from+k]) {
						return fmt.Sprintf("out[%d]", k)
					}
				}
				return ""
			})
		}
	}
	c.Each("bit length", 1<<13, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		c.State(1)
		if rlp.LogCeil(i) != bits.Len(uint(i)) {
			return fmt.Sprintf("%d", rlp.LogCeil(i))
		}
		return ""
	})
	// conformance on BN254 with gnark's own engine and compiled systems
	gm := gk.New(gk.BN254, 9, 2, func(api frontend.API, in []F) []F {
		return mux.Multiplex(api, in[0], 2, 4, [][]F{in[1:5], in[5:9]})
	})
	ga := gk.New(gk.BN254, 7, 1, func(api frontend.API, in []F) []F {
		return []F{rlp.ArrayEqual(api, in[1:4], in[4:7], 3, in[0])}
	})
	gs := gk.New(gk.BN254, 7, 4, func(api frontend.API, in []F) []F {
		o, l := rlp.NewSubArray(5, 3, 3).SubArray(api, in[2:7], in[0], in[1])
		return append(o, l)
	})
	gl := gk.New(gk.BN254, 2, 2, func(api frontend.API, in []F) []F {
		return []F{rlp.LessThan(api, in[0], in[1]), rlp.Equal(api, in[0], in[1])}
	})
	edge := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(3), big.NewInt(4), big.NewInt(5), new(big.Int).Sub(gk.BN254, big.NewInt(1)), new(big.Int).Rsh(gk.BN254, 1), new(big.Int).Lsh(big.NewInt(1), 253)}
	type tc struct {
		n  string
		g  *gk.Gadget
		in []*big.Int
		ok func(in []*big.Int) bool
	}
	var tcs []tc
	for _, a := range edge {
		for _, b := range edge {
			tcs = append(tcs, tc{"cmp", gl, []*big.Int{a, b}, nil})
			tcs = append(tcs, tc{"sub", gs, append([]*big.Int{a, b}, gk.Ints(5, 6, 7, 8, 9)...), nil})
		}
		tcs = append(tcs, tc{"mux", gm, append([]*big.Int{a}, gk.Ints(1, 2, 3, 4, 5, 6, 7, 8)...), nil})
		for _, v := range [][]int64{{1, 2, 3, 1, 2, 3}, {1, 2, 3, 1, 2, 4}, {1, 2, 3, 0, 2, 3}, {1, 2, 3, 1, 9, 3}} {
			tcs = append(tcs, tc{"aeq", ga, append([]*big.Int{a}, gk.Ints(v...)...), nil})
		}
	}
	c.Each("bn254 conformance", len(tcs), func(i int) string { return fmt.Sprintf("%s %v", tcs[i].n, tcs[i].in) }, func(i int) string {
		t := tcs[i]
		out, r, e := t.g.Eng(t.in)
		c.State(1)
		c.Trans(int(e.Ops))
		if r.Panic != "" {
			return r.String()
		}
		if t.n == "cmp" {
			lt, eq := int64(0), int64(0)
			if t.in[0].Cmp(t.in[1]) < 0 {
				lt = 1
			}
			if t.in[0].Cmp(t.in[1]) == 0 {
				eq = 1
			}
			if out[0].Int64() != lt || out[1].Int64() != eq {
				return fmt.Sprintf("compare gives %v", out)
			}
		}
		if m := t.g.Agree(t.in, out, r.OK, 0, 1, 2); m != "" {
			return m
		}
		c.Trace(3)
		return ""
	})
}
