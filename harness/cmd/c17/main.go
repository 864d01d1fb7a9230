// C17: limb splitting, merging, re-splitting and rotation, against a prover
// who answers every hint with any tuple of field elements.
package main

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

type spec struct {
	p      int64
	sizes  []int // limb sizes of the input, most significant first
	op     string
	a, b   int // op parameters
	maxDev int
}

func (s spec) String() string {
	return fmt.Sprintf("%s(%d,%d) sizes=%v p=%d", s.op, s.a, s.b, s.sizes, s.p)
}

func (s spec) total() int {
	t := 0
	for _, x := range s.sizes {
		t += x
	}
	return t
}

// bits of the input, most significant first; nil when a limb does not fit
func (s spec) bits(v []int64) []int {
	var r []int
	for i, x := range v {
		if s.sizes[i] < 62 && x >= 1<<uint(s.sizes[i]) {
			return nil
		}
		for k := s.sizes[i] - 1; k >= 0; k-- {
			r = append(r, int(x>>uint(k))&1)
		}
	}
	return r
}

func val(b []int) *big.Int {
	r := new(big.Int)
	for _, x := range b {
		r.Lsh(r, 1)
		r.Add(r, big.NewInt(int64(x)))
	}
	return r
}

// want gives the limb sizes and values the operation must produce.
func (s spec) want(bits []int) (sz []int, vs []*big.Int) {
	chop := func(b []int, n, max int) {
		for k := 0; len(b) > 0; k++ {
			m := n
			if m > len(b) || (max > 0 && k >= max) {
				m = len(b)
			}
			sz, vs = append(sz, m), append(vs, val(b[:m]))
			b = b[m:]
		}
	}
	switch s.op {
	case "split":
		chop(bits, s.a, s.b)
	case "merge":
		sz, vs = []int{len(bits)}, []*big.Int{val(bits)}
	case "resplit":
		chop(bits, s.a, 0)
	case "lrotmerge":
		r := append(append([]int{}, bits[s.a:]...), bits[:s.a]...)
		sz, vs = []int{len(r)}, []*big.Int{val(r)}
	case "lrot":
		r := append(append([]int{}, bits[s.a:]...), bits[:s.a]...)
		chop(r, s.b, 0)
	}
	return
}

func (s spec) apply(api frontend.API, in []F) limbs.Limbs {
	la := limbs.NewAPI(api)
	ws := make(limbs.Limbs, len(in))
	for i := range in {
		ws[i] = limbs.Limb{Val: in[i], Size: s.sizes[i]}
	}
	switch s.op {
	case "split":
		if s.b > 0 {
			return la.Split(ws[0], s.a, s.b)
		}
		return la.Split(ws[0], s.a)
	case "merge":
		return limbs.Limbs{la.Merge(ws)}
	case "resplit":
		return la.Resplit(ws, s.a)
	case "lrotmerge":
		return limbs.Limbs{la.LrotMerge(ws, s.a)}
	case "lrot":
		return la.Lrot(ws, s.a, s.b)
	}
	panic(s.op)
}

// passThrough: the operation hands the input on without looking inside it
func (s spec) splitsNothing() bool {
	return (s.op == "split" && s.a == s.total()) || s.op == "merge" || s.op == "lrotmerge" || s.op == "lrot" ||
		(s.op == "resplit")
}

// answers: every tuple of the field when that space is small, otherwise the
// honest answer with any two coordinates replaced by any values.
func answers(p int64, h []*big.Int) (int, func(int) []*big.Int) {
	t := int64(1)
	for range h {
		t *= p
		if t > 2500 {
			break
		}
	}
	if t <= 2500 {
		return int(t), func(k int) []*big.Int {
			r := make([]*big.Int, len(h))
			x := int64(k)
			for i := range r {
				r[i] = big.NewInt(x % p)
				x /= p
			}
			return r
		}
	}
	type pr struct{ i, j int }
	var ps []pr
	for i := range h {
		for j := i + 1; j < len(h); j++ {
			ps = append(ps, pr{i, j})
		}
	}
	return len(ps) * int(p*p), func(k int) []*big.Int {
		q := ps[k/int(p*p)]
		x := int64(k) % (p * p)
		r := append([]*big.Int{}, h...)
		r[q.i], r[q.j] = big.NewInt(x%p), big.NewInt(x/p)
		return r
	}
}

func compositions(total, maxParts int) [][]int {
	if total == 0 {
		return [][]int{{}}
	}
	if maxParts == 0 {
		return nil
	}
	var r [][]int
	for f := 1; f <= total; f++ {
		for _, rest := range compositions(total-f, maxParts-1) {
			r = append(r, append([]int{f}, rest...))
		}
	}
	return r
}

func main() {
	mc.Main(mc.Meta{Prop: "C17",
		Rule:        "for a small prime field: every word/limb vector, every limb size, part count and rotation amount; every hint call is a choice point over all tuples of the field (complete when the tuple space is small, otherwise one deviating answer per path); an accepted execution must output exactly the bit-string result, and the honest one must be accepted",
		Assumptions: []string{"rotation and merging are checked where the total width is below the field width, the range in which the merged word is representable"},
	}, run)
}

func run(c *mc.Ctx) {
	var specs []spec
	addAll := func(p int64, fbits, maxTotal, maxParts, dev int) {
		for tot := 1; tot <= maxTotal; tot++ {
			for a := 1; a <= tot; a++ {
				specs = append(specs, spec{p, []int{tot}, "split", a, 0, dev})
				for b := 1; b*a <= tot; b++ {
					specs = append(specs, spec{p, []int{tot}, "split", a, b, dev})
				}
			}
			for _, cs := range compositions(tot, maxParts) {
				if tot < fbits {
					specs = append(specs, spec{p, cs, "merge", 0, 0, dev})
				}
				for a := 1; a <= tot; a++ {
					specs = append(specs, spec{p, cs, "resplit", a, 0, dev})
				}
				if tot < fbits {
					for a := 0; a <= tot; a++ {
						specs = append(specs, spec{p, cs, "lrotmerge", a, 0, dev})
						for b := 1; b <= tot; b++ {
							specs = append(specs, spec{p, cs, "lrot", a, b, dev})
						}
					}
				}
			}
		}
	}
	splits := func(p int64, maxTotal int) {
		for tot := 1; tot <= maxTotal; tot++ {
			for a := 1; a <= tot; a++ {
				for b := 0; b*a <= tot; b++ {
					if n := (tot + a - 1) / a; b == 0 && n > 3 {
						continue
					}
					if b > 2 {
						continue
					}
					specs = append(specs, spec{p, []int{tot}, "split", a, b, 1})
				}
			}
		}
	}
	addAll(5, 3, mc.Pick(c, 3, 5), 2, mc.Pick(c, 2, 2))
	addAll(5, 3, 4, 2, 1)
	addAll(7, 3, mc.Pick(c, 3, 5), mc.Pick(c, 2, 3), 1)
	addAll(11, 4, mc.Pick(c, 3, 5), 2, 1)
	if c.Thorough() {
		addAll(13, 4, 4, 3, 1)
		addAll(31, 5, 5, 2, 1)
	}
	splits(13, 5)
	splits(31, mc.Pick(c, 6, 8))
	// honest prover over wider words
	nAdv := len(specs)
	addAll(127, 7, 9, 3, 0)
	addAll(251, 8, mc.Pick(c, 9, 10), 2, 0)
	c.Each("hints", len(specs), func(i int) string { return specs[i].String() }, func(i int) string {
		s := specs[i]
		adv := i < nAdv
		n := 1
		for _, z := range s.sizes {
			m := int(s.p)
			if !adv && z < 20 && 1<<uint(z) < m {
				m = 1 << uint(z)
			}
			n *= m
		}
		if n > 70000 {
			n = 70000 // bound on wide honest-only vectors
		}
		for x := 0; x < n; x++ {
			in := make([]int64, len(s.sizes))
			y := x
			for k := range in {
				m := int(s.p)
				if !adv && s.sizes[k] < 20 && 1<<uint(s.sizes[k]) < m {
					m = 1 << uint(s.sizes[k])
				}
				in[k] = int64(y % m)
				y /= m
			}
			bits := s.bits(in)
			var wsz []int
			var wv []*big.Int
			if bits != nil {
				wsz, wv = s.want(bits)
			}
			path := &eng.Path{MaxDev: s.maxDev}
			honest := true
			for {
				e := eng.NewSmall(s.p)
				e.Ch = path
				if adv {
					e.Alt = func(name string, _, h []*big.Int) (int, func(int) []*big.Int) { return answers(s.p, h) }
				}
				vs := make([]F, len(in))
				for k := range in {
					vs[k] = e.Val(in[k])
				}
				var out limbs.Limbs
				r := e.Run(func(api frontend.API) error { out = s.apply(api, vs); return nil })
				c.State(1)
				c.Trans(int(e.Ops))
				if r.Panic != "" {
					return fmt.Sprintf("input %v: %v", in, r)
				}
				if bits == nil {
					// an oversized limb must not get through an operation that cuts it up
					if r.OK && s.op == "split" && s.a != s.sizes[0] {
						return fmt.Sprintf("word %v does not fit %v bits but splits as %v (choices %v)", in, s.sizes, vals(e, out), path.Choices())
					}
				} else {
					if honest && !r.OK {
						return fmt.Sprintf("input %v rejected with honest hints: %v", in, r)
					}
					if r.OK {
						got := vals(e, out)
						if len(got) != len(wv) {
							return fmt.Sprintf("input %v: %d limbs, want %d", in, len(got), len(wv))
						}
						for k := range got {
							if out[k].Size != wsz[k] {
								return fmt.Sprintf("input %v: limb %d has size %d, want %d", in, k, out[k].Size, wsz[k])
							}
							if new(big.Int).Sub(got[k], wv[k]).Mod(new(big.Int).Sub(got[k], wv[k]), big.NewInt(s.p)).Sign() != 0 {
								return fmt.Sprintf("input %v: limbs %v, want %v (choices %v %v)", in, got, wv, path.Choices(), path.Whats)
							}
						}
					}
				}
				honest = false
				if c.Expired() || !path.Next() {
					break
				}
			}
		}
		return ""
	})
	// BN254: shapes used by the non-native element code, real solver with honest and lying hints
	type cs struct {
		s  spec
		in []*big.Int
		bl []*big.Int // lying hint answer (nil: honest)
		ok bool
	}
	var cases []cs
	u := func(bits uint, d int64) *big.Int {
		return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(d))
	}
	for _, w := range []*big.Int{big.NewInt(0), big.NewInt(1), u(63, 5), u(64, -1), u(32, 0), u(63, -1)} {
		cases = append(cases, cs{spec{0, []int{64}, "split", 8, 0, 0}, []*big.Int{w}, nil, true})
		cases = append(cases, cs{spec{0, []int{64}, "split", 20, 2, 0}, []*big.Int{w}, nil, true})
		cases = append(cases, cs{spec{0, []int{64, 64, 64, 64}, "resplit", 8, 0, 0}, []*big.Int{w, w, u(62, 1), w}, nil, true})
		cases = append(cases, cs{spec{0, []int{64, 64, 64, 64}, "resplit", 128, 0, 0}, []*big.Int{w, big.NewInt(7), w, w}, nil, true})
		cases = append(cases, cs{spec{0, []int{64, 64, 64, 64}, "resplit", 96, 0, 0}, []*big.Int{w, big.NewInt(7), w, w}, nil, true})
		cases = append(cases, cs{spec{0, []int{127, 127}, "resplit", 64, 0, 0}, []*big.Int{u(127, -1), u(127, -5)}, nil, true})
		cases = append(cases, cs{spec{0, []int{64, 64, 64}, "lrot", 5, 64, 0}, []*big.Int{w, w, u(60, 3)}, nil, true})
	}
	cases = append(cases, cs{spec{0, []int{64}, "split", 8, 0, 0}, []*big.Int{u(64, 0)}, nil, false})
	cases = append(cases, cs{spec{0, []int{16}, "split", 8, 0, 0}, []*big.Int{big.NewInt(0x1234)}, gk.Ints(0x11, 0x134), false})
	cases = append(cases, cs{spec{0, []int{16}, "split", 8, 0, 0}, []*big.Int{big.NewInt(0x1234)}, []*big.Int{big.NewInt(0x13), new(big.Int).Sub(gk.BN254, big.NewInt(0xcc))}, false})
	cases = append(cases, cs{spec{0, []int{256}, "split", 64, 0, 0}, []*big.Int{big.NewInt(5)}, limb64(new(big.Int).Add(gk.BN254, big.NewInt(5))), false})
	c.Each("bn254 solver", len(cases), func(i int) string {
		return fmt.Sprintf("%v in=%v lie=%v", cases[i].s, cases[i].in, cases[i].bl)
	}, func(i int) string {
		t := cases[i]
		var bits []int
		for k, w := range t.in {
			for j := t.s.sizes[k] - 1; j >= 0; j-- {
				bits = append(bits, int(w.Bit(j)))
			}
		}
		_, want := t.s.want(bits)
		outs := want
		var opts []solver.Option
		if t.bl != nil {
			outs = t.bl
			opts = append(opts, solver.OverrideHint(solver.GetHintID(limbs.SplitHint), func(_ *big.Int, _, o []*big.Int) error {
				for k := range o {
					o[k].Set(t.bl[k])
				}
				return nil
			}))
		} else if !t.ok {
			outs = make([]*big.Int, len(want))
			limbs.SplitHint(nil, []*big.Int{t.in[0], big.NewInt(int64(t.s.sizes[0])), big.NewInt(int64(t.s.a)), big.NewInt(int64(t.s.sizes[0] / t.s.a))}, outs)
		}
		opts = append(opts, solver.WithHints(limbs.SplitHint))
		g := gk.New(gk.BN254, len(t.in), len(outs), func(api frontend.API, in []F) []F { return t.s.apply(api, in).Values() })
		for _, kind := range []int{0, 1} {
			err := g.Solve(kind, t.in, outs, opts...)
			if (err == nil) != t.ok {
				return fmt.Sprintf("backend %d: accepted=%v (%v), expected %v", kind, err == nil, err, t.ok)
			}
			c.Trace(1)
		}
		if t.bl == nil {
			out, r, e := g.Eng(t.in)
			c.State(1)
			c.Trans(int(e.Ops))
			if r.OK != t.ok {
				return r.String()
			}
			for k := range out {
				if out[k].Cmp(want[k]) != 0 {
					return fmt.Sprintf("limb %d = %v, want %v", k, out[k], want[k])
				}
			}
		}
		return ""
	})
}

func limb64(x *big.Int) []*big.Int {
	r := make([]*big.Int, 4)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range r {
		r[3-i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m)
	}
	return r
}

func vals(e *eng.Engine, l limbs.Limbs) []*big.Int {
	r := make([]*big.Int, len(l))
	for i := range l {
		r[i] = e.Big(l[i].Val)
	}
	return r
}
