// C21: sparse-Merkle inclusion.
package main

import (
	"fmt"
	"math/big"
	"sync/atomic"

	"github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	nbn "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/hash/mimc"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

func main() {
	mc.Main(mc.Meta{Prop: "C21",
		Rule:        "complete sparse Merkle trees of every depth up to the bound, each leaf holding a value tree of every depth up to a bound: every key and every value position gives a genuine proof, which must be accepted; every such proof with one part changed (value, each value-tree sibling or direction, each sibling, each direction, root, value taken from another key, path taken from another key, siblings exchanged) must give exactly what hashing the parts upward gives; also every path over a small alphabet of siblings (0, 1, the node itself) against its own root, the roots of the paths with one level left out, and small roots; direction inputs that are not bits and lists of the wrong length are refused",
		Assumptions: []string{"gnark-crypto's native MiMC is the reference"},
	}, run)
}

func bl(x *big.Int) []byte { b := make([]byte, 32); return x.FillBytes(b) }

func hh(xs ...*big.Int) *big.Int {
	h := nbn.NewMiMC()
	for _, x := range xs {
		h.Write(bl(x))
	}
	return new(big.Int).SetBytes(h.Sum(nil))
}

// proof as the gadget takes it
type proof struct {
	vt   []*big.Int // value, then its siblings
	vd   []*big.Int // directions in the value tree
	d    []*big.Int
	s    []*big.Int
	root *big.Int
}

func (p proof) clone() proof {
	cp := func(a []*big.Int) (r []*big.Int) {
		for _, x := range a {
			r = append(r, new(big.Int).Set(x))
		}
		return
	}
	return proof{cp(p.vt), cp(p.vd), cp(p.d), cp(p.s), new(big.Int).Set(p.root)}
}

func up(v *big.Int, dirs, sib []*big.Int) *big.Int {
	v = hh(v)
	for i, s := range sib {
		if dirs[i].Sign() == 0 {
			v = hh(v, s)
		} else {
			v = hh(s, v)
		}
	}
	return v
}

// genuine is what the definition says
func (p proof) genuine() bool {
	return up(up(p.vt[0], p.vd, p.vt[1:]), p.d, p.s).Cmp(p.root) == 0
}

type tree struct{ lv [][]*big.Int }

func build(leaves []*big.Int) tree {
	t := tree{[][]*big.Int{leaves}}
	for len(leaves) > 1 {
		var m []*big.Int
		for i := 0; i < len(leaves); i += 2 {
			m = append(m, hh(leaves[i], leaves[i+1]))
		}
		t.lv = append(t.lv, m)
		leaves = m
	}
	return t
}
func (t tree) root() *big.Int { return t.lv[len(t.lv)-1][0] }
func (t tree) path(k int) (d, s []*big.Int) {
	for l := 0; l+1 < len(t.lv); l++ {
		d = append(d, big.NewInt(int64(k&1)))
		s = append(s, t.lv[l][k^1])
		k >>= 1
	}
	return
}

func (p proof) run(api frontend.API, e func(*big.Int) F, h mimc.MiMC) F {
	vs := func(a []*big.Int) (r []F) {
		for _, x := range a {
			r = append(r, e(x))
		}
		return
	}
	return smt.CheckSMTInclusion(api, h, len(p.s), vs(p.vt), vs(p.vd), vs(p.d), vs(p.s), e(p.root))
}

func run(c *mc.Ctx) {
	P := gk.BN254
	maxD, maxV := mc.Pick(c, 4, 6), mc.Pick(c, 2, 3)
	type cas struct {
		name string
		p    proof
		bad  int // 0 decide by definition, 1 must be refused
	}
	var cs []cas
	for d := 0; d <= maxD; d++ {
		for v := 0; v <= maxV; v++ {
			// leaf value trees; leaf 1 (if any) equals leaf 0, the last is empty
			var vts []tree
			var leaves []*big.Int
			for k := 0; k < 1<<d; k++ {
				var vals []*big.Int
				for j := 0; j < 1<<v; j++ {
					x := big.NewInt(int64(1000*k + j + 1))
					if k == 1 {
						x = big.NewInt(int64(j + 1))
					}
					if k > 1 && k == 1<<d-1 {
						x = new(big.Int)
					}
					if k == 2 {
						x = new(big.Int).Sub(P, big.NewInt(int64(j+1)))
					}
					vals = append(vals, x)
				}
				hv := make([]*big.Int, len(vals))
				for j := range vals {
					hv[j] = hh(vals[j])
				}
				t := build(hv)
				// remember the plain values below the tree
				t.lv = append([][]*big.Int{vals}, t.lv...)
				vts = append(vts, t)
				leaves = append(leaves, hh(t.root()))
			}
			T := build(leaves)
			gen := func(k, j int) proof {
				vt := tree{vts[k].lv[1:]}
				vd, vs := vt.path(j)
				dd, ss := T.path(k)
				return proof{append([]*big.Int{vts[k].lv[0][j]}, vs...), vd, dd, ss, T.root()}
			}
			for k := 0; k < 1<<d; k++ {
				for j := 0; j < 1<<v; j++ {
					at := fmt.Sprintf("depth %d values %d key %d value %d ", d, 1<<v, k, j)
					add := func(what string, bad int, f func(p *proof)) {
						p := gen(k, j).clone()
						f(&p)
						cs = append(cs, cas{at + what, p, bad})
					}
					one := big.NewInt(1)
					inc := func(x *big.Int) { x.Add(x, one).Mod(x, P) }
					add("genuine", 0, func(p *proof) {})
					add("root", 0, func(p *proof) { inc(p.root) })
					add("root 0", 0, func(p *proof) { p.root.SetInt64(0) })
					for i := range gen(k, j).vt {
						add(fmt.Sprintf("value tree %d", i), 0, func(p *proof) { inc(p.vt[i]) })
					}
					for i := range gen(k, j).vd {
						add(fmt.Sprintf("value direction %d", i), 0, func(p *proof) { p.vd[i].Sub(one, p.vd[i]) })
						add(fmt.Sprintf("value direction %d not a bit", i), 1, func(p *proof) { p.vd[i].SetInt64(2) })
					}
					for i := range gen(k, j).s {
						add(fmt.Sprintf("sibling %d", i), 0, func(p *proof) { inc(p.s[i]) })
						add(fmt.Sprintf("direction %d", i), 0, func(p *proof) { p.d[i].Sub(one, p.d[i]) })
						add(fmt.Sprintf("direction %d not a bit", i), 1, func(p *proof) { p.d[i].Sub(P, one) })
						if i > 0 {
							add(fmt.Sprintf("siblings %d exchanged", i), 0, func(p *proof) { p.s[i], p.s[i-1] = p.s[i-1], p.s[i] })
						}
					}
					if d > 0 {
						add("too few directions", 1, func(p *proof) { p.d = p.d[:d-1] })
						add("one level short", 0, func(p *proof) { p.d, p.s = p.d[:d-1], p.s[:d-1] })
					}
					add("more value siblings than directions", 1, func(p *proof) { p.vt = append(p.vt, big.NewInt(4)) })
					add("more value directions than siblings", 1, func(p *proof) { p.vd = append(p.vd, big.NewInt(0)) })
					add("unused direction", 0, func(p *proof) { p.d = append(p.d, big.NewInt(1)) })
					for k2 := 0; k2 < 1<<d; k2++ {
						if k2 == k || k2 != k^1 && k2 != (k+1)%(1<<d) && !c.Thorough() {
							continue
						}
						add(fmt.Sprintf("value of key %d", k2), 0, func(p *proof) { o := gen(k2, j).clone(); p.vt, p.vd = o.vt, o.vd })
						add(fmt.Sprintf("directions of key %d", k2), 0, func(p *proof) { p.d = gen(k2, j).clone().d })
					}
				}
			}
		}
	}
	// every path over a small alphabet of siblings (nothing, one, the node itself) and its root, with the roots of
	// the paths that leave one level out
	vocab := func(v *big.Int, d int) (ps []proof) { // vt, vd used for the path
		var rec func(node *big.Int, p proof)
		rec = func(node *big.Int, p proof) {
			if len(p.vd) == d {
				p.root = node
				ps = append(ps, p)
				return
			}
			for _, s := range []*big.Int{new(big.Int), big.NewInt(1), node} {
				for dir := int64(0); dir < 2; dir++ {
					n := hh(node, s)
					if dir == 1 {
						n = hh(s, node)
					}
					q := p.clone()
					q.vt, q.vd = append(q.vt, s), append(q.vd, big.NewInt(dir))
					rec(n, q)
				}
			}
		}
		rec(hh(v), proof{vt: []*big.Int{v}, root: new(big.Int)})
		return
	}
	for _, x := range []int64{0, 9} {
		for v := 0; v < 2; v++ {
			for _, vp := range vocab(big.NewInt(x), v) {
				for d := 1; d <= mc.Pick(c, 3, 4); d++ {
					for k, tp := range vocab(vp.root, d) {
						if v == 1 && d > 2 && k%7 != int(x)%7 && !c.Thorough() {
							continue
						}
						p := proof{vp.vt, vp.vd, tp.vd, tp.vt[1:], tp.root}
						at := fmt.Sprintf("value %d at %d of %d, path %d of depth %d ", x, len(cs), v, k, d)
						cs = append(cs, cas{at, p, 0})
						for i := 0; i < d; i++ {
							q := p.clone()
							q.s, q.d = append(q.s[:i], q.s[i+1:]...), append(q.d[:i], q.d[i+1:]...)
							p.root = up(vp.root, q.d, q.s)
							cs = append(cs, cas{at + fmt.Sprintf("level %d left out of the root", i), p, 0})
						}
						for _, r := range []*big.Int{new(big.Int), big.NewInt(1), vp.root, p.s[d-1]} {
							p.root = r
							cs = append(cs, cas{at + fmt.Sprintf("root %d", len(cs)), p, 0})
						}
					}
				}
			}
		}
	}
	var acc [2]int64
	c.Each("inclusion", len(cs), func(i int) string { return cs[i].name }, func(i int) string {
		k := cs[i]
		c.State(1)
		e := eng.New(P)
		var out F
		r := e.Run(func(api frontend.API) error {
			h, err := mimc.NewMiMC(api)
			if err != nil {
				return err
			}
			h.Write(e.Val(3))
			out = k.p.run(api, func(x *big.Int) F { return e.Val(x) }, h)
			return nil
		})
		c.Trans(int(e.Ops))
		if k.bad == 1 {
			if r.OK {
				return "not refused"
			}
			return ""
		}
		if !r.OK {
			return r.String()
		}
		w := int64(0)
		if k.p.genuine() {
			w = 1
		}
		if e.Int(out) != w {
			return fmt.Sprintf("result %d, definition %d", e.Int(out), w)
		}
		atomic.AddInt64(&acc[w], 1)
		return ""
	})
	c.Extra("genuine", acc[1])
	c.Extra("not_genuine", acc[0])

	// gnark
	shape := cs[0].p
	for _, k := range cs {
		if len(k.p.s) == 2 && len(k.p.vt) == 2 && len(k.p.vd) == 1 && len(k.p.d) == 2 {
			shape = k.p
			break
		}
	}
	nvt, nvd, ns := len(shape.vt), len(shape.vd), len(shape.s)
	g := gk.New(P, nvt+nvd+2*ns+1, 1, func(api frontend.API, in []F) []F {
		h, _ := mimc.NewMiMC(api)
		a := nvt + nvd
		return []F{smt.CheckSMTInclusion(api, h, ns, in[:nvt], in[nvt:a], in[a:a+ns], in[a+ns:a+2*ns], in[a+2*ns])}
	})
	var gs []cas
	for _, k := range cs {
		if len(k.p.vt) == nvt && len(k.p.vd) == nvd && len(k.p.s) == ns && len(k.p.d) == ns {
			gs = append(gs, k)
		}
	}
	c.Each("inclusion gnark", len(gs), func(i int) string { return gs[i].name }, func(i int) string {
		k := gs[i]
		in := append(append(append(append(append([]*big.Int{}, k.p.vt...), k.p.vd...), k.p.d...), k.p.s...), k.p.root)
		w := int64(0)
		if k.bad == 0 && k.p.genuine() {
			w = 1
		}
		c.Trace(2)
		if m := g.Agree(in, []*big.Int{big.NewInt(w)}, k.bad == 0, i%2, 2); m != "" {
			return m
		}
		if k.bad == 0 {
			// the other answer must not be provable
			return g.Agree(in, []*big.Int{big.NewInt(1 - w)}, false, i%2)
		}
		return ""
	})
}
