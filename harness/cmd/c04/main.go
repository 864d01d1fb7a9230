// C04: index-keyed (transaction and receipt) inclusion binds the leaf to index and root.
package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/rlp"
	gtrie "github.com/ethereum/go-ethereum/trie"
	"github.com/ethereum/go-ethereum/triedb"

	"verif/harness/gk"
	"verif/harness/mc"
	"verif/harness/mptx"
	"verif/harness/trie"
)

func key(i int) []byte {
	b, _ := rlp.EncodeToBytes(uint(i))
	return trie.Nibbles(b)
}

type shape struct {
	name  string
	kvs   []trie.KV
	claim [][]byte // keys to prove about
	along []byte   // key whose path the prover has at hand; another of the trie's by default
	depth int
}

func seq(n int, claim ...int) shape {
	s := shape{name: fmt.Sprintf("block of %d", n), depth: 7}
	for i := 0; i < n; i++ {
		s.kvs = append(s.kvs, trie.KV{K: key(i), V: mptx.Val(byte(i), 40+i%30)})
	}
	for _, i := range claim {
		s.claim = append(s.claim, key(i))
	}
	return s
}

func shapes(c *mc.Ctx) []shape {
	r := []shape{seq(1, 0, 1), seq(2, 0, 1, 2), seq(3, 0, 2), seq(17, 0, 1, 15, 16, 17), seq(128, 0, 5, 127, 128), seq(129, 0, 128), seq(130, 0, 17, 128, 129, 130), seq(257, 0, 255, 256), seq(258, 1, 128, 256, 257, 258), seq(300, 0, 9, 129, 256, 299)}
	at := func(name string, idx []int, claim ...int) shape {
		s := shape{name: name, depth: 5}
		for _, i := range idx {
			s.kvs = append(s.kvs, trie.KV{K: key(i), V: mptx.Val(byte(i), 40)})
		}
		for _, i := range claim {
			s.claim = append(s.claim, key(i))
		}
		return s
	}
	r = append(r, at("leading extension of 5", []int{0x1230, 0x1231}, 0x1230, 0x1231, 0x1232, 0x1330), at("extension of 4", []int{0x1230, 0x1241}, 0x1230, 0x1251, 0x1331),
		at("extensions at two levels", []int{0x1230, 0x1231, 0x4550, 0x4567}, 0x1230, 0x4567, 0x4566), at("one-nibble extension", []int{1, 2}, 1, 2, 3, 0x11))
	// a real path claimed for keys with nibbles inserted, removed or replaced along the way
	for _, kv := range []struct {
		name string
		keys [][]byte
	}{
		{"two branches", [][]byte{{0, 3}, {0, 4}, {8, 1}}},
		{"extensions of equal nibbles", [][]byte{{5, 5, 5, 5, 5, 5}, {5, 5, 5, 5, 5, 6}, {5, 5, 7, 1}}},
	} {
		s := shape{name: kv.name, depth: 5, along: kv.keys[0]}
		for i, k := range kv.keys {
			s.kvs = append(s.kvs, trie.KV{K: k, V: mptx.Val(byte(i), 40)})
		}
		k := kv.keys[0]
		had := map[string]bool{string(k): true}
		add := func(x []byte) {
			if len(x) <= 6 && len(x) > 0 && !had[string(x)] {
				had[string(x)] = true
				s.claim = append(s.claim, x)
			}
		}
		s.claim = append(s.claim, k)
		for p := 0; p <= len(k); p++ {
			for _, f := range [][]byte{{7}, {9, 7}, {5}} {
				add(append(append(append([]byte{}, k[:p]...), f...), k[p:]...))
			}
			if p < len(k) {
				add(append(append([]byte{}, k[:p]...), k[p+1:]...))
				add(append(append(append([]byte{}, k[:p]...), 9), k[p+1:]...))
			}
		}
		// a key inserted together with trailing nibbles nothing consumes
		for i, x := range append([][]byte{}, s.claim...) {
			if i > 0 && !c.Thorough() {
				break
			}
			add(append(append([]byte{}, x...), 0))
		}
		r = append(r, s)
	}
	if c.Thorough() {
		for _, n := range []int{16, 18, 33, 127, 131, 144, 145, 255, 256, 259, 272, 273, 512, 513} {
			r = append(r, seq(n, 0, 1, n/2, n-1, n))
		}
	}
	return r
}

type circuit struct {
	Out frontend.Variable
	w   mptx.WN
}

func (x *circuit) Define(api frontend.API) error {
	r := mptx.GadgetNB(api, x.w, func(v any) frontend.Variable { return v })
	api.AssertIsEqual(r.Output, x.Out)
	return nil
}

func judge(c *mc.Ctx, f mptx.FoundNB) string {
	o := mptx.RunNB(f.W)
	c.Trans(int(o.Ops))
	if f.Exp && !o.Accept() {
		return "genuine proof not accepted: " + o.String()
	}
	if !f.True && o.Accept() {
		return "proof of a node that is not on the key's path accepted: " + o.String()
	}
	if o.R.Panic != "" {
		return o.String()
	}
	return ""
}

func main() {
	mc.Main(mc.Meta{Prop: "C04", QuickBudget: 10 * time.Minute, DeepBudget: 60 * time.Minute,
		Rule:        "every witness of a trie model (nodes on the claimed and on another key's path plus forged leaves and branches, all start offsets and tags) that misses acceptance by at most one intended condition, every single integer-witness deviation of false ones, every single-nibble edit of a genuine one; truth from an independent trie walk",
		Assumptions: []string{"Keccak-256 is collision free", "leaves are at least 32 bytes", "padded levels carry tag 1 and start 7, as an honest caller sets them"}},
		func(c *mc.Ctx) {
			for si, s := range shapes(c) {
				root := trie.Build(s.kvs)
				c.One("reference "+s.name, "root", func() string {
					t := gtrie.NewEmpty(triedb.NewDatabase(rawdb.NewMemoryDatabase(), nil))
					for _, kv := range s.kvs {
						b := make([]byte, len(kv.K)/2)
						for i := range b {
							b[i] = kv.K[2*i]<<4 | kv.K[2*i+1]
						}
						t.MustUpdate(b, kv.V)
					}
					if h := t.Hash(); !bytes.Equal(h[:], root.Hash[:]) {
						return fmt.Sprintf("HARNESS: reference root %x, go-ethereum %x", root.Hash, h)
					}
					return ""
				})
				var fs []mptx.FoundNB
				for ci, k := range s.claim {
					var uni []*trie.Node
					had := map[[32]byte]bool{}
					other := s.kvs[(ci*7+len(s.kvs)-1)%len(s.kvs)].K
					if s.along != nil {
						other = s.along
					}
					for _, p := range [][]byte{k, other} {
						for _, n := range root.Path(p) {
							if !had[n.Hash] {
								had[n.Hash] = true
								uni = append(uni, n)
							}
						}
					}
					g := mptx.ExploreNB(c, root, k, uni, s.depth, 1, 2)
					_, present := root.Get(k)
					ok := !present
					for _, f := range g {
						if f.Exp && !f.True {
							panic("model accepts a false claim: " + f.Desc)
						}
						ok = ok || f.Exp
					}
					if !ok {
						panic("no genuine witness for " + fmt.Sprintf("%x", k))
					}
					fs = append(fs, g...)
				}
				// quick: all genuine witnesses and a fixed slice of the rest of the large tries
				if !c.Thorough() && s.depth == 7 && len(s.kvs) > 100 {
					var g []mptx.FoundNB
					for i, f := range fs {
						if f.Exp || !f.True && i%4 == 0 {
							g = append(g, f)
						}
					}
					fs = g
				}
				gen := 0
				for _, f := range fs {
					if f.Exp {
						gen++
					}
				}
				c.Extra("shape "+s.name, fmt.Sprintf("%d claims, %d genuine witnesses, %d near misses", len(s.claim), gen, len(fs)-gen))
				c.Each("near "+s.name, len(fs), func(i int) string { return fs[i].Desc }, func(i int) string { return judge(c, fs[i]) })
				if c.Thorough() || s.depth == 5 || si == 1 {
					var ds, es []mptx.FoundNB
					n := 0
					for _, f := range fs {
						if f.True {
							continue
						}
						if n++; !c.Thorough() && n > 8 {
							break
						}
						ws, dd := mptx.DeviationsNB(f.W)
						for i := range ws {
							ds = append(ds, mptx.FoundNB{W: ws[i], Desc: f.Desc + " with " + dd[i]})
						}
					}
					n = 0
					for _, f := range fs {
						if !f.Exp || f.W.Depth < 2 || n > 0 && !c.Thorough() {
							continue
						}
						n++
						add := func(d string, g func(*mptx.WN)) {
							x := f.W.Clone()
							for i := range x.Nodes {
								x.Nodes[i] = append([]byte{}, x.Nodes[i]...)
							}
							g(&x)
							es = append(es, mptx.FoundNB{W: x, Desc: f.Desc + " edit " + d})
						}
						for i := 0; i < 64; i++ {
							add(fmt.Sprintf("root nibble %d", i), func(x *mptx.WN) { x.Root[i/2] ^= 1 << uint(i%2*4) })
							add(fmt.Sprintf("leaf nibble %d", i), func(x *mptx.WN) { x.Leaf[i/2] ^= 4 << uint(i%2*4) })
						}
						for i := 0; i < f.W.Starts[f.W.Depth-1]; i++ {
							add(fmt.Sprintf("key %d", i), func(x *mptx.WN) { x.Key[i] ^= 1 })
						}
						for j := 0; j < f.W.Depth-1; j++ {
							for i := 0; i < 2*len(f.W.Nodes[j]); i += mc.Pick(c, 3, 1) {
								add(fmt.Sprintf("node %d nibble %d", j, i), func(x *mptx.WN) { x.Nodes[j][i/2] ^= 2 << uint(i%2*4) })
							}
						}
					}
					c.Each("integer deviations "+s.name, len(ds), func(i int) string { return ds[i].Desc }, func(i int) string { return judge(c, ds[i]) })
					c.Each("edits "+s.name, len(es), func(i int) string { return es[i].Desc }, func(i int) string { return judge(c, es[i]) })
				}
				if si == 1 {
					c.Each("gnark", 3, func(i int) string { return fs[i*2].Desc }, func(i int) string {
						f := fs[i*2]
						o := mptx.RunNB(f.W)
						for _, v := range []int{0, 1} {
							err := test.IsSolved(&circuit{w: f.W}, &circuit{Out: v, w: f.W}, gk.BN254)
							if (err == nil) != (o.R.OK && o.Output == int64(v)) {
								return fmt.Sprintf("HARNESS: gnark says %v for output %d, engine %s", err, v, o)
							}
						}
						c.Trace(2)
						return ""
					})
				}
			}
		})
}
