package mptx

import (
	"bytes"
	"fmt"
	"time"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
	"github.com/ethereum/go-ethereum/core/rawdb"
	gtrie "github.com/ethereum/go-ethereum/trie"
	"github.com/ethereum/go-ethereum/triedb"

	"verif/harness/gk"
	"verif/harness/mc"
	"verif/harness/trie"
)

func pack(n []byte) []byte {
	b := make([]byte, len(n)/2)
	for i := range b {
		b[i] = n[2*i]<<4 | n[2*i+1]
	}
	return b
}

// Main is the whole check for inclusion (zero=false) or exclusion (zero=true) claims.
func Main(prop string, zero bool) {
	mc.Main(mc.Meta{Prop: prop, QuickBudget: 10 * time.Minute, DeepBudget: 60 * time.Minute,
		Rule:        "every witness of a trie model (real nodes plus forged leaves and branches, all start offsets and tags) that misses acceptance by at most one intended condition, every single integer-witness deviation of those, and every single-nibble edit of a genuine witness; each replayed on the real gadget; truth from an independent trie",
		Assumptions: []string{"Keccak-256 is collision free (distinct nodes have distinct hashes)", "trie nodes are at least 32 bytes (no embedded children), as in hashed-key tries", "padded levels of an honest witness carry tag 1 and start 64"}},
		func(c *mc.Ctx) {
			modes := []bool{true}
			if !zero {
				modes = []bool{true, false}
			}
			for _, storage := range modes {
				maxVal, mv := 32, mpt.MaxValueLengthForStorage
				if !storage {
					maxVal, mv = 112, mpt.MaxValueLengthForAccount
				}
				for _, s := range Shapes(c.Thorough(), maxVal) {
					s := s
					tag := fmt.Sprintf("%s/storage=%v", s.Name, storage)
					root := trie.Build(s.KVs)
					if !storage && !c.Thorough() && s.Name != "BL" && s.Name != "EBL" && s.Name != "L" {
						continue
					}
					// the reference trie is go-ethereum's trie
					c.One("reference "+tag, "root and proof nodes", func() string {
						t := gtrie.NewEmpty(triedb.NewDatabase(rawdb.NewMemoryDatabase(), nil))
						for _, kv := range s.KVs {
							t.MustUpdate(pack(kv.K), kv.V)
						}
						if h := t.Hash(); !bytes.Equal(h[:], root.Hash[:]) {
							return fmt.Sprintf("HARNESS: reference root %x, go-ethereum %x", root.Hash, h)
						}
						return ""
					})
					var fs []Found
					cls := Claims(s, root, zero)
					for _, cl := range cls {
						viol := 1
						if s.Name == "L" && c.Thorough() {
							viol = 2
						}
						fs = append(fs, Explore(c, s, root, cl, storage, viol, mv)...)
					}
					if s.Name == "B6L" && !c.Thorough() {
						// every genuine witness and every seventh near miss
						var g []Found
						for i, f := range fs {
							if f.Exp || i%7 == 0 {
								g = append(g, f)
							}
						}
						fs = g
					}
					gen := 0
					for _, f := range fs {
						if f.Exp {
							gen++
							if !f.Claim.True {
								panic("model accepts a false claim: " + f.Desc)
							}
						}
					}
					for _, cl := range cls {
						ok := !cl.True
						for _, f := range fs {
							ok = ok || (f.Exp && bytes.Equal(f.Claim.Key, cl.Key) && bytes.Equal(f.Claim.Value, cl.Value))
						}
						if !ok {
							panic("no genuine witness for a true claim in " + tag)
						}
					}
					c.Extra("shape "+tag, fmt.Sprintf("%d claims, %d genuine witnesses, %d near misses", len(cls), gen, len(fs)-gen))
					c.Each("near "+tag, len(fs), func(i int) string { return fs[i].Desc }, func(i int) string {
						return Judge(c, fs[i])
					})
					// integer deviations of false-claim near misses
					var ds []Found
					lim := map[string]int{}
					for _, f := range fs {
						if f.Claim.True {
							continue
						}
						id := fmt.Sprintf("%x/%x", f.Claim.Key, f.Claim.Value)
						if !c.Thorough() && (s.Name != "BL" && s.Name != "EBL" || lim[id] >= 2 || len(lim) > 3 && lim[id] == 0) {
							continue
						}
						lim[id]++
						ws, dd := Deviations(f.W)
						for i := range ws {
							ds = append(ds, Found{W: ws[i], Claim: f.Claim, Desc: f.Desc + " with " + dd[i]})
						}
					}
					c.Each("integer deviations "+tag, len(ds), func(i int) string { return ds[i].Desc }, func(i int) string {
						return Judge(c, ds[i])
					})
					if s.Name == "EBL" || s.Name == "BL" || c.Thorough() && s.Name != "B6L" {
						edits(c, tag, root, fs, storage)
					}
				}
			}
			conform(c, zero)
		})
}

// edits changes every nibble of a genuine witness.
func edits(c *mc.Ctx, tag string, root *trie.Node, fs []Found, storage bool) {
	var es []Found
	n := 0
	for _, f := range fs {
		if !f.Exp || f.W.Depth < 2 || n > 0 && !c.Thorough() {
			continue
		}
		n++
		w := f.W
		add := func(d string, g func(*W), truth func(W) bool) {
			x := w.Clone()
			x.Last = append([]byte{}, w.Last...)
			for i := range x.Nodes {
				x.Nodes[i] = append([]byte{}, w.Nodes[i]...)
			}
			g(&x)
			es = append(es, Found{W: x, Claim: Claim{Key: x.Key, Value: x.Value, True: truth(x)}, Desc: f.Desc + " edit " + d})
		}
		tr := func(x W) bool { return Truth(root, x.Key, x.Value) }
		no := func(W) bool { return false } // the edited node is not on the path any more
		for i := range w.Key {
			add(fmt.Sprintf("key[%d]", i), func(x *W) { x.Key[i] = (x.Key[i] + 1) & 15 }, tr)
		}
		for i := 0; i < 2*len(w.Value); i++ {
			add(fmt.Sprintf("value nibble %d", i), func(x *W) { x.Value[i/2] ^= 1 << (4 * uint(1-i%2)) }, tr)
		}
		for i := 0; i < 64; i++ {
			add(fmt.Sprintf("root nibble %d", i), func(x *W) { x.Root[i/2] ^= 8 >> (i % 4) << (4 * uint(1-i%2)) }, no)
		}
		step := mc.Pick(c, 3, 1)
		for i := 0; i < 2*len(w.Last); i += step {
			add(fmt.Sprintf("last node nibble %d", i), func(x *W) { x.Last[i/2] ^= 1 << (4 * uint(1-i%2)) }, no)
		}
		for j := 0; j < w.Depth-1; j++ {
			for i := 0; i < 2*len(w.Nodes[j]); i += step {
				add(fmt.Sprintf("node %d nibble %d", j, i), func(x *W) { x.Nodes[j][i/2] ^= 2 << (4 * uint(1-i%2)) }, no)
			}
		}
	}
	c.Each("edits "+tag, len(es), func(i int) string { return es[i].Desc }, func(i int) string { return Judge(c, es[i]) })
}

type circuit struct {
	Out frontend.Variable
	w   W
}

func (x *circuit) Define(api frontend.API) error {
	r := Gadget(api, x.w, func(v int) frontend.Variable { return v })
	api.AssertIsEqual(r.Output, x.Out)
	return nil
}

// conform runs a genuine and a forged witness in gnark's own test engine, with
// the circuits' real Keccak, and compares the verdicts.
func conform(c *mc.Ctx, zero bool) {
	s := Shapes(false, 32)[1]
	root := trie.Build(s.KVs)
	cls := Claims(s, root, zero)
	var fs []Found
	for _, cl := range cls {
		g := Explore(nil, s, root, cl, true, 1, 66)
		for i, f := range g {
			if i == 0 || f.Exp {
				fs = append(fs, f)
			}
		}
	}
	if len(fs) > 4 {
		fs = fs[:4]
	}
	c.Each("gnark", len(fs), func(i int) string { return fs[i].Desc }, func(i int) string {
		o := Run(fs[i].W)
		for _, v := range []int{0, 1} {
			err := test.IsSolved(&circuit{w: fs[i].W}, &circuit{Out: v, w: fs[i].W}, gk.BN254)
			if (err == nil) != (o.R.OK && o.Output == int64(v)) {
				return fmt.Sprintf("HARNESS: gnark says %v for output %d, engine %s", err, v, o)
			}
		}
		c.Trace(2)
		return ""
	})
}
