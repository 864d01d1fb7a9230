package mptx

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/mc"
	"verif/harness/trie"
)

// WN is a complete prover input of the index-keyed check.
type WN struct {
	MaxDepth, Depth int
	Key             []byte // 7 nibbles, zero padded
	KeyLen          int    // nibbles of the key
	Root, Leaf      [32]byte
	Starts          []int
	Nodes           [][]byte
	Rounds          []int
	Prefix          []int
	Types           []int
}

func (w WN) Clone() WN {
	c := w
	c.Key = append([]byte{}, w.Key...)
	c.Starts = append([]int{}, w.Starts...)
	c.Nodes = append([][]byte{}, w.Nodes...)
	c.Rounds = append([]int{}, w.Rounds...)
	c.Prefix = append([]int{}, w.Prefix...)
	c.Types = append([]int{}, w.Types...)
	return c
}

// GadgetNB calls the check on the witness.
func GadgetNB(api frontend.API, w WN, k func(any) F) mpt.CheckMPTInclusionFixedKeyLengthResult {
	conv := func(x []int) []F {
		r := make([]F, len(x))
		for i := range x {
			r[i] = k(x[i])
		}
		return r
	}
	key := make([]int, len(w.Key))
	for i := range key {
		key[i] = int(w.Key[i])
	}
	var root [64]F
	copy(root[:], conv(nibs(w.Root[:], 64)))
	var nodes [][]F
	for _, n := range w.Nodes {
		b, _ := buf(n, nodeLen)
		nodes = append(nodes, conv(b))
	}
	leaf := [2]F{k(new(big.Int).SetBytes(w.Leaf[:16])), k(new(big.Int).SetBytes(w.Leaf[16:]))}
	return mpt.CheckMPTInclusionNoBranchTermination(api, w.MaxDepth, 7, conv(key), k(w.KeyLen), root, conv(w.Starts), leaf, nodes,
		conv(w.Rounds), conv(w.Prefix), conv(w.Types), k(w.Depth))
}

// RunNB executes the real gadget.
func RunNB(w WN) Out {
	e := Engine()
	var o Out
	o.R = e.Run(func(api frontend.API) error {
		r := GadgetNB(api, w, func(v any) F {
			if i, ok := v.(int); ok {
				return eng.V(i)
			}
			return eng.B{X: v.(*big.Int)}
		})
		o.Output = e.Int(r.Output)
		return nil
	})
	o.Ops = e.Ops
	return o
}

// FoundNB is a witness of the model.
type FoundNB struct {
	W    WN
	Desc string
	Exp  bool // must be accepted
	True bool // the claim holds
}

// reached tells whether following the key from the root leads to a node with the hash.
func reached(root *trie.Node, key []byte, hash [32]byte) bool {
	for _, n := range root.Path(key) {
		if n.Hash == hash && (n.Kind == trie.Leaf || n.Pos <= len(key)) {
			return true
		}
	}
	return false
}

// ExploreNB enumerates the model witnesses for one key.
func ExploreNB(c *mc.Ctx, root *trie.Node, key []byte, uni []*trie.Node, depth, maxViol, frags int) (out []FoundNB) {
	L := len(key)
	pad := make([]byte, 7)
	copy(pad, key)
	fl := map[int]*trie.Node{}
	for st := 0; st <= L; st++ {
		fl[st] = trie.Build([]trie.KV{{K: key[st:], V: Val(7, 40)}})
	}
	fb := map[int]*trie.Node{}
	for st := 0; st < L; st++ {
		n := &trie.Node{Kind: trie.Branch, Pos: st}
		n.Kids[key[st]] = fl[st+1]
		n.Kids[(key[st]+1)&15] = trie.Build([]trie.KV{{K: []byte{1, 2}, V: Val(9, 40)}})
		n.Seal()
		fb[st] = n
	}
	linkOK := func(n *trie.Node, st, end int, h [32]byte) (frag, link bool) {
		switch n.Kind {
		case trie.Branch:
			if st >= L {
				return false, false
			}
			k := n.Kids[key[st]]
			return end == st+1, k != nil && k.Hash == h
		case trie.Ext:
			return end > st && end <= L && bytes.Equal(key[st:end], n.Frag), n.Child != nil && n.Child.Hash == h
		}
		return false, false
	}
	seen := map[string]bool{}
	var nodes []*trie.Node
	var starts, types []int
	states := 0
	name := func(n *trie.Node) string {
		return fmt.Sprintf("%s@%d#%x", [...]string{"L", "E", "B"}[n.Kind], n.Pos, n.Hash[:2])
	}
	emit := func(last *trie.Node, viol []string) {
		w := WN{MaxDepth: depth, Depth: len(nodes) + 1, Key: pad, KeyLen: L, Root: root.Hash, Leaf: last.Hash}
		var d []string
		for i := 0; i < depth; i++ {
			if i < len(starts) {
				w.Starts = append(w.Starts, starts[i])
			} else {
				w.Starts = append(w.Starts, 7)
			}
		}
		for i := 0; i < depth-1; i++ {
			var n []byte
			rd, pl, ty := 0, 0, 1
			if i < len(nodes) {
				n, rd, ty = nodes[i].RLP, Rounds(nodes[i].RLP), types[i]
				if nodes[i].Kind != trie.Branch {
					pl = PrefixLen(nodes[i].Frag)
				}
				d = append(d, fmt.Sprintf("%s:%d", name(nodes[i]), ty))
			} else if i == 0 && len(viol) > 0 && root.Kind == trie.Branch {
				n, rd, ty = root.RLP, Rounds(root.RLP), 0
			}
			w.Nodes = append(w.Nodes, n)
			w.Rounds = append(w.Rounds, rd)
			w.Prefix = append(w.Prefix, pl)
			w.Types = append(w.Types, ty)
		}
		desc := fmt.Sprintf("key=%x: %s leaf=%s starts=%v viol=%v", key, strings.Join(d, " "), name(last), starts, viol)
		if seen[desc] {
			return
		}
		seen[desc] = true
		out = append(out, FoundNB{W: w, Desc: desc, Exp: len(viol) == 0, True: reached(root, key, last.Hash)})
	}
	var rec func(st int, prev *trie.Node, viol []string)
	rec = func(st int, prev *trie.Node, viol []string) {
		states++
		cand := append([]*trie.Node{}, uni...)
		cand = append(cand, fl[st])
		if fb[st] != nil {
			cand = append(cand, fb[st])
		}
		for _, n := range cand {
			v := append([]string{}, viol...)
			if prev == nil && n.Hash != root.Hash {
				v = append(v, "root")
			}
			if prev != nil {
				f, l := linkOK(prev, starts[len(starts)-1], st, n.Hash)
				if !f {
					v = append(v, "fragment")
				}
				if !l {
					v = append(v, "link")
				}
			}
			if !within(v, maxViol, frags) {
				continue
			}
			starts = append(starts, st)
			emit(n, v)
			if len(nodes) < depth-1 && n.Kind != trie.Leaf {
				for ty := 0; ty < 2; ty++ {
					vt := v
					if (n.Kind == trie.Ext) != (ty == 1) {
						vt = append(append([]string{}, v...), "tag")
					}
					nodes, types = append(nodes, n), append(types, ty)
					for ns := st; ns <= L; ns++ {
						rec(ns, n, vt)
					}
					nodes, types = nodes[:len(nodes)-1], types[:len(types)-1]
				}
			}
			starts = starts[:len(starts)-1]
		}
	}
	for st := 0; st <= L; st++ {
		if st == 0 {
			rec(0, nil, nil)
		} else {
			rec(st, nil, []string{"start"})
		}
	}
	if c != nil {
		c.State(states)
	}
	return
}

// DeviationsNB lists the witnesses differing from w in one integer input.
func DeviationsNB(w WN) (out []WN, desc []string) {
	add := func(d string, f func(*WN)) {
		x := w.Clone()
		f(&x)
		out = append(out, x)
		desc = append(desc, d)
	}
	for d := 0; d <= w.MaxDepth+1; d++ {
		if d != w.Depth {
			add(fmt.Sprintf("depth=%d", d), func(x *WN) { x.Depth = d })
		}
	}
	for i := range w.Types {
		for t := 0; t <= 2; t++ {
			if t != w.Types[i] {
				add(fmt.Sprintf("type%d=%d", i, t), func(x *WN) { x.Types[i] = t })
			}
		}
		for p := 0; p <= 3; p++ {
			if p != w.Prefix[i] {
				add(fmt.Sprintf("prefix%d=%d", i, p), func(x *WN) { x.Prefix[i] = p })
			}
		}
		for r := 0; r <= 2; r++ {
			if r != w.Rounds[i] {
				add(fmt.Sprintf("round%d=%d", i, r), func(x *WN) { x.Rounds[i] = r })
			}
		}
	}
	for i := range w.Starts {
		for st := 0; st <= 8; st++ {
			if st != w.Starts[i] {
				add(fmt.Sprintf("start%d=%d", i, st), func(x *WN) { x.Starts[i] = st })
			}
		}
	}
	return
}
