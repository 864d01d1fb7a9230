package mptx

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"verif/harness/mc"
	"verif/harness/trie"
)

// Zero is the stored form of the value zero.
var Zero = []byte{0x80}

// Claim is a statement about a trie a prover may try to prove.
type Claim struct {
	Key   []byte
	Value []byte // RLP of the value; Zero claims absence
	True  bool
}

// Shape is a trie under exploration together with the keys to claim about.
type Shape struct {
	Name  string
	KVs   []trie.KV
	Keys  [][]byte // absent keys of interest (the present ones are implied)
	Depth int      // maxDepth the gadget is configured with
	UpTo  int      // starts 0..UpTo are tried, and those next to real node positions
	Frags int      // this many misplaced fragments are allowed when nothing else is wrong
}

// within tells whether a witness is close enough to acceptance to be explored:
// at most max unmet conditions, or at most frags fragments of a wrong extent
// and nothing else.
func within(viol []string, max, frags int) bool {
	if len(viol) <= max {
		return true
	}
	for _, v := range viol {
		if v != "fragment" {
			return false
		}
	}
	return len(viol) <= frags
}

// Key makes a 64-nibble key with a given beginning.
func Key(seed int, pre ...byte) []byte {
	k := make([]byte, 64)
	x := uint32(seed)*2654435761 + 12345
	for i := range k {
		x = x*1664525 + 1013904223
		k[i] = byte(x>>24) & 15
	}
	copy(k, pre)
	return k
}

// Val makes an RLP value of n payload bytes.
func Val(seed byte, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i)
	}
	return trie.RLPStr(b)
}

// Truth decides a claim.
func Truth(root *trie.Node, key, value []byte) bool {
	v, ok := root.Get(key)
	if ok {
		return bytes.Equal(v, value)
	}
	return bytes.Equal(value, Zero)
}

// Found is a witness of the model at a given distance from acceptance.
type Found struct {
	W       W
	Viol    []string
	Claim   Claim
	Desc    string
	Exp     bool // model verdict
	WantLen int  // nibbles of the leaf value, -1 when the last node is no leaf holding the value
}

// Explore enumerates every witness built from the node universe (all nodes of
// the trie plus nodes forged for the claim), all start positions up to
// maxStart, and both tags, that violates at most maxViol of the intended
// conditions. The model's states are the partial witnesses.
func Explore(c *mc.Ctx, s Shape, root *trie.Node, cl Claim, storage bool, maxViol, maxValue int) (out []Found) {
	var uni []*trie.Node
	pos := map[int]bool{}
	for i := 0; i <= s.UpTo; i++ {
		pos[i] = true
	}
	root.Walk(func(n *trie.Node) {
		uni = append(uni, n)
		pos[n.Pos] = true
		if n.Pos > 0 {
			pos[n.Pos-1] = true
		}
		if n.Pos < 63 {
			pos[n.Pos+1] = true
		}
	})
	var all []int
	for p := range pos {
		all = append(all, p)
	}
	sort.Ints(all)
	zero := bytes.Equal(cl.Value, Zero)
	nodeName := func(n *trie.Node) string {
		return fmt.Sprintf("%s@%d#%x", [...]string{"L", "E", "B"}[n.Kind], n.Pos, n.Hash[:2])
	}
	// forged leaves and branches
	fl := map[int]*trie.Node{}
	for _, st := range all {
		l := trie.Build([]trie.KV{{K: cl.Key[st:], V: cl.Value}})
		fl[st] = l
	}
	linkOK := func(n *trie.Node, st, end int, next *trie.Node) (frag, link bool) {
		switch n.Kind {
		case trie.Branch:
			k := n.Kids[cl.Key[st]]
			return end == st+1, k != nil && k.Hash == next.Hash
		case trie.Ext:
			return end > st && bytes.Equal(cl.Key[st:end], n.Frag), n.Child != nil && n.Child.Hash == next.Hash
		}
		return false, false
	}
	states := 0
	seen := map[string]bool{}
	var nodes []*trie.Node
	var starts, types []int
	emit := func(last *trie.Node, viol []string) {
		if !within(viol, maxViol, s.Frags) {
			return
		}
		w := W{MaxDepth: s.Depth, Depth: len(nodes) + 1, Key: cl.Key, Value: cl.Value, MaxValue: maxValue, Root: root.Hash, Storage: storage}
		var d []string
		for i := 0; i < s.Depth; i++ {
			if i < len(starts) {
				w.Starts = append(w.Starts, starts[i])
			} else {
				w.Starts = append(w.Starts, 64)
			}
		}
		for i := 0; i < s.Depth-1; i++ {
			var n []byte
			rd, pl, ty := 0, 0, 1
			if i < len(nodes) {
				n = nodes[i].RLP
				rd = Rounds(n)
				ty = types[i]
				if nodes[i].Kind != trie.Branch {
					pl = PrefixLen(nodes[i].Frag)
				}
				d = append(d, fmt.Sprintf("%s:%d", nodeName(nodes[i]), ty))
			} else if i == 0 && len(viol) > 0 {
				// depth 1: the unused first node slot may hold anything, in particular the real root
				n, rd = root.RLP, Rounds(root.RLP)
				if root.Kind != trie.Branch {
					pl = PrefixLen(root.Frag)
				} else {
					ty = 0
				}
			}
			w.Nodes = append(w.Nodes, n)
			w.Rounds = append(w.Rounds, rd)
			w.Prefix = append(w.Prefix, pl)
			w.Types = append(w.Types, ty)
		}
		w.Last, w.LastRound = last.RLP, Rounds(last.RLP)
		if last.Kind != trie.Branch {
			w.LastPrefix = PrefixLen(last.Frag)
		}
		desc := fmt.Sprintf("claim key=%x.. value=%x true=%v: %s last=%s starts=%v viol=%v", cl.Key[:6], cl.Value, cl.True, strings.Join(d, " "), nodeName(last), starts, viol)
		if seen[desc] {
			return
		}
		seen[desc] = true
		wl := -1
		if !zero {
			wl = 2 * len(cl.Value)
		}
		out = append(out, Found{W: w, Viol: append([]string{}, viol...), Claim: cl, Desc: desc, Exp: len(viol) == 0, WantLen: wl})
	}
	terminal := func(st int, last *trie.Node, viol []string) {
		rest := cl.Key[st:]
		v := append([]string{}, viol...)
		switch last.Kind {
		case trie.Leaf:
			if zero && !bytes.Equal(last.Frag, rest) {
				emit(last, v)
				return
			}
			vv := v
			if !bytes.Equal(last.Frag, rest) {
				vv = append(vv, "leaf key")
			}
			if !bytes.Equal(last.Val, cl.Value) {
				vv = append(vv, "leaf value")
			}
			emit(last, vv)
		case trie.Branch:
			vv := v
			if !zero {
				vv = append(vv, "exclusion with value")
			}
			if last.Kids[rest[0]] != nil {
				vv = append(vv, "branch slot taken")
			}
			emit(last, vv)
		case trie.Ext:
			vv := v
			if !zero {
				vv = append(vv, "exclusion with value")
			}
			if bytes.HasPrefix(rest, last.Frag) {
				vv = append(vv, "extension matches")
			}
			emit(last, vv)
		}
	}
	var rec func(st int, prev *trie.Node, viol []string)
	rec = func(st int, prev *trie.Node, viol []string) {
		states++
		if !within(viol, maxViol, s.Frags) {
			return
		}
		// choose the node at this level
		cand := append([]*trie.Node{}, uni...)
		cand = append(cand, fl[st])
		if fl[st+1] != nil {
			b := forgeBranch(cl.Key, st, fl[st+1])
			fl2 := *b
			cand = append(cand, &fl2)
		}
		for _, n := range cand {
			v := append([]string{}, viol...)
			if prev == nil {
				if n.Hash != root.Hash {
					v = append(v, "root")
				}
			}
			if prev != nil {
				f, l := linkOK(prev, starts[len(starts)-1], st, n)
				if !f {
					v = append(v, "fragment")
				}
				if !l {
					v = append(v, "link")
				}
			}
			if !within(v, maxViol, s.Frags) {
				continue
			}
			starts = append(starts, st)
			terminal(st, n, v)
			if len(nodes) < s.Depth-1 && n.Kind != trie.Leaf {
				for _, ty := range []int{0, 1} {
					vt := v
					if (n.Kind == trie.Ext) != (ty == 1) {
						vt = append(append([]string{}, v...), "tag")
					}
					nodes = append(nodes, n)
					types = append(types, ty)
					for _, ns := range all {
						if ns < st {
							continue
						}
						rec(ns, n, vt)
					}
					nodes = nodes[:len(nodes)-1]
					types = types[:len(types)-1]
				}
			}
			starts = starts[:len(starts)-1]
		}
	}
	for _, st := range all {
		if st == 0 {
			rec(0, nil, nil)
		} else {
			rec(st, nil, []string{"start"})
		}
	}
	if c != nil {
		c.State(states)
	}
	return out
}

func forgeBranch(key []byte, st int, leaf *trie.Node) *trie.Node {
	n := &trie.Node{Kind: trie.Branch, Pos: st}
	n.Kids[key[st]] = leaf
	o := trie.Build([]trie.KV{{K: Key(77)[:63-st], V: Val(9, 3)}})
	n.Kids[(key[st]+1)&15] = o
	n.Seal()
	return n
}
