// Package trie is an independent reference Merkle-Patricia trie and RLP coder.
package trie

import (
	"bytes"

	"verif/harness/eng"
)

// RLPStr encodes a byte string.
func RLPStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(head(0x80, len(b)), b...)
}

// RLPList encodes a list of already encoded items.
func RLPList(items ...[]byte) []byte {
	p := bytes.Join(items, nil)
	return append(head(0xc0, len(p)), p...)
}

func head(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	var l []byte
	for x := n; x > 0; x >>= 8 {
		l = append([]byte{byte(x)}, l...)
	}
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

type KV struct {
	K []byte // nibbles
	V []byte
}

// Kinds of nodes.
const (
	Leaf = iota
	Ext
	Branch
)

type Node struct {
	Kind  int
	Pos   int    // nibbles consumed before this node
	Frag  []byte // nibbles of a leaf or extension
	Val   []byte // leaf value, or branch value
	Kids  [16]*Node
	Child *Node
	RLP   []byte
	Hash  [32]byte
}

func hp(frag []byte, leaf bool) []byte {
	f := byte(0)
	if leaf {
		f = 2
	}
	var n []byte
	if len(frag)%2 == 1 {
		n = append([]byte{f + 1}, frag...)
	} else {
		n = append([]byte{f, 0}, frag...)
	}
	r := make([]byte, len(n)/2)
	for i := range r {
		r[i] = n[2*i]<<4 | n[2*i+1]
	}
	return r
}

func ref(n *Node) []byte {
	if n == nil {
		return []byte{0x80}
	}
	if len(n.RLP) < 32 {
		return n.RLP
	}
	return RLPStr(n.Hash[:])
}

// Build makes the trie of the given keys (distinct, none a prefix of another
// unless branch values are wanted).
func Build(kvs []KV) *Node { return build(kvs, 0) }

func build(kvs []KV, pos int) *Node {
	if len(kvs) == 0 {
		return nil
	}
	n := &Node{Pos: pos}
	if len(kvs) == 1 {
		n.Kind, n.Frag, n.Val = Leaf, kvs[0].K[pos:], kvs[0].V
		n.RLP = RLPList(RLPStr(hp(n.Frag, true)), RLPStr(n.Val))
		n.Hash = eng.Keccak256(n.RLP)
		return n
	}
	c := 0
	for {
		same := true
		for _, kv := range kvs {
			if len(kv.K) <= pos+c || kv.K[pos+c] != kvs[0].K[pos+c] {
				same = false
			}
		}
		if !same {
			break
		}
		c++
	}
	if c > 0 {
		n.Kind, n.Frag = Ext, kvs[0].K[pos:pos+c]
		n.Child = build(kvs, pos+c)
		n.RLP = RLPList(RLPStr(hp(n.Frag, false)), ref(n.Child))
		n.Hash = eng.Keccak256(n.RLP)
		return n
	}
	n.Kind = Branch
	var g [16][]KV
	for _, kv := range kvs {
		if len(kv.K) == pos {
			n.Val = kv.V
			continue
		}
		g[kv.K[pos]] = append(g[kv.K[pos]], kv)
	}
	var items [][]byte
	for i := range g {
		n.Kids[i] = build(g[i], pos+1)
		items = append(items, ref(n.Kids[i]))
	}
	items = append(items, RLPStr(n.Val))
	n.RLP = RLPList(items...)
	n.Hash = eng.Keccak256(n.RLP)
	return n
}

// Walk lists all nodes.
func (n *Node) Walk(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	n.Child.Walk(f)
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// Path lists the nodes from the root towards key as far as they go.
func (n *Node) Path(key []byte) (p []*Node) {
	for n != nil {
		p = append(p, n)
		switch n.Kind {
		case Leaf:
			return
		case Ext:
			if !bytes.HasPrefix(key[n.Pos:], n.Frag) {
				return
			}
			n = n.Child
		case Branch:
			if len(key) == n.Pos {
				return
			}
			n = n.Kids[key[n.Pos]]
		}
	}
	return
}

// Get looks a key up.
func (n *Node) Get(key []byte) ([]byte, bool) {
	p := n.Path(key)
	if len(p) == 0 {
		return nil, false
	}
	l := p[len(p)-1]
	if l.Kind == Leaf && bytes.Equal(key[l.Pos:], l.Frag) {
		return l.Val, true
	}
	if l.Kind == Branch && len(key) == l.Pos && l.Val != nil {
		return l.Val, true
	}
	return nil, false
}

// Nibbles of bytes.
func Nibbles(b []byte) []byte {
	r := make([]byte, 0, 2*len(b))
	for _, x := range b {
		r = append(r, x>>4, x&15)
	}
	return r
}

// Seal recomputes the encoding of a hand-made branch or extension.
func (n *Node) Seal() {
	switch n.Kind {
	case Branch:
		var items [][]byte
		for i := range n.Kids {
			items = append(items, ref(n.Kids[i]))
		}
		n.RLP = RLPList(append(items, RLPStr(n.Val))...)
	case Ext:
		n.RLP = RLPList(RLPStr(hp(n.Frag, false)), ref(n.Child))
	case Leaf:
		n.RLP = RLPList(RLPStr(hp(n.Frag, true)), RLPStr(n.Val))
	}
	n.Hash = eng.Keccak256(n.RLP)
}
