// Package mptx drives the in-circuit trie inclusion checks with explicit witnesses.
package mptx

import (
	"fmt"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/trie"
)

type F = frontend.Variable

// W is a complete prover input of the fixed-key-length check.
type W struct {
	MaxDepth   int
	Depth      int
	Key        []byte // 64 nibbles
	Value      []byte // value bytes as stored in the leaf (padded with zero nibbles)
	MaxValue   int    // nibbles
	Root       [32]byte
	Starts     []int
	Last       []byte
	LastRound  int
	LastPrefix int
	Nodes      [][]byte
	Rounds     []int
	Prefix     []int
	Types      []int
	Storage    bool
}

func (w W) Clone() W {
	c := w
	c.Key = append([]byte{}, w.Key...)
	c.Value = append([]byte{}, w.Value...)
	c.Starts = append([]int{}, w.Starts...)
	c.Nodes = append([][]byte{}, w.Nodes...)
	c.Rounds = append([]int{}, w.Rounds...)
	c.Prefix = append([]int{}, w.Prefix...)
	c.Types = append([]int{}, w.Types...)
	return c
}

// Buf lays a message out as nibbles with Keccak padding, n nibbles in all.
func Buf(m []byte, n int) ([]F, int) {
	b, r := buf(m, n)
	return ints(b), r
}

func buf(m []byte, n int) ([]int, int) {
	if m == nil {
		return make([]int, n), 0
	}
	p := append([]byte{}, m...)
	k := 136 - len(p)%136
	pad := make([]byte, k)
	pad[0] ^= 1
	pad[k-1] ^= 0x80
	p = append(p, pad...)
	r := make([]int, n)
	for i := range r {
		if i/2 < len(p) {
			if i%2 == 0 {
				r[i] = int(p[i/2] >> 4)
			} else {
				r[i] = int(p[i/2] & 15)
			}
		}
	}
	return r, len(p)/136 - 1
}

func Rounds(m []byte) int { return len(m) / 136 }

func Nib(b []byte, n int) []F { return ints(nibs(b, n)) }

func nibs(b []byte, n int) []int {
	r := make([]int, n)
	for i, x := range trie.Nibbles(b) {
		if i < n {
			r[i] = int(x)
		}
	}
	return r
}

func ints(x []int) []F {
	r := make([]F, len(x))
	for i := range x {
		r[i] = eng.V(x[i])
	}
	return r
}

func Engine() *eng.Engine {
	e := eng.New(gk.BN254)
	e.FastKeccak = true
	return e
}

const nodeLen = mpt.BranchNodeMaxBlockSize

// Out of one run.
type Out struct {
	Output, ValueLen int64
	Ops              uint64
	R                eng.Result
}

func (o Out) Accept() bool { return o.R.OK && o.Output == 1 }
func (o Out) String() string {
	return fmt.Sprintf("%s output=%d valueLength=%d", o.R, o.Output, o.ValueLen)
}

// Gadget calls the check on the witness, with constants made by k.
func Gadget(api frontend.API, w W, k func(int) F) mpt.CheckMPTInclusionFixedKeyLengthResult {
	conv := func(x []int) []F {
		r := make([]F, len(x))
		for i := range x {
			r[i] = k(x[i])
		}
		return r
	}
	key := make([]int, len(w.Key))
	for i := range key {
		key[i] = int(w.Key[i])
	}
	var root [64]F
	copy(root[:], conv(nibs(w.Root[:], 64)))
	var nodes [][]F
	for _, n := range w.Nodes {
		b, _ := buf(n, nodeLen)
		nodes = append(nodes, conv(b))
	}
	last, _ := buf(w.Last, nodeLen)
	return mpt.CheckMPTInclusionFixedKeyLength(api, w.MaxDepth, 64, w.MaxValue, conv(key), conv(nibs(w.Value, w.MaxValue)), root,
		conv(w.Starts), conv(last), k(w.LastRound), k(w.LastPrefix), nodes, conv(w.Rounds), conv(w.Prefix), conv(w.Types), k(w.Depth), w.Storage)
}

// Run executes the real gadget on the witness.
func Run(w W) Out {
	e := Engine()
	var o Out
	o.R = e.Run(func(api frontend.API) error {
		r := Gadget(api, w, func(v int) F { return eng.V(v) })
		o.Output = e.Int(r.Output)
		o.ValueLen = e.Int(r.ValueLength)
		return nil
	})
	o.Ops = e.Ops
	return o
}

// PrefixLen of a leaf or extension fragment.
func PrefixLen(frag []byte) int { return 2 - len(frag)%2 }

// Honest builds the witness an honest prover supplies for a path.
func Honest(path []*trie.Node, root [32]byte, key, value []byte, maxDepth, maxValue int, storage bool) W {
	w := W{MaxDepth: maxDepth, Depth: len(path), Key: key, Value: value, MaxValue: maxValue, Root: root, Storage: storage}
	for i := 0; i < maxDepth; i++ {
		if i < len(path) {
			w.Starts = append(w.Starts, path[i].Pos)
		} else {
			w.Starts = append(w.Starts, 64)
		}
	}
	for i := 0; i < maxDepth-1; i++ {
		var n []byte
		rd, pl, ty := 0, 0, 1
		if i < len(path)-1 {
			n = path[i].RLP
			rd = Rounds(n)
			ty = 0
			if path[i].Kind == trie.Ext {
				ty, pl = 1, PrefixLen(path[i].Frag)
			}
		}
		w.Nodes = append(w.Nodes, n)
		w.Rounds = append(w.Rounds, rd)
		w.Prefix = append(w.Prefix, pl)
		w.Types = append(w.Types, ty)
	}
	l := path[len(path)-1]
	w.Last, w.LastRound = l.RLP, Rounds(l.RLP)
	if l.Kind != trie.Branch {
		w.LastPrefix = PrefixLen(l.Frag)
	}
	return w
}
