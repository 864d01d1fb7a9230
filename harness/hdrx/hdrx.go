// Package hdrx builds block headers field by field and drives the in-circuit header check.
package hdrx

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/mptx"
	"verif/harness/rlpref"
	"verif/harness/trie"
)

type F = frontend.Variable

const Len = mpt.EthBlockHeadMaxBlockHexSize

// Fields of a header, as byte strings.
type Fields [][]byte

// Seq is a byte string of n bytes whose bytes are all distinguishable and none zero.
func Seq(n, s int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte((i*7+s*13+i/250)%254 + 1)
	}
	if n == 1 && b[0] < 0x80 {
		b[0] |= 0x80
	}
	return b
}

// Default header of a fork with n fields.
func Default(n int) Fields {
	f := Fields{Seq(32, 1), Seq(32, 2), Seq(20, 3), Seq(32, 4), Seq(32, 5), Seq(32, 6), Seq(256, 7),
		{}, {0x01, 0x03, 0x9e, 0x88}, {0x01, 0xc9, 0xc3, 0x80}, {0x83, 0xf7, 0x0c}, {0x64, 0x37, 0xce, 0x7f}, []byte("builder0x69"), Seq(32, 8), make([]byte, 8)}
	if n > 15 {
		f = append(f, []byte{0x85, 0x08, 0xb5, 0x98, 0x79})
	}
	if n > 16 {
		f = append(f, Seq(32, 9))
	}
	return f
}

func (f Fields) With(i int, b []byte) Fields {
	g := append(Fields{}, f...)
	g[i] = b
	return g
}

func (f Fields) RLP() []byte {
	var it [][]byte
	for _, x := range f {
		it = append(it, trie.RLPStr(x))
	}
	return trie.RLPList(it...)
}

// Max sizes in bytes of the variable fields.
var Max = map[int]int{7: 7, 8: 8, 9: 4, 10: 4, 11: 4, 12: 1000, 15: 8}

// Out of one run.
type Out struct {
	R         eng.Result
	Output    int64
	Hash      []int64
	NumLen    int64
	Num, Time []int64
	State, Tx []int64
	Receipts  []int64
	Ops       uint64
}

func (o Out) Accept() bool { return o.R.OK && o.Output == 1 }

func Buf(b []byte) (in [Len]F) {
	v, _ := mptx.Buf(b, Len)
	copy(in[:], v)
	return
}

// Raw lays bytes out without padding.
func Raw(b []byte) (in [Len]F) {
	v := mptx.Nib(b, Len)
	copy(in[:], v)
	return
}

func ints(e *eng.Engine, x []F) (r []int64) {
	for _, v := range x {
		b := e.Big(v)
		if b.IsInt64() {
			r = append(r, b.Int64())
		} else {
			r = append(r, -1)
		}
	}
	return
}

func Run(in [Len]F, num, round *big.Int) (o Out) {
	e := mptx.Engine()
	o.R = e.Run(func(api frontend.API) error {
		r := mpt.CheckEthBlockHash(api, in, e.Val(num), e.Val(round))
		o.Output = ints(e, []F{r.Output})[0]
		o.Hash = ints(e, r.BlockHash[:])
		o.NumLen = ints(e, []F{r.BlockNumberLength})[0]
		o.Num = ints(e, r.BlockNumber[:])
		o.Time = ints(e, r.BlockTime[:])
		o.State = ints(e, r.StateRoot[:])
		o.Tx = ints(e, r.TransactionsRoot[:])
		o.Receipts = ints(e, r.ReceiptsRoot[:])
		return nil
	})
	o.Ops = e.Ops
	return
}

func eqNib(got []int64, b []byte) bool {
	n := trie.Nibbles(b)
	if len(got) != len(n) {
		return false
	}
	for i := range n {
		if got[i] != int64(n[i]) {
			return false
		}
	}
	return true
}

func (o Out) HashIs(h [32]byte) bool { return eqNib(o.Hash, h[:]) }

// Same compares the outputs with the decoded fields.
func (o Out) Same(d rlpref.Dec) string {
	for _, x := range []struct {
		name string
		got  []int64
		i    int
	}{{"state root", o.State, 3}, {"transactions root", o.Tx, 4}, {"receipts root", o.Receipts, 5}} {
		if !eqNib(x.got, d.F[x.i].Content) {
			return fmt.Sprintf("%s is %v, the header has %x", x.name, x.got, d.F[x.i].Content)
		}
	}
	n := d.F[8].Content
	if o.NumLen != int64(2*len(n)) {
		return fmt.Sprintf("number length %d for %x", o.NumLen, n)
	}
	m := len(n)
	if m > 4 {
		m = 4
	}
	if !eqNib(o.Num[:2*m], n[:m]) {
		return fmt.Sprintf("number %v, the header has %x", o.Num, n)
	}
	t := d.F[11].Content
	if len(t) > 4 {
		return fmt.Sprintf("accepted a time of %d bytes", len(t))
	}
	if !eqNib(o.Time, append(make([]byte, 4-len(t)), t...)) {
		return fmt.Sprintf("time %v, the header has %x", o.Time, t)
	}
	return ""
}
