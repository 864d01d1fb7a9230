// C11: transaction leaf decoding.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	erlp "github.com/ethereum/go-ethereum/rlp"

	"verif/harness/eng"
	"verif/harness/mc"
	"verif/harness/rlpref"
)

type F = frontend.Variable

const size = 2176 // bytes the leaf buffer holds

func main() {
	mc.Main(mc.Meta{Prop: "C11",
		Rule:        "transaction leaves of every length class (data of 0..2000 bytes across every RLP length boundary, every field empty / one byte / full, empty and filled access lists, either parity of the signature, contract creation), and for each a set of corruptions of every prefix byte; the decoder's outputs are compared with go-ethereum's encoding of the same transaction and with a reference parser: accepted only with exactly the encoded fields",
		Assumptions: []string{"leaf buffers hold nibbles", "the leaf's key path is one byte (TxLeafArrayRlpParams)"},
	}, run)
}

type cs struct {
	n    string
	leaf []byte
	good bool
}

func mkTx(data []byte, al types.AccessList, to bool, v int64, r, s *big.Int, small bool) []byte {
	t := &types.DynamicFeeTx{ChainID: big.NewInt(1), Nonce: 0x1234, GasTipCap: big.NewInt(1500000000), GasFeeCap: big.NewInt(90000000000), Gas: 21000, Value: new(big.Int).Lsh(big.NewInt(0xabc), 100), Data: data, AccessList: al, V: big.NewInt(v), R: r, S: s}
	if small {
		t.ChainID, t.Nonce, t.GasTipCap, t.Value, t.Gas = new(big.Int).SetUint64(0xffffffffffffffff), 0, big.NewInt(0), big.NewInt(0), 5
		t.GasFeeCap = new(big.Int).SetUint64(0xfedcba9876543210)
	}
	if to {
		a := common.HexToAddress("0x95222290DD7278Aa3Ddd389Cc1E1d165CC4BAfe5")
		t.To = &a
	}
	b, err := types.NewTx(t).MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

func leafOf(key byte, val []byte) []byte {
	b, err := erlp.EncodeToBytes([][]byte{{key}, val})
	if err != nil {
		panic(err)
	}
	return b
}

func seq(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + 3)
	}
	return b
}

func nib(b []byte) (r []int64) {
	for _, x := range b {
		r = append(r, int64(x>>4), int64(x&15))
	}
	return
}

type out struct {
	tx    rlp.Transaction
	lens  []int64
	inner []int64
}

func run(c *mc.Ctx) {
	R, _ := new(big.Int).SetString("f1e2d3c4b5a697887766554433221100ffeeddccbbaa99887766554433221101", 16)
	S, _ := new(big.Int).SetString("0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20", 16)
	short, _ := new(big.Int).SetString("aabb030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f", 16) // 31 bytes
	al := types.AccessList{{Address: common.HexToAddress("0x11"), StorageKeys: []common.Hash{{1}, {2}}}}
	var cases []cs
	add := func(n string, l []byte, good bool) {
		if len(l) <= size {
			cases = append(cases, cs{n, l, good})
		}
	}
	lens := []int{0, 1, 2, 31, 55, 56, 57, 140, 180, 255, 256, 257, 1000, 1900, 2000}
	if c.Thorough() {
		lens = nil
		for i := 0; i <= 300; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 511, 512, 513, 1023, 1024, 1900, 2000)
	}
	for _, n := range lens {
		add(fmt.Sprintf("data=%d", n), leafOf(0x20, mkTx(seq(n), nil, true, 1, R, S, false)), true)
		if n%3 != 1 {
			add(fmt.Sprintf("data=%d list", n), leafOf(0x35, mkTx(seq(n), al, true, 0, R, S, false)), false)
		}
	}
	add("data=zero byte", leafOf(0x20, mkTx([]byte{0}, nil, true, 1, R, S, false)), true)
	add("data=high byte", leafOf(0x20, mkTx([]byte{0x80}, nil, true, 1, R, S, false)), true)
	add("creation", leafOf(0x20, mkTx(seq(100), nil, false, 0, R, S, false)), true)
	add("zero fields", leafOf(0x3f, mkTx(seq(4), nil, true, 0, R, short, true)), true)
	add("short r", leafOf(0x3f, mkTx(seq(4), nil, true, 1, short, S, true)), true)
	add("one-byte r", leafOf(0x3f, mkTx(seq(4), nil, true, 1, big.NewInt(7), big.NewInt(200), true)), true)
	add("legacy", leafOf(0x20, func() []byte {
		b, _ := types.NewTx(&types.LegacyTx{Nonce: 1, GasPrice: big.NewInt(5), Gas: 21000, Value: big.NewInt(9), Data: seq(9), V: big.NewInt(27), R: R, S: S}).MarshalBinary()
		return b
	}()), false)
	add("access-list tx", leafOf(0x20, func() []byte {
		b, _ := types.NewTx(&types.AccessListTx{ChainID: big.NewInt(1), Nonce: 1, GasPrice: big.NewInt(5), Gas: 21000, Value: big.NewInt(9), Data: seq(9), V: big.NewInt(1), R: R, S: S}).MarshalBinary()
		return b
	}()), false)
	nGood := len(cases)
	// corruptions of every prefix byte
	bases := []int{0, 1, 4, 8}
	if c.Thorough() {
		bases = []int{0, 1, 4, 5, 8, 9, 13, 20}
	}
	for _, bi := range bases {
		b := cases[bi]
		pos := prefixes(b.leaf)
		for _, p := range pos {
			seen := map[byte]bool{b.leaf[p]: true}
			for _, v := range []byte{b.leaf[p] + 1, b.leaf[p] - 1, b.leaf[p] ^ 0x40, 0x80, 0xc0, 0xb8, 0xf8, 0x05} {
				if seen[v] {
					continue
				}
				seen[v] = true
				x := append([]byte{}, b.leaf...)
				x[p] = v
				add(fmt.Sprintf("%s byte %d=%02x", b.n, p, v), x, false)
			}
		}
	}
	// malformed outer shapes
	tx := mkTx(seq(10), nil, true, 1, R, S, false)
	o, _ := erlp.EncodeToBytes([][]byte{{0x20}, tx, {7}})
	add("three items", o, false)
	o, _ = erlp.EncodeToBytes([][]byte{tx})
	add("one item", o, false)
	o, _ = erlp.EncodeToBytes([][]byte{{0x20, 0x31}, tx})
	add("long key", o, false)
	o, _ = erlp.EncodeToBytes(tx)
	add("a string", o, false)
	// an empty-list field with a wrong total length
	x := leafOf(0x20, tx)
	_ = nGood
	for _, d := range []int{1, 2, -1} {
		y := append([]byte{}, x...)
		k := bytes.IndexByte(y, 0x02) + 2
		y[k] = byte(int(y[k]) + d)
		add(fmt.Sprintf("inner length %+d", d), y, false)
	}
	c.Each("leaf", len(cases), func(i int) string { return cases[i].n }, func(i int) string { return judge(c, cases[i]) })
}

// prefixes lists the positions of all RLP prefix bytes (outer, value, inner and fields).
func prefixes(l []byte) (r []int) {
	r = append(r, 0, 1, 2)
	for i := 3; i < 8 && i < len(l); i++ {
		r = append(r, i)
	}
	_, v, _, _ := erlp.Split(l)
	_ = v
	// inner fields
	k, rest := content(l)
	_ = k
	off := len(l) - len(rest)
	// rest starts at the inner list's payload
	for len(rest) > 0 {
		r = append(r, off)
		_, _, t, err := erlp.Split(rest)
		if err != nil {
			return
		}
		off += len(rest) - len(t)
		rest = t
	}
	return
}

func content(l []byte) ([]byte, []byte) {
	c, _, _ := erlp.SplitList(l)
	k, t, _ := erlp.SplitString(c)
	v, _, err := erlp.SplitString(t)
	if err != nil {
		return k, nil
	}
	p, _, err := erlp.SplitList(v[1:])
	if err != nil {
		return k, nil
	}
	return k, p
}

func judge(c *mc.Ctx, t cs) string {
	full := append(append([]byte{}, t.leaf...), make([]byte, size)...)[:size]
	e := eng.New(ecc.BN254.ScalarField())
	var in []F
	for _, x := range nib(full) {
		in = append(in, e.Val(x))
	}
	var tx rlp.Transaction
	var inner, lens []F
	r := e.Run(func(api frontend.API) error { tx, inner, lens = rlp.DecodeTxLeafRlp(api, in); return nil })
	c.State(1)
	c.Trans(int(e.Ops))
	if r.Panic != "" {
		return r.String()
	}
	if !r.OK {
		if t.good {
			return "genuine leaf refused: " + r.String()
		}
		return ""
	}
	d := rlpref.Parse(full, 2, true)
	if !d.OK {
		return "accepted although the leaf is not a list of two items"
	}
	val := d.F[1].Content
	if len(val) < 1 {
		return "accepted an empty value"
	}
	in2 := rlpref.Parse(append(append([]byte{}, val[1:]...), make([]byte, size)...), 12, true)
	if !in2.OK {
		return "accepted although the value is not a list of twelve fields"
	}
	for k, x := range nib(val) {
		if !is(e, inner[k], x) {
			return fmt.Sprintf("signed transaction nibble %d differs", k)
		}
	}
	fs := in2.F
	for k := 0; k < 7; k++ {
		if !is(e, lens[k], int64(fs[k].Size)) {
			return fmt.Sprintf("field %d: length %v, want %d", k, e.Big(lens[k]), fs[k].Size)
		}
	}
	eq := func(name string, got []F, f rlpref.Field) string {
		for k, x := range nib(f.Content) {
			if k >= len(got) {
				return "" // longer than the result holds; the length output tells
			}
			if !is(e, got[k], x) {
				return fmt.Sprintf("%s: nibble %d differs", name, k)
			}
		}
		return ""
	}
	for k, g := range [][]F{tx.ChainId, tx.Nonce, tx.MaxPriorityGasPrice, tx.MaxFeePerGas, tx.GasLimit, tx.To, tx.Value} {
		if m := eq(fmt.Sprintf("field %d", k), g, fs[k]); m != "" {
			return m
		}
	}
	if e.Big(tx.V).Cmp(new(big.Int).SetBytes(fs[9].Content)) != 0 {
		return fmt.Sprintf("V=%v", e.Big(tx.V))
	}
	m248 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 248), big.NewInt(1))
	for k, g := range [][2]F{tx.R, tx.S} {
		w := new(big.Int).SetBytes(fs[10+k].Content)
		if e.Big(g[0]).Cmp(new(big.Int).And(w, m248)) != 0 || e.Big(g[1]).Cmp(new(big.Int).Rsh(w, 248)) != 0 {
			return fmt.Sprintf("signature word %d differs: (%x,%x) for %x", k, e.Big(g[0]), e.Big(g[1]), w)
		}
	}
	return ""
}

func is(e *eng.Engine, v F, x int64) bool { b := e.Big(v); return b.IsInt64() && b.Int64() == x }
