// C23: host-built transaction and receipt proofs.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"sync"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/trie"
	"github.com/holiman/uint256"

	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C23",
		Rule:        "blocks of every size up to the bound and at the key-length boundaries, with all transaction and receipt types mixed; for every index inside the block the returned nodes are walked from the block's root with an independent verifier (hash links, nibble path, leaf value, nothing left over) and must end in the entry's canonical encoding; every index around and far outside the block, and blocks whose root belongs to another list (shorter, longer, changed, empty, of another kind or another block), must give an error",
		Assumptions: []string{"go-ethereum builds the block's roots (types.NewBlock) and the entries' canonical encoding (MarshalBinary)"},
	}, run)
}

func tx(i int) *types.Transaction {
	to := common.BytesToAddress([]byte{byte(i), 7, byte(i >> 8)})
	data := bytes.Repeat([]byte{byte(i + 1)}, []int{0, 1, 31, 55, 56, 300}[i%6])
	v, r, s := big.NewInt(int64(i&1)), new(big.Int).SetBytes(crypto.Keccak256([]byte{1, byte(i)})), new(big.Int).SetBytes(crypto.Keccak256([]byte{2, byte(i)}))
	switch i % 5 {
	case 0:
		return types.NewTx(&types.LegacyTx{Nonce: uint64(i), GasPrice: big.NewInt(int64(i) * 1e9), Gas: 21000, To: &to, Value: big.NewInt(int64(i)), Data: data, V: new(big.Int).Add(v, big.NewInt(37)), R: r, S: s})
	case 1:
		return types.NewTx(&types.AccessListTx{ChainID: big.NewInt(1), Nonce: uint64(i), GasPrice: big.NewInt(9), Gas: 1, To: &to, Value: new(big.Int), Data: data, AccessList: types.AccessList{{Address: to, StorageKeys: []common.Hash{{1}}}}, V: v, R: r, S: s})
	case 2:
		return types.NewTx(&types.DynamicFeeTx{ChainID: big.NewInt(1), Nonce: uint64(i), GasTipCap: big.NewInt(1), GasFeeCap: big.NewInt(2), Gas: 1, Value: big.NewInt(3), Data: data, V: v, R: r, S: s})
	case 3:
		return types.NewTx(&types.BlobTx{ChainID: uint256.NewInt(1), Nonce: uint64(i), GasTipCap: uint256.NewInt(1), GasFeeCap: uint256.NewInt(2), Gas: 1, To: to, Value: uint256.NewInt(3), Data: data, BlobFeeCap: uint256.NewInt(4), BlobHashes: []common.Hash{{5}}, V: uint256.MustFromBig(v), R: uint256.MustFromBig(r), S: uint256.MustFromBig(s)})
	}
	return types.NewTx(&types.DynamicFeeTx{ChainID: big.NewInt(1), Nonce: uint64(i), GasTipCap: big.NewInt(1), GasFeeCap: big.NewInt(2), Gas: 1, To: &to, Value: big.NewInt(3), Data: data, V: v, R: r, S: s})
}

func receipt(i int) *types.Receipt {
	r := &types.Receipt{Type: []uint8{0, 1, 2, 3}[i%4], Status: uint64(i % 3 / 2), CumulativeGasUsed: uint64(i) << (i % 40), TransactionIndex: uint(i)}
	if i%7 == 6 {
		r.Type = 0
		r.PostState = crypto.Keccak256([]byte{byte(i)})
	}
	for j := 0; j < i%4; j++ {
		r.Logs = append(r.Logs, &types.Log{Address: common.BytesToAddress([]byte{byte(i), byte(j)}), Topics: []common.Hash{{byte(j)}}, Data: bytes.Repeat([]byte{byte(i)}, 50*j)})
	}
	r.Bloom = types.CreateBloom(types.Receipts{r})
	return r
}

// walk follows key from root through nodes, one hash link per node, and gives the value and what precedes it in the last node.
func walk(root []byte, key []byte, nodes [][]byte) (value, prefix []byte, err error) {
	var nib []byte
	for _, b := range key {
		nib = append(nib, b>>4, b&15)
	}
	want := root
	for i, n := range nodes {
		if !bytes.Equal(crypto.Keccak256(n), want) {
			return nil, nil, fmt.Errorf("node %d is not the one linked to", i)
		}
		var items []rlp.RawValue
		if err := rlp.DecodeBytes(n, &items); err != nil {
			return nil, nil, err
		}
		str := func(r rlp.RawValue) ([]byte, error) {
			var b []byte
			err := rlp.DecodeBytes(r, &b)
			return b, err
		}
		switch len(items) {
		case 17:
			if len(nib) == 0 {
				v, err := str(items[16])
				if err != nil || len(v) == 0 || i != len(nodes)-1 {
					return nil, nil, fmt.Errorf("branch without a value")
				}
				return v, n[:len(n)-len(v)], nil
			}
			h, err := str(items[nib[0]])
			if err != nil || len(h) != 32 {
				return nil, nil, fmt.Errorf("no child for the key at node %d", i)
			}
			nib, want = nib[1:], h
		case 2:
			p, err := str(items[0])
			if err != nil || len(p) == 0 {
				return nil, nil, fmt.Errorf("bad path")
			}
			var f []byte
			if p[0]&16 != 0 {
				f = append(f, p[0]&15)
			}
			for _, b := range p[1:] {
				f = append(f, b>>4, b&15)
			}
			if !bytes.HasPrefix(nib, f) {
				return nil, nil, fmt.Errorf("node %d leads elsewhere", i)
			}
			nib = nib[len(f):]
			v, err := str(items[1])
			if err != nil {
				return nil, nil, err
			}
			if p[0]&32 != 0 {
				if len(nib) != 0 || i != len(nodes)-1 {
					return nil, nil, fmt.Errorf("leaf at node %d of %d with %d nibbles left", i, len(nodes), len(nib))
				}
				return v, n[:len(n)-len(v)], nil
			}
			want = v
		default:
			return nil, nil, fmt.Errorf("node %d has %d items", i, len(items))
		}
	}
	return nil, nil, fmt.Errorf("the proof ends before a leaf")
}

type blk struct {
	b   *types.Block
	txs []*types.Transaction
	rs  types.Receipts
}

func run(c *mc.Ctx) {
	var sizes []int
	for n := 0; n <= mc.Pick(c, 140, 300); n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 126, 127, 128, 129, 130, 143, 144, 145, 200, 255, 256, 257, 272, 273)
	if c.Thorough() {
		sizes = append(sizes, 300, 511, 512, 513, 600)
	}
	blocks := make([]blk, len(sizes))
	var wg sync.WaitGroup
	for k := range sizes {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			var b blk
			for i := 0; i < sizes[k]; i++ {
				b.txs = append(b.txs, tx(i))
				b.rs = append(b.rs, receipt(i))
			}
			b.b = types.NewBlock(&types.Header{Number: big.NewInt(int64(k)), Difficulty: new(big.Int)}, &types.Body{Transactions: b.txs}, b.rs, trie.NewStackTrie(nil))
			blocks[k] = b
		}()
	}
	wg.Wait()
	type cas struct{ k, kind, i int }
	var cs []cas
	for k, n := range sizes {
		idx := map[int]bool{}
		for i := 0; i < n; i++ {
			if n <= 140 || c.Thorough() || i < 3 || i > n-4 || i >= 125 && i <= 131 || i >= 254 && i <= 258 || i%16 == n%16 {
				idx[i] = true
			}
		}
		for _, i := range []int{-1, -2, -128, -1 << 63, -1 << 62, n, n + 1, n + 2, n + 15, n + 16, n + 17, 127, 128, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1} {
			idx[i] = true
		}
		for i := n; i < n+20; i++ {
			idx[i] = true
		}
		var is []int
		for i := range idx {
			is = append(is, i)
		}
		sort.Ints(is)
		for _, i := range is {
			cs = append(cs, cas{k, 0, i}, cas{k, 1, i})
		}
	}
	names := []string{"transaction", "receipt"}
	var hit [2]bool
	c.Each("proofs", len(cs), func(i int) string {
		return fmt.Sprintf("block of %d %s %d", sizes[cs[i].k], names[cs[i].kind], cs[i].i)
	}, func(i int) string {
		k := cs[i]
		b := blocks[k.k]
		c.State(1)
		var nodes [][]byte
		var key, prefix []byte
		var err error
		var root common.Hash
		var want []byte
		in := k.i >= 0 && k.i < sizes[k.k]
		if k.kind == 0 {
			nodes, key, prefix, err = proof.GetTransactionProof(b.b, k.i)
			root = b.b.TxHash()
			if in {
				want, _ = b.txs[k.i].MarshalBinary()
			}
		} else {
			nodes, key, prefix, err = proof.GetReceiptProof(b.b, b.rs, k.i)
			root = b.b.ReceiptHash()
			if in {
				want, _ = b.rs[k.i].MarshalBinary()
			}
		}
		c.Trans(len(nodes) + 1)
		if !in {
			if err == nil {
				return fmt.Sprintf("a proof of %d nodes for an index outside the block", len(nodes))
			}
			return ""
		}
		if err != nil {
			return err.Error()
		}
		if wk, _ := rlp.EncodeToBytes(uint64(k.i)); !bytes.Equal(wk, key) {
			return fmt.Sprintf("key %x, expected %x", key, wk)
		}
		v, p, werr := walk(root[:], key, nodes)
		if werr != nil {
			return werr.Error()
		}
		if !bytes.Equal(v, want) {
			return fmt.Sprintf("the proof leads to %x, the entry is %x", v, want)
		}
		if !bytes.Equal(p, prefix) {
			return fmt.Sprintf("leaf prefix %x, expected %x", prefix, p)
		}
		hit[k.kind] = true
		c.Trace(1)
		return ""
	})
	// lists that are not the block's
	c.Each("other lists", len(sizes)*4, func(i int) string { return fmt.Sprintf("block of %d variant %d", sizes[i/4], i%4) }, func(i int) string {
		b := blocks[i/4]
		n := sizes[i/4]
		if n == 0 {
			return ""
		}
		c.State(1)
		rs := append(types.Receipts{}, b.rs...)
		switch i % 4 {
		case 0:
			r := *rs[n-1]
			r.CumulativeGasUsed++
			rs[n-1] = &r
		case 1:
			rs = append(rs, receipt(n))
		case 2:
			rs = rs[:n-1]
		case 3:
			// a block whose header has another transaction root
			h := b.b.Header()
			h.TxHash[5] ^= 1
			bad := types.NewBlockWithHeader(h).WithBody(types.Body{Transactions: b.txs})
			if _, _, _, err := proof.GetTransactionProof(bad, n/2); err == nil {
				return "transactions that do not give the block's root were accepted"
			}
			return ""
		}
		for _, j := range []int{0, n / 2, n - 1} {
			if _, _, _, err := proof.GetReceiptProof(b.b, rs, j); err == nil {
				return "receipts that do not give the block's root were accepted"
			}
		}
		return ""
	})
	// a header whose roots are those of other lists
	special := []common.Hash{types.EmptyTxsHash, types.EmptyReceiptsHash, types.EmptyUncleHash, types.EmptyWithdrawalsHash, {}, crypto.Keccak256Hash(), crypto.Keccak256Hash([]byte{0xc0})}
	c.Each("other roots", len(sizes)*(len(special)+4), func(i int) string {
		return fmt.Sprintf("block of %d with root %d", sizes[i/(len(special)+4)], i%(len(special)+4))
	}, func(i int) string {
		k, v := i/(len(special)+4), i%(len(special)+4)
		b, n := blocks[k], sizes[k]
		c.State(1)
		h := b.b.Header()
		switch {
		case v < len(special):
			h.TxHash, h.ReceiptHash = special[v], special[v]
		case v == len(special):
			h.TxHash, h.ReceiptHash = h.ReceiptHash, h.TxHash
		default: // those of the other blocks
			o := blocks[(k+v-len(special)-2+len(blocks))%len(blocks)]
			h.TxHash, h.ReceiptHash = o.b.TxHash(), o.b.ReceiptHash()
		}
		bad := types.NewBlockWithHeader(h).WithBody(types.Body{Transactions: b.txs})
		for _, j := range []int{0, n / 2, n - 1} {
			if j < 0 {
				continue
			}
			if _, _, _, err := proof.GetTransactionProof(bad, j); err == nil && h.TxHash != b.b.TxHash() {
				return fmt.Sprintf("a proof for transaction %d of a block with root %s", j, h.TxHash)
			}
			if _, _, _, err := proof.GetReceiptProof(bad, b.rs, j); err == nil && h.ReceiptHash != b.b.ReceiptHash() {
				return fmt.Sprintf("a proof for receipt %d of a block with root %s", j, h.ReceiptHash)
			}
			c.Trans(2)
		}
		return ""
	})
	c.Each("raw receipt", mc.Pick(c, 300, 1000), func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		r := receipt(i)
		c.State(1)
		g, err := proof.GetReceiptRaw(r)
		want, _ := r.MarshalBinary()
		if err != nil || !bytes.Equal(g, want) {
			return fmt.Sprintf("%x %v", g, err)
		}
		if _, err := proof.GetReceiptRaw(nil); err == nil {
			return "nil receipt accepted"
		}
		return ""
	})
}
