// C24: recovering transaction signers.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/holiman/uint256"

	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C24",
		Rule:        "every combination of transaction type, chain id at an encoding boundary, field-value class and signing key, with both recovery parities present for every combination, signed by go-ethereum: the recovered address must be the key's; every signed transaction with one field altered (each field, each signature value, exchanged parity, complemented s, oversized r, s or v) must give an error or another address; types outside the supported ones give an error; the unsigned encoding equals the signing payload",
		Assumptions: []string{"go-ethereum signs correctly (types.SignTx)", "unprotected (pre-EIP-155) legacy transactions are unsupported: they must give an error"},
	}, run)
}

// fields of a transaction before it is made
type fields struct {
	typ               int // 0 legacy 1 dynamic
	chain             *big.Int
	nonce, gas        uint64
	tip, fee          *big.Int
	to                *common.Address
	value             *big.Int
	data              []byte
	al                types.AccessList
	v, r, s           *big.Int
	signedWithParity  byte
	signerUnprotected bool
}

func (f fields) tx() *types.Transaction {
	if f.typ == 0 {
		return types.NewTx(&types.LegacyTx{Nonce: f.nonce, GasPrice: f.fee, Gas: f.gas, To: f.to, Value: f.value, Data: f.data, V: f.v, R: f.r, S: f.s})
	}
	return types.NewTx(&types.DynamicFeeTx{ChainID: f.chain, Nonce: f.nonce, GasTipCap: f.tip, GasFeeCap: f.fee, Gas: f.gas, To: f.to, Value: f.value, Data: f.data, AccessList: f.al, V: f.v, R: f.r, S: f.s})
}

func b(hex string) *big.Int { x, _ := new(big.Int).SetString(hex, 16); return x }

func recov(t *types.Transaction) (a []byte, err error, pan any) {
	defer func() { pan = recover() }()
	a, err = proof.RecoverTransactionSignerAddress(t)
	return
}

func run(c *mc.Ctx) {
	N := crypto.S256().Params().N
	keys := []string{"0000000000000000000000000000000000000000000000000000000000000001", "b71c71a67e1177ad4e901695e1b4b9ee17ae16c6668d313eac2f96dbcda3f291", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"}
	chains := []*big.Int{big.NewInt(1), big.NewInt(10), big.NewInt(46), big.NewInt(47), big.NewInt(110), big.NewInt(111), big.NewInt(127), big.NewInt(128), big.NewInt(255), big.NewInt(256), big.NewInt(42161), big.NewInt(65535), big.NewInt(1 << 32), b("7fffffffffffffed"), b("7fffffffffffffee"), b("7fffffffffffffff"), b("8000000000000000"), b("ffffffffffffffff"), b("10000000000000000"), b("ffffffffffffffffffffffffffffffff")}
	to := common.HexToAddress("0x00000000000000000000000000000000000000ff")
	to2 := common.HexToAddress("0xfffefdfcfbfaf9f8f7f6f5f4f3f2f1f0efeeedec")
	type vals struct {
		nonce, gas    uint64
		tip, fee, val *big.Int
		to            *common.Address
		data          []byte
		al            types.AccessList
	}
	vs := []vals{
		{0, 0, new(big.Int), new(big.Int), new(big.Int), nil, nil, nil},
		{1, 21000, big.NewInt(1), big.NewInt(127), big.NewInt(128), &to, []byte{0}, nil},
		{127, 1 << 32, big.NewInt(255), big.NewInt(256), b("ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"), &to2, []byte{0x7f}, types.AccessList{{Address: to}}},
		{128, 1<<64 - 1, b("ffffffffffffffffffffffffffffffff"), b("0100000000000000000000000000000000"), big.NewInt(1), &to, bytes.Repeat([]byte{0x80}, 55), types.AccessList{{Address: to, StorageKeys: []common.Hash{{}, {1}}}, {Address: to2, StorageKeys: []common.Hash{{2}}}}},
		{1<<64 - 1, 55, big.NewInt(56), big.NewInt(57), big.NewInt(58), nil, bytes.Repeat([]byte{1}, 56), nil},
		{256, 256, big.NewInt(0), big.NewInt(1), big.NewInt(0), &to, bytes.Repeat([]byte{0xff}, 300), nil},
	}
	if c.Thorough() {
		for n := 0; n < 70; n++ {
			vs = append(vs, vals{uint64(n), uint64(n) << 8, big.NewInt(int64(n)), big.NewInt(int64(n) << 20), new(big.Int).Lsh(big.NewInt(3), uint(n)), &to, bytes.Repeat([]byte{byte(n)}, n*4), nil})
		}
	}
	type cas struct{ t, ch, v, k, par int }
	var cs []cas
	for t := 0; t < 2; t++ {
		for ch := range chains {
			for v := range vs {
				for k := range keys {
					for par := 0; par < 2; par++ {
						cs = append(cs, cas{t, ch, v, k, par})
					}
				}
			}
		}
	}
	name := func(i int) string {
		k := cs[i]
		return fmt.Sprintf("type %d chain %s values %d key %d parity %d", 2*k.t, chains[k.ch], k.v, k.k, k.par)
	}
	make1 := func(k cas) (fields, common.Address, error) {
		key, _ := crypto.HexToECDSA(keys[k.k])
		v := vs[k.v]
		f := fields{typ: k.t, chain: chains[k.ch], nonce: v.nonce, gas: v.gas, tip: v.tip, fee: v.fee, to: v.to, value: v.val, data: v.data, al: v.al}
		signer := types.LatestSignerForChainID(f.chain)
		// the data is varied until the signature has the wanted parity
		for n := 0; n < 64; n++ {
			f.data = append(append([]byte{}, v.data...), bytes.Repeat([]byte{byte(n)}, n)...)
			t, err := types.SignTx(f.tx(), signer, key)
			if err != nil {
				return f, common.Address{}, err
			}
			f.v, f.r, f.s = t.RawSignatureValues()
			p := new(big.Int).Set(f.v)
			if k.t == 0 {
				p.Sub(p, big.NewInt(35)).Sub(p, new(big.Int).Lsh(f.chain, 1))
			}
			if p.Int64() == int64(k.par) {
				return f, crypto.PubkeyToAddress(key.PublicKey), nil
			}
		}
		return f, common.Address{}, fmt.Errorf("no signature with parity %d", k.par)
	}
	c.Each("genuine", len(cs), name, func(i int) string {
		f, want, err := make1(cs[i])
		if err != nil {
			panic(err)
		}
		c.State(1)
		c.Trace(1)
		t := f.tx()
		a, err, pan := recov(t)
		if pan != nil {
			return fmt.Sprint("panic: ", pan)
		}
		if err != nil {
			return err.Error()
		}
		if !bytes.Equal(a, want[:]) {
			return fmt.Sprintf("recovered %x, signed by %x", a, want)
		}
		// once more: recovery must not have changed the transaction
		if a2, err, _ := recov(t); err != nil || !bytes.Equal(a2, want[:]) {
			return "the second recovery differs"
		}
		u, err := proof.PrepareUnsignedTransactionRlp(t)
		if err != nil {
			return err.Error()
		}
		var w []byte
		if f.typ == 0 {
			w, _ = rlp.EncodeToBytes([]any{f.nonce, f.fee, f.gas, f.to, f.value, f.data, f.chain, uint(0), uint(0)})
		} else {
			w, _ = rlp.EncodeToBytes([]any{f.chain, f.nonce, f.tip, f.fee, f.gas, f.to, f.value, f.data, f.al})
		}
		if !bytes.Equal(u, w) {
			return fmt.Sprintf("unsigned encoding %x, expected %x", u, w)
		}
		return ""
	})
	one := big.NewInt(1)
	plus := func(x *big.Int, d int64) *big.Int { return new(big.Int).Add(x, big.NewInt(d)) }
	type mut struct {
		name string
		f    func(f *fields) bool // false: not applicable
	}
	var muts []mut
	m := func(name string, f func(f *fields)) {
		muts = append(muts, mut{name, func(x *fields) bool { f(x); return true }})
	}
	m("nonce", func(f *fields) { f.nonce ^= 1 })
	m("nonce high", func(f *fields) { f.nonce ^= 1 << 63 })
	m("gas", func(f *fields) { f.gas ^= 1 })
	m("fee", func(f *fields) { f.fee = plus(f.fee, 1) })
	m("fee shifted", func(f *fields) { f.fee = plus(new(big.Int).Lsh(f.fee, 8), 1) })
	m("value", func(f *fields) { f.value = plus(f.value, 1) })
	m("data appended", func(f *fields) { f.data = append(append([]byte{}, f.data...), 0) })
	m("data changed", func(f *fields) {
		if len(f.data) == 0 {
			f.data = []byte{1}
			return
		}
		f.data = bytes.Clone(f.data)
		f.data[len(f.data)-1] ^= 1
	})
	m("to", func(f *fields) {
		x := common.Address{1}
		if f.to != nil {
			x = *f.to
			x[19] ^= 1
		}
		f.to = &x
	})
	m("to removed or zero", func(f *fields) {
		if f.to == nil {
			f.to = &common.Address{}
		} else {
			f.to = nil
		}
	})
	muts = append(muts, mut{"tip", func(f *fields) bool { f.tip = plus(f.tip, 1); return f.typ == 1 }})
	muts = append(muts, mut{"tip and fee exchanged", func(f *fields) bool {
		f.tip, f.fee = f.fee, f.tip
		return f.typ == 1 && f.tip.Cmp(f.fee) != 0
	}})
	muts = append(muts, mut{"chain", func(f *fields) bool { f.chain = plus(f.chain, 1); return f.typ == 1 }})
	muts = append(muts, mut{"chain plus 2^64", func(f *fields) bool {
		f.chain = new(big.Int).Add(f.chain, new(big.Int).Lsh(one, 64))
		return f.typ == 1
	}})
	muts = append(muts, mut{"access list", func(f *fields) bool {
		f.al = append(append(types.AccessList{}, f.al...), types.AccessTuple{Address: to})
		return f.typ == 1
	}})
	muts = append(muts, mut{"access list key", func(f *fields) bool {
		if len(f.al) == 0 {
			return false
		}
		f.al = append(types.AccessList{}, f.al...)
		f.al[0].StorageKeys = append(append([]common.Hash{}, f.al[0].StorageKeys...), common.Hash{})
		return f.typ == 1
	}})
	for _, d := range []int64{-1, 1, -2, 2, 3, 4, 27, 28, 256, 1 << 32} {
		d := d
		muts = append(muts, mut{fmt.Sprintf("v%+d", d), func(f *fields) bool { f.v = plus(f.v, d); return f.v.Sign() >= 0 }})
	}
	for _, s := range []uint{8, 63, 64, 65, 128, 256, 264} {
		s := s
		m(fmt.Sprintf("v + 2^%d", s), func(f *fields) { f.v = new(big.Int).Add(f.v, new(big.Int).Lsh(one, s)) })
		m(fmt.Sprintf("r + 2^%d", s), func(f *fields) { f.r = new(big.Int).Add(f.r, new(big.Int).Lsh(one, s)) })
		m(fmt.Sprintf("s + 2^%d", s), func(f *fields) { f.s = new(big.Int).Add(f.s, new(big.Int).Lsh(one, s)) })
	}
	m("v zero", func(f *fields) {
		if f.v.Sign() == 0 {
			f.v = big.NewInt(5)
		} else {
			f.v = new(big.Int)
		}
	})
	m("unprotected 27", func(f *fields) { f.v = big.NewInt(27) })
	m("unprotected 28", func(f *fields) { f.v = big.NewInt(28) })
	m("r zero", func(f *fields) { f.r = new(big.Int) })
	m("s zero", func(f *fields) { f.s = new(big.Int) })
	m("r order", func(f *fields) { f.r = N })
	m("s order", func(f *fields) { f.s = N })
	m("r plus order", func(f *fields) { f.r = new(big.Int).Add(f.r, N) })
	m("s plus order", func(f *fields) { f.s = new(big.Int).Add(f.s, N) })
	m("r+1", func(f *fields) { f.r = plus(f.r, 1) })
	m("s+1", func(f *fields) { f.s = plus(f.s, 1) })
	m("r and s exchanged", func(f *fields) { f.r, f.s = f.s, f.r })
	m("s complemented", func(f *fields) { f.s = new(big.Int).Sub(N, f.s) })
	flip := func(f *fields, par int) {
		if par == 0 {
			f.v = plus(f.v, 1)
		} else {
			f.v = plus(f.v, -1)
		}
	}
	muts = append(muts, mut{"s complemented and parity exchanged", nil}, mut{"type exchanged", nil})
	c.Each("altered", len(cs), name, func(i int) string {
		f0, want, err := make1(cs[i])
		if err != nil {
			panic(err)
		}
		for _, mu := range muts {
			f := f0
			switch {
			case mu.name == "type exchanged":
				f.typ = 1 - f.typ
				f.v = big.NewInt(int64(cs[i].par))
				if f.typ == 0 {
					f.v = new(big.Int).Add(new(big.Int).Lsh(f.chain, 1), big.NewInt(int64(35+cs[i].par)))
				}
			case mu.f == nil:
				f.s = new(big.Int).Sub(N, f.s)
				flip(&f, cs[i].par)
			default:
				if !mu.f(&f) {
					continue
				}
			}
			c.State(1)
			c.Trans(1)
			a, err, pan := recov(f.tx())
			if pan != nil {
				return fmt.Sprintf("%s: panic: %v", mu.name, pan)
			}
			if err == nil && bytes.Equal(a, want[:]) {
				return mu.name + ": the original signer was recovered from an altered transaction"
			}
			if err == nil && len(a) != 20 {
				return mu.name + ": neither an address nor an error"
			}
		}
		return ""
	})
	// unsupported types
	key, _ := crypto.HexToECDSA(keys[1])
	addr := crypto.PubkeyToAddress(key.PublicKey)
	un := []types.TxData{
		&types.AccessListTx{ChainID: big.NewInt(1), Nonce: 1, GasPrice: big.NewInt(1), Gas: 1, To: &to, Value: big.NewInt(1)},
		&types.BlobTx{ChainID: uint256.NewInt(1), GasTipCap: uint256.NewInt(1), GasFeeCap: uint256.NewInt(1), Value: uint256.NewInt(1), BlobFeeCap: uint256.NewInt(1), BlobHashes: []common.Hash{{1}}},
	}
	c.Each("unsupported", len(un)+16, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		c.State(1)
		var t *types.Transaction
		if i < len(un) {
			t, _ = types.SignNewTx(key, types.LatestSignerForChainID(big.NewInt(1)), un[i])
		} else {
			t, _ = types.SignNewTx(key, types.HomesteadSigner{}, &types.LegacyTx{Nonce: uint64(i), GasPrice: big.NewInt(1), Gas: 1, To: &to, Value: big.NewInt(1)})
		}
		a, err, pan := recov(t)
		if pan != nil {
			return fmt.Sprint("panic: ", pan)
		}
		if err != nil {
			return ""
		}
		if i >= len(un) && bytes.Equal(a, addr[:]) {
			return "" // an implementation may also support these
		}
		return fmt.Sprintf("recovered %x instead of an error", a)
	})
}
