// C03: account proofs, slot values and the composed header, account and storage check.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/hdrx"
	"verif/harness/mc"
	"verif/harness/mptx"
	"verif/harness/rlpref"
	"verif/harness/trie"
)

type F = frontend.Variable

func main() {
	mc.Main(mc.Meta{Prop: "C03",
		Rule:        "account tries of every shape with accounts of every nonce and balance length class: the genuine proof is accepted with exactly the account's fields; every nibble of the claimed account, every nibble of root and key, every byte of every proof node changed, every other account's data and every leaf that holds no account rejected; slot values of every length; composed check: two blocks, two accounts each, two slots each (and absent ones): every combination of public inputs with every combination of genuine sub-proofs is accepted exactly when they belong together, and then with exactly the block number and slot value; header, hash and field-count alterations",
		Assumptions: []string{"Keccak-256 is collision free", "trie nodes are at least 32 bytes", "slots of value zero are absent from the trie (protocol rule)"},
	}, run)
}

func k(v int) F { return eng.V(v) }

func conv(x []int) []F {
	r := make([]F, len(x))
	for i := range x {
		r[i] = k(x[i])
	}
	return r
}
func nib64(b []byte) (r [64]F) { copy(r[:], mptx.Nib(b, 64)); return }
func keyF(n []byte) (r [64]F) {
	for i := range r {
		r[i] = k(int(n[i]))
	}
	return
}
func bufs(nodes [][]byte) (r [][]F) {
	for _, n := range nodes {
		b, _ := mptx.Buf(n, mpt.BranchNodeMaxBlockSize)
		r = append(r, b)
	}
	return
}
func buf(n []byte) []F { b, _ := mptx.Buf(n, mpt.BranchNodeMaxBlockSize); return b }

func account(nonce, balance, root, code []byte) []byte {
	return trie.RLPList(trie.RLPStr(nonce), trie.RLPStr(balance), trie.RLPStr(root), trie.RLPStr(code))
}

func wrap(b []byte) []byte { return b }

type acc struct {
	R      eng.Result
	Output int64
	NLen   int64
	BLen   int64
	Nonce  []int64
	Bal    []int64
	Root   []int64
	Code   []int64
	Ops    uint64
}

func ints(e *eng.Engine, x ...F) (r []int64) {
	for _, v := range x {
		b := e.Big(v)
		if b.IsInt64() {
			r = append(r, b.Int64())
		} else {
			r = append(r, -1)
		}
	}
	return
}

// runAccount runs the account check on a trie witness whose value is the account.
func runAccount(w mptx.W, edit func(addr *[228]F, root, key *[64]F)) (o acc) {
	e := mptx.Engine()
	o.R = e.Run(func(api frontend.API) error {
		var a [228]F
		copy(a[:], mptx.Nib(w.Value, 228))
		root, key := nib64(w.Root[:]), keyF(w.Key)
		if edit != nil {
			edit(&a, &root, &key)
		}
		r := mpt.CheckEthAccountProof(api, w.MaxDepth, root, key, conv(w.Starts), a, buf(w.Last), k(w.LastRound), k(w.LastPrefix), bufs(w.Nodes), conv(w.Rounds), conv(w.Prefix), conv(w.Types), k(w.Depth))
		o.Output = ints(e, r.Output)[0]
		o.NLen, o.BLen = ints(e, r.NonceLength)[0], ints(e, r.BalanceLength)[0]
		o.Nonce, o.Bal, o.Root, o.Code = ints(e, r.Nonce[:]...), ints(e, r.Balance[:]...), ints(e, r.StorageRoot[:]...), ints(e, r.CodeHash[:]...)
		return nil
	})
	o.Ops = e.Ops
	return
}

func eq(got []int64, b []byte) bool {
	n := trie.Nibbles(b)
	if len(got) < len(n) {
		return false
	}
	for i := range n {
		if got[i] != int64(n[i]) {
			return false
		}
	}
	return true
}

func (o acc) is(d rlpref.Dec) string {
	f := d.F
	if o.NLen != int64(f[0].Size) || o.BLen != int64(f[1].Size) {
		return fmt.Sprintf("nonce length %d, balance length %d, the account has %d and %d", o.NLen, o.BLen, f[0].Size, f[1].Size)
	}
	if !eq(o.Nonce, f[0].Content) {
		return fmt.Sprintf("nonce %v, account %x", o.Nonce, f[0].Content)
	}
	if !eq(o.Bal, f[1].Content) {
		return fmt.Sprintf("balance %v, account %x", o.Bal, f[1].Content)
	}
	if len(f[2].Content) != 32 || !eq(o.Root, f[2].Content) {
		return fmt.Sprintf("storage root %v, account %x", o.Root, f[2].Content)
	}
	if len(f[3].Content) != 32 || !eq(o.Code, f[3].Content) {
		return fmt.Sprintf("code hash %v, account %x", o.Code, f[3].Content)
	}
	return ""
}

func pad57(b []byte) []byte {
	return append(append([]byte{}, b...), make([]byte, 114)...)[:114]
}

func withVals(s mptx.Shape, v func(i int) []byte) mptx.Shape {
	t := s
	t.KVs = nil
	for i, kv := range s.KVs {
		t.KVs = append(t.KVs, trie.KV{K: kv.K, V: v(i)})
	}
	return t
}

func honest(root *trie.Node, key, val []byte, maxDepth, mv int, storage bool) mptx.W {
	return mptx.Honest(root.Path(key), root.Hash, key, val, maxDepth, mv, storage)
}

func nonces() (r [][]byte) {
	r = append(r, nil, []byte{1}, []byte{0x7f}, []byte{0x80})
	for n := 1; n <= 8; n++ {
		r = append(r, hdrx.Seq(n, 3))
	}
	r = append(r, hdrx.Seq(20, 3), hdrx.Seq(32, 5))
	return
}
func balances() (r [][]byte) {
	r = append(r, nil, []byte{1}, []byte{0x7f}, []byte{0x80})
	for n := 1; n <= 12; n++ {
		r = append(r, hdrx.Seq(n, 7))
	}
	return
}

func run(c *mc.Ctx) {
	shapes := mptx.Shapes(c.Thorough(), 112)
	std := func(i int) []byte {
		return account([]byte{byte(i + 1)}, hdrx.Seq(9, i), hdrx.Seq(32, i+40), hdrx.Seq(32, i+80))
	}
	// 1. genuine accounts
	type gc struct {
		s     mptx.Shape
		key   int
		nonce []byte
		bal   []byte
	}
	var gs []gc
	for si, s := range shapes {
		for ki := range s.KVs {
			for ni, n := range nonces() {
				for bi, b := range balances() {
					if (si != 1 || ki > 0) && (ni*5+bi*3+si+ki)%mc.Pick(c, 16, 4) != 0 && !(ni == 0 && bi == 0) {
						continue
					}
					if si == 1 && ki == 0 && !c.Thorough() && (ni+bi)%3 != 0 && ni > 3 && bi > 3 {
						continue
					}
					if len(account(n, b, make([]byte, 32), make([]byte, 32))) > 114 {
						continue
					}
					gs = append(gs, gc{s, ki, n, b})
				}
			}
		}
	}
	c.Each("genuine account", len(gs), func(i int) string {
		return fmt.Sprintf("%s key %d nonce %x balance %x", gs[i].s.Name, gs[i].key, gs[i].nonce, gs[i].bal)
	}, func(i int) string {
		g := gs[i]
		s := withVals(g.s, func(i int) []byte {
			if i == g.key {
				return account(g.nonce, g.bal, hdrx.Seq(32, 1), hdrx.Seq(32, 2))
			}
			return std(i)
		})
		root := trie.Build(s.KVs)
		kv := s.KVs[g.key]
		w := honest(root, kv.K, kv.V, s.Depth, 228, false)
		o := runAccount(w, nil)
		c.State(1)
		c.Trans(int(o.Ops))
		if !o.R.OK || o.Output != 1 {
			return fmt.Sprintf("genuine account refused: output %d %v", o.Output, o.R)
		}
		return o.is(rlpref.Parse(kv.V, 4, false))
	})
	// 2. altered claims
	type ac struct {
		s         mptx.Shape
		key       int
		what, pos int
		d         int
	}
	var as []ac
	for si, s := range shapes {
		for ki := range s.KVs {
			if ki > 0 && !c.Thorough() {
				continue
			}
			vl := 2 * len(std(ki))
			for p := 0; p < vl; p++ {
				for _, d := range []int{1, 8, 15} {
					if c.Thorough() || si == 1 && d == 1 || (p+si+d)%9 == 0 {
						as = append(as, ac{s, ki, 0, p, d})
					}
				}
			}
			for p := vl; p < 228; p++ {
				if (p+si)%7 == 0 {
					as = append(as, ac{s, ki, 4, p, 5})
				}
			}
			for p := 0; p < 64; p++ {
				for w := 1; w <= 2; w++ {
					if c.Thorough() || (p+w+si)%5 == 0 || p < 4 || p > 60 {
						as = append(as, ac{s, ki, w, p, 1 + p%15})
					}
				}
			}
			for o := range s.KVs {
				if o != ki {
					as = append(as, ac{s, ki, 5, o, 0}, ac{s, ki, 6, o, 0})
				}
			}
			for p := 0; p < mc.Pick(c, 60, 600); p++ {
				as = append(as, ac{s, ki, 3, p, 1 << (p % 8)})
			}
		}
	}
	names := []string{"account nibble", "root nibble", "key nibble", "node byte", "padding nibble", "data of key", "path of key"}
	c.Each("altered account", len(as), func(i int) string {
		return fmt.Sprintf("%s key %d: %s %d by %d", as[i].s.Name, as[i].key, names[as[i].what], as[i].pos, as[i].d)
	}, func(i int) string {
		a := as[i]
		s := withVals(a.s, std)
		root := trie.Build(s.KVs)
		kv := s.KVs[a.key]
		w := honest(root, kv.K, kv.V, s.Depth, 228, false)
		switch a.what {
		case 3:
			path := root.Path(kv.K)
			n := path[a.pos%len(path)]
			b := append([]byte{}, n.RLP...)
			b[(a.pos*31)%len(b)] ^= byte(a.d)
			if a.pos%len(path) == len(path)-1 {
				w.Last = b
			} else {
				w.Nodes = append([][]byte{}, w.Nodes...)
				w.Nodes[a.pos%len(path)] = b
			}
		case 5:
			w.Value = s.KVs[a.pos].V
		case 6:
			o := honest(root, s.KVs[a.pos].K, kv.V, s.Depth, 228, false)
			o.Key = kv.K
			w = o
		}
		o := runAccount(w, func(addr *[228]F, root, key *[64]F) {
			var t *F
			switch a.what {
			case 0, 4:
				t = &addr[a.pos]
			case 1:
				t = &root[a.pos]
			case 2:
				t = &key[a.pos]
			default:
				return
			}
			*t = k((int((*t).(eng.V)) ^ a.d) & 15)
		})
		c.State(1)
		c.Trans(int(o.Ops))
		if o.R.Panic != "" {
			return o.R.String()
		}
		if !o.R.OK || o.Output != 1 {
			return ""
		}
		if a.what == 4 {
			return o.is(rlpref.Parse(kv.V, 4, false))
		}
		return "a false claim is accepted"
	})
	// 3. leaves that hold no account of the supported sizes
	r32 := hdrx.Seq(32, 3)
	odd := map[string][]byte{
		"3 fields":          trie.RLPList([]byte{1}, trie.RLPStr(r32), trie.RLPStr(r32)),
		"5 fields":          trie.RLPList([]byte{1}, []byte{2}, trie.RLPStr(r32), trie.RLPStr(r32), []byte{3}),
		"5 empty last":      trie.RLPList([]byte{1}, []byte{2}, trie.RLPStr(r32), trie.RLPStr(r32), []byte{0x80}),
		"string":            trie.RLPStr(r32),
		"root 31":           account([]byte{1}, []byte{2}, r32[:31], r32),
		"root 33":           account([]byte{1}, []byte{2}, append(r32[:32:32], 9), r32),
		"code 31":           account([]byte{1}, []byte{2}, r32, r32[:31]),
		"code 33":           account([]byte{1}, []byte{2}, r32, append(r32[:32:32], 9)),
		"root empty":        account([]byte{1}, []byte{2}, nil, r32),
		"balance 13":        account([]byte{1}, hdrx.Seq(13, 1), r32, r32),
		"balance 20":        account([]byte{1}, hdrx.Seq(20, 1), r32, r32),
		"nonce 33":          account(hdrx.Seq(33, 1), nil, r32, r32),
		"nested balance":    trie.RLPList([]byte{1}, trie.RLPList([]byte{2}), trie.RLPStr(r32), trie.RLPStr(r32)),
		"nested root":       trie.RLPList([]byte{1}, []byte{2}, trie.RLPList(trie.RLPStr(r32[:31])), trie.RLPStr(r32)),
		"list in list":      trie.RLPList(trie.RLPList([]byte{1}, []byte{2}, trie.RLPStr(r32), trie.RLPStr(r32))),
		"root and code one": trie.RLPList([]byte{1}, []byte{2}, trie.RLPStr(append(r32[:32:32], r32...))),
	}
	var on []string
	for _, n := range []string{"3 fields", "5 fields", "5 empty last", "string", "root 31", "root 33", "code 31", "code 33", "root empty", "balance 13", "balance 20", "nonce 33", "nested balance", "nested root", "list in list", "root and code one"} {
		on = append(on, n)
	}
	c.Each("no account", len(on)*2, func(i int) string { return fmt.Sprintf("%s shape %d", on[i/2], i%2) }, func(i int) string {
		v := odd[on[i/2]]
		s := withVals(shapes[1+i%2], func(j int) []byte {
			if j == 0 {
				return v
			}
			return std(j)
		})
		root := trie.Build(s.KVs)
		w := honest(root, s.KVs[0].K, v, s.Depth, 228, false)
		o := runAccount(w, nil)
		c.State(1)
		c.Trans(int(o.Ops))
		if o.R.Panic != "" {
			return o.R.String()
		}
		if o.R.OK && o.Output == 1 {
			d := rlpref.Parse(v, 4, false)
			if !d.OK {
				return "a leaf that holds no account is accepted"
			}
			return o.is(d)
		}
		return ""
	})
	// 4. slot values
	var vals [][]byte
	for n := 1; n <= 32; n++ {
		vals = append(vals, hdrx.Seq(n, 9), append([]byte{0x01}, hdrx.Seq(n, 4)[1:]...))
		f := bytes.Repeat([]byte{0xff}, n)
		z := make([]byte, n)
		z[0] = 0x10
		vals = append(vals, f, z)
	}
	for b := 1; b < 256; b++ {
		vals = append(vals, []byte{byte(b)})
	}
	c.Each("slot value", len(vals), func(i int) string { return fmt.Sprintf("%x", vals[i]) }, func(i int) string {
		v := vals[i]
		s := withVals(shapes[1+i%2], func(j int) []byte {
			if j == 0 {
				return trie.RLPStr(v)
			}
			return mptx.Val(3, 4)
		})
		root := trie.Build(s.KVs)
		w := honest(root, s.KVs[0].K, trie.RLPStr(v), s.Depth, 66, true)
		for junk := 0; junk < 2; junk++ {
			e := mptx.Engine()
			var out int64
			var sv [2]*big.Int
			var vl int64
			r := e.Run(func(api frontend.API) error {
				var val [66]F
				copy(val[:], mptx.Nib(w.Value, 66))
				if junk == 1 {
					for q := 2 * len(w.Value); q < 66; q++ {
						val[q] = k(q % 16)
					}
				}
				r := mpt.CheckEthStorageProof(api, w.MaxDepth, nib64(w.Root[:]), keyF(w.Key), val, conv(w.Starts), buf(w.Last), k(w.LastRound), k(w.LastPrefix), bufs(w.Nodes), conv(w.Rounds), conv(w.Prefix), conv(w.Types), k(w.Depth))
				out, vl = ints(e, r.Output)[0], ints(e, r.ValueLength)[0]
				sv[0], sv[1] = e.Big(r.SlotValue[0]), e.Big(r.SlotValue[1])
				return nil
			})
			c.State(1)
			c.Trans(int(e.Ops))
			if !r.OK || out != 1 {
				if junk == 1 {
					continue // what follows the value may be refused
				}
				return fmt.Sprintf("genuine slot refused: %d %v", out, r)
			}
			x := new(big.Int).SetBytes(v)
			hi := new(big.Int).Rsh(x, 248)
			lo := new(big.Int).Sub(x, new(big.Int).Lsh(hi, 248))
			if sv[0].Cmp(lo) != 0 || sv[1].Cmp(hi) != 0 {
				return fmt.Sprintf("slot value %x %x, want %x", sv[1], sv[0], v)
			}
			_ = vl
		}
		return ""
	})
	composed(c)
}

type stor struct {
	root *trie.Node
	kvs  []trie.KV
}

type block struct {
	hdr   []byte
	hash  [32]byte
	num   int64
	state *trie.Node
	nf    int
}

type pub struct {
	hash      [32]byte
	addr, slt []byte
}

type wit struct {
	hdr        []byte
	raw        []byte // when set, used unpadded
	nf, round  int
	acct, slot mptx.W
}

type cout struct {
	R      eng.Result
	Output int64
	Num    int64
	SV     [2]*big.Int
	Ops    uint64
}

const aDepth, sDepth = 4, 4

func gadget(api frontend.API, p pub, w wit, kk func(int) F) mpt.EthAddressStorageProofResult {
	cv := func(x []F) []F {
		r := make([]F, len(x))
		for i := range x {
			r[i] = kk(int(x[i].(eng.V)))
		}
		return r
	}
	var hash, addr, slot [64]F
	h, a, s := nib64(p.hash[:]), keyF(p.addr), keyF(p.slt)
	copy(hash[:], cv(h[:]))
	copy(addr[:], cv(a[:]))
	copy(slot[:], cv(s[:]))
	in := hdrx.Buf(w.hdr)
	if w.raw != nil {
		in = hdrx.Raw(w.raw)
	}
	var hdr [hdrx.Len]F
	copy(hdr[:], cv(in[:]))
	var aRlp [228]F
	copy(aRlp[:], cv(mptx.Nib(w.acct.Value, 228)))
	var sRlp [66]F
	copy(sRlp[:], cv(mptx.Nib(w.slot.Value, 66)))
	var ar [mpt.AccountMPTMaxDepth - 1]F
	for i := range ar {
		ar[i] = kk(0)
		if i < len(w.acct.Rounds) {
			ar[i] = kk(w.acct.Rounds[i])
		}
	}
	nn := func(x [][]byte) (r [][]F) {
		for _, b := range bufs(x) {
			r = append(r, cv(b))
		}
		return
	}
	ac, st := w.acct, w.slot
	return mpt.CheckEthAddressStorageProof(api, aDepth, sDepth, hash, kk(w.nf), kk(w.round), addr, slot, hdr,
		cv(conv(ac.Starts)), aRlp, cv(buf(ac.Last)), kk(ac.LastRound), kk(ac.LastPrefix), nn(ac.Nodes), ar, cv(conv(ac.Prefix)), cv(conv(ac.Types)), kk(ac.Depth),
		cv(conv(st.Starts)), sRlp, cv(buf(st.Last)), kk(st.LastRound), kk(st.LastPrefix), nn(st.Nodes), cv(conv(st.Rounds)), cv(conv(st.Prefix)), cv(conv(st.Types)), kk(st.Depth))
}

func runC(p pub, w wit) (o cout) {
	e := mptx.Engine()
	o.R = e.Run(func(api frontend.API) error {
		r := gadget(api, p, w, k)
		o.Output = ints(e, r.Output)[0]
		o.Num = ints(e, r.BlockNumber)[0]
		o.SV = [2]*big.Int{e.Big(r.SlotValue[0]), e.Big(r.SlotValue[1])}
		return nil
	})
	o.Ops = e.Ops
	return
}

func composed(c *mc.Ctx) {
	key := mptx.Key
	// storage tries
	mkS := func(seed int) stor {
		kv := []trie.KV{{K: key(1, 1), V: mptx.Val(byte(seed), 32)}, {K: key(2, 2), V: mptx.Val(byte(seed+1), 3)}}
		return stor{trie.Build(kv), kv}
	}
	type acct struct {
		key []byte
		s   stor
		rlp []byte
	}
	mkA := func(kk []byte, seed int) acct {
		s := mkS(seed)
		return acct{kk, s, account([]byte{byte(seed)}, hdrx.Seq(8, seed), s.root.Hash[:], hdrx.Seq(32, seed))}
	}
	var accts [2][2]acct
	var blocks [2]block
	nums := [2][]byte{{0x01, 0x03, 0x9e, 0x88}, {0x05}}
	for b := range blocks {
		accts[b] = [2]acct{mkA(key(11, 3, 4), 10+40*b), mkA(key(12, 3, 5), 30+40*b)}
		st := trie.Build([]trie.KV{{K: accts[b][0].key, V: accts[b][0].rlp}, {K: accts[b][1].key, V: accts[b][1].rlp}})
		h := hdrx.Default(16+b).With(3, st.Hash[:]).With(8, nums[b]).RLP()
		blocks[b] = block{h, eng.Keccak256(h), new(big.Int).SetBytes(nums[b]).Int64(), st, 16 + b}
	}
	addrs := [][]byte{accts[0][0].key, accts[0][1].key, key(13, 3, 6)}
	slots := [][]byte{key(1, 1), key(2, 2), key(3, 3), key(4, 1)}
	zero := mptx.Zero
	var bogus [32]byte
	bogus[5] = 1
	hashes := [][32]byte{blocks[0].hash, blocks[1].hash, bogus}
	type cs struct{ h, a, s, wb, wab, wa, wsb, wsa, ws int }
	var cases []cs
	for h := range hashes {
		for a := range addrs {
			for s := range slots {
				for wb := 0; wb < 2; wb++ {
					for wab := 0; wab < 2; wab++ {
						for wa := 0; wa < 2; wa++ {
							for wsb := 0; wsb < 2; wsb++ {
								for wsa := 0; wsa < 2; wsa++ {
									for ws := range slots {
										x := cs{h, a, s, wb, wab, wa, wsb, wsa, ws}
										diff := 0
										for _, d := range []bool{h != wb, wb != wab, a != wa, wab != wsb, wa != wsa, s != ws} {
											if d {
												diff++
											}
										}
										if diff <= mc.Pick(c, 1, 6) {
											cases = append(cases, x)
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	witness := func(x cs) (wit, []byte) {
		b := blocks[x.wb]
		am := accts[x.wab][x.wa]
		ss := accts[x.wsb][x.wsa].s
		v, ok := ss.root.Get(slots[x.ws])
		if !ok {
			v = zero
		}
		return wit{hdr: b.hdr, nf: b.nf, round: len(b.hdr) / 136, acct: honest(blocks[x.wab].state, am.key, am.rlp, aDepth, 228, false),
			slot: honest(ss.root, slots[x.ws], v, sDepth, 66, true)}, v
	}
	// the truth about public inputs
	truth := func(p pub) (num int64, val []byte, ok bool) {
		for b := range blocks {
			if p.hash == blocks[b].hash {
				for _, a := range accts[b] {
					if bytes.Equal(a.key, p.addr) {
						v, found := a.s.root.Get(p.slt)
						if !found {
							return blocks[b].num, nil, true
						}
						d := v[1:]
						if len(v) == 1 {
							d = v
						}
						return blocks[b].num, d, true
					}
				}
			}
		}
		return
	}
	judge := func(p pub, w wit, must bool) string {
		o := runC(p, w)
		c.State(1)
		c.Trans(int(o.Ops))
		if o.R.Panic != "" {
			return o.R.String()
		}
		if !o.R.OK || o.Output != 1 {
			if must {
				return fmt.Sprintf("genuine proof refused: output %d %v", o.Output, o.R)
			}
			return ""
		}
		num, val, ok := truth(p)
		if !ok {
			return "accepted for a block hash or an address that the block does not have"
		}
		if o.Num != num {
			return fmt.Sprintf("block number %d, want %d", o.Num, num)
		}
		x := new(big.Int).SetBytes(val)
		hi := new(big.Int).Rsh(x, 248)
		lo := new(big.Int).Sub(x, new(big.Int).Lsh(hi, 248))
		if o.SV[0].Cmp(lo) != 0 || o.SV[1].Cmp(hi) != 0 {
			return fmt.Sprintf("slot value %x %x, want %x", o.SV[1], o.SV[0], val)
		}
		return ""
	}
	c.Each("composed", len(cases), func(i int) string { return fmt.Sprintf("%+v", cases[i]) }, func(i int) string {
		x := cases[i]
		w, _ := witness(x)
		p := pub{hashes[x.h], addrs[x.a], slots[x.s]}
		must := x.h == x.wb && x.wb == x.wab && x.a == x.wa && x.wab == x.wsb && x.wa == x.wsa && x.s == x.ws
		return judge(p, w, must)
	})
	// block numbers of every length
	type nc struct {
		n   []byte
		nf  int
		bad bool
	}
	var ncs []nc
	for nf := 15; nf <= 17; nf++ {
		ncs = append(ncs, nc{nil, nf, false}, nc{[]byte{1}, nf, false}, nc{[]byte{0x7f}, nf, false}, nc{[]byte{0x80}, nf, false}, nc{[]byte{0xff}, nf, false})
		for l := 2; l <= 8; l++ {
			ncs = append(ncs, nc{hdrx.Seq(l, 4), nf, l > 4}, nc{bytes.Repeat([]byte{0xff}, l), nf, l > 4})
		}
	}
	c.Each("block number", len(ncs), func(i int) string { return fmt.Sprintf("%d fields %x", ncs[i].nf, ncs[i].n) }, func(i int) string {
		n := ncs[i]
		w, _ := witness(cs{})
		h := hdrx.Default(n.nf).With(3, blocks[0].state.Hash[:]).With(8, n.n).RLP()
		w.hdr, w.nf, w.round = h, n.nf, len(h)/136
		o := runC(pub{eng.Keccak256(h), addrs[0], slots[0]}, w)
		c.State(1)
		c.Trans(int(o.Ops))
		if o.R.OK && o.Output == 1 {
			if o.Num != new(big.Int).SetBytes(n.n).Int64() {
				return fmt.Sprintf("block number %d for %x", o.Num, n.n)
			}
			return ""
		}
		if !n.bad {
			return fmt.Sprintf("refused: %d %v", o.Output, o.R)
		}
		return ""
	})
	// alterations of a genuine composed witness
	type fa struct {
		name string
		f    func(p *pub, w *wit)
	}
	var fs []fa
	for i := 0; i < 64; i++ {
		i := i
		if i < 32 {
			fs = append(fs, fa{fmt.Sprintf("hash byte %d", i), func(p *pub, w *wit) { p.hash[i] ^= 1 << (i % 8) }})
		}
		fs = append(fs, fa{fmt.Sprintf("address nibble %d", i), func(p *pub, w *wit) { p.addr = append([]byte{}, p.addr...); p.addr[i] ^= 1 << (i % 4) }})
	}
	for i := 0; i < len(blocks[0].hdr); i += mc.Pick(c, 7, 1) {
		i := i
		fs = append(fs, fa{fmt.Sprintf("header byte %d", i), func(p *pub, w *wit) { w.hdr = append([]byte{}, w.hdr...); w.hdr[i] ^= 1 << (i % 8) }})
	}
	for i := 0; i < 33; i++ {
		i := i
		fs = append(fs, fa{fmt.Sprintf("slot value byte %d", i), func(p *pub, w *wit) {
			w.slot.Value = append([]byte{}, w.slot.Value...)
			w.slot.Value[i] ^= 1 << (i % 8)
		}})
	}
	for i := 0; i < len(accts[0][0].rlp); i += mc.Pick(c, 3, 1) {
		i := i
		fs = append(fs, fa{fmt.Sprintf("account byte %d", i), func(p *pub, w *wit) {
			w.acct.Value = append([]byte{}, w.acct.Value...)
			w.acct.Value[i] ^= 1 << (i % 8)
		}})
	}
	for nf := 0; nf < 16; nf++ {
		nf := nf
		fs = append(fs, fa{fmt.Sprintf("claimed %d header fields", nf), func(p *pub, w *wit) { w.nf = nf }})
	}
	for r := 0; r < 8; r++ {
		if r != len(blocks[0].hdr)/136 {
			r := r
			fs = append(fs, fa{fmt.Sprintf("header round %d", r), func(p *pub, w *wit) { w.round = r }})
		}
	}
	c.Each("composed altered", len(fs), func(i int) string { return fs[i].name }, func(i int) string {
		w, _ := witness(cs{})
		p := pub{hashes[0], addrs[0], slots[0]}
		fs[i].f(&p, &w)
		o := runC(p, w)
		c.State(1)
		c.Trans(int(o.Ops))
		if o.R.Panic != "" {
			return o.R.String()
		}
		if o.R.OK && o.Output == 1 {
			return "an altered claim is accepted"
		}
		return ""
	})
	// byte strings that are no header, under their own hash
	c.Each("composed malformed header", 24, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		d := hdrx.Default(15+i%3).With(3, blocks[0].state.Hash[:])
		var it [][]byte
		for _, x := range d {
			it = append(it, trie.RLPStr(x))
		}
		switch i / 3 {
		case 0:
			it = it[:len(it)-1]
		case 1:
			it = append(it, []byte{0x80})
		case 2:
			it = it[:9]
		case 3:
			it = it[:4]
		case 4:
			it[0] = trie.RLPStr(hdrx.Seq(31, 1))
		case 5:
			it[6] = trie.RLPStr(hdrx.Seq(255, 1))
		case 6:
			it[12] = append(it[12], 0x80, 0x80)
		}
		h := trie.RLPList(it...)
		if i/3 == 7 {
			h = h[:len(h)-20]
		}
		w, _ := witness(cs{})
		w.hdr, w.nf, w.round = h, 15+i%3, len(h)/136
		o := runC(pub{eng.Keccak256(h), addrs[0], slots[0]}, w)
		c.State(1)
		c.Trans(int(o.Ops))
		if o.R.Panic != "" {
			return o.R.String()
		}
		full := append(append([]byte{}, h...), make([]byte, hdrx.Len/2)...)[:hdrx.Len/2]
		if o.R.OK && o.Output == 1 && !rlpref.Parse(full, w.nf, false).OK {
			return "a byte string that is no header is accepted"
		}
		return ""
	})
	var once sync.Once
	once.Do(func() {})
	c.Each("bn254 conformance", 3, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		w, _ := witness(cs{})
		p := pub{hashes[0], addrs[0], slots[0]}
		switch i {
		case 1:
			w.acct.Value = append([]byte{}, w.acct.Value...)
			w.acct.Value[10] ^= 1
		case 2:
			p.hash = hashes[1]
		}
		o := runC(p, w)
		if !o.R.OK {
			return o.R.String()
		}
		k := &circ{p: p, w: w}
		err := test.IsSolved(k, &circ{p: p, w: w, Out: o.Output, Num: o.Num, Zero: 0}, gk.BN254)
		c.Trace(1)
		if err != nil {
			return fmt.Sprintf("gnark's test engine disagrees: %v", err)
		}
		return ""
	})
}

type circ struct {
	Out, Num, Zero frontend.Variable
	p              pub
	w              wit
}

func (k *circ) Define(api frontend.API) error {
	// every input is a variable of gnark's (a constant plus a variable zero)
	r := gadget(api, k.p, k.w, func(v int) F { return api.Add(k.Zero, v) })
	api.AssertIsEqual(r.Output, k.Out)
	api.AssertIsEqual(r.BlockNumber, k.Num)
	return nil
}
