// C29: header commitments built by the host.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bls12-377/fr"
	"github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C29",
		Rule:        "headers with every field, and every pair of fields, at every boundary value and length (also unset optional fields and extra data up to past five blocks): the encoding must be the padded bits of the header's RLP built independently, whose sponge digest is the header's hash, zero-filled to five blocks with the right block index; headers outside the limits must be an error; lists with a bad header at every place; generated chains of every length; hash halves and MiMC digests over single-bit and boundary values; MiMC roots for every leaf count up to the bound against a reference and against the circuit's root",
		Assumptions: []string{"gnark-crypto's MiMC is the reference hash", "leaves that are no canonical field elements end the process (log.Fatalf) and are not explored"},
	}, run)
}

// own RLP
func rs(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(rh(0x80, len(b)), b...)
}
func rh(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	l := big.NewInt(int64(n)).Bytes()
	return append([]byte{base + 55 + byte(len(l))}, l...)
}
func ri(x *big.Int) []byte {
	if x == nil {
		return []byte{0x80}
	}
	return rs(x.Bytes())
}
func ru(x uint64) []byte { return ri(new(big.Int).SetUint64(x)) }
func enc(h *types.Header) []byte {
	var b []byte
	for _, f := range [][]byte{rs(h.ParentHash[:]), rs(h.UncleHash[:]), rs(h.Coinbase[:]), rs(h.Root[:]), rs(h.TxHash[:]), rs(h.ReceiptHash[:]), rs(h.Bloom[:]), ri(h.Difficulty), ri(h.Number), ru(h.GasLimit), ru(h.GasUsed), ru(h.Time), rs(h.Extra), rs(h.MixDigest[:]), rs(h.Nonce[:])} {
		b = append(b, f...)
	}
	// optional fields: all up to the last one that is set
	opt := [][]byte{ri(h.BaseFee), {0x80}, {0x80}, {0x80}, {0x80}}
	last := 0
	if h.BaseFee != nil {
		last = 1
	}
	if h.WithdrawalsHash != nil {
		opt[1], last = rs(h.WithdrawalsHash[:]), 2
	}
	if h.BlobGasUsed != nil {
		opt[2], last = ru(*h.BlobGasUsed), 3
	}
	if h.ExcessBlobGas != nil {
		opt[3], last = ru(*h.ExcessBlobGas), 4
	}
	if h.ParentBeaconRoot != nil {
		opt[4], last = rs(h.ParentBeaconRoot[:]), 5
	}
	for _, f := range opt[:last] {
		b = append(b, f...)
	}
	return append(rh(0xc0, len(b)), b...)
}

// digest runs the sponge over whole blocks of bits.
func digest(bits []byte) []byte {
	var st [25]uint64
	for b := 0; b+1088 <= len(bits); b += 1088 {
		for i := 0; i < 1088; i++ {
			st[i/64] ^= uint64(bits[b+i]) << (i % 64)
		}
		eng.KeccakF(&st)
	}
	var o []byte
	for i := 0; i < 32; i++ {
		o = append(o, byte(st[i/8]>>(8*(i%8))))
	}
	return o
}

const maxLen = 5*136 - 1

func check(h types.Header, e []frontend.Variable, idx frontend.Variable) string {
	r := enc(&h)
	blocks := len(r)/136 + 1
	if fmt.Sprint(idx) != fmt.Sprint(blocks-1) {
		return fmt.Sprintf("block index %v for %d blocks", idx, blocks)
	}
	if len(e) != 5*1088 {
		return fmt.Sprintf("%d bits", len(e))
	}
	p := make([]byte, blocks*136)
	copy(p, r)
	p[len(r)] = 1
	p[len(p)-1] |= 0x80
	bits := make([]byte, len(e))
	for i := range e {
		s := fmt.Sprint(e[i])
		if s != "0" && s != "1" {
			return fmt.Sprintf("bit %d is %s", i, s)
		}
		bits[i] = s[0] - '0'
		want := byte(0)
		if i/8 < len(p) {
			want = p[i/8] >> (i % 8) & 1
		}
		if bits[i] != want {
			return fmt.Sprintf("bit %d is %d", i, bits[i])
		}
	}
	if hs := h.Hash(); !bytes.Equal(digest(bits[:blocks*1088]), hs[:]) {
		return "digest of the encoding is not the header's hash"
	}
	return ""
}

func base() types.Header {
	wh := common.Hash(crypto.Keccak256Hash([]byte("w")))
	h := types.Header{Difficulty: big.NewInt(0x123456), Number: big.NewInt(17_000_000), GasLimit: 30_000_000, GasUsed: 12_345_678, Time: 1_690_000_000, Extra: []byte("extra"), BaseFee: big.NewInt(40_000_000_000), WithdrawalsHash: &wh}
	for i, f := range []*common.Hash{&h.ParentHash, &h.UncleHash, &h.Root, &h.TxHash, &h.ReceiptHash, &h.MixDigest} {
		*f = crypto.Keccak256Hash([]byte{byte(i)})
	}
	copy(h.Coinbase[:], crypto.Keccak256([]byte("c")))
	copy(h.Nonce[:], crypto.Keccak256([]byte("n")))
	for i := range h.Bloom {
		h.Bloom[i] = byte(i * 37)
	}
	return h
}

type edit struct {
	name string
	f    func(*types.Header)
	bad  bool
}

func edits(extraMax int) (es []edit) {
	add := func(n string, bad bool, f func(*types.Header)) { es = append(es, edit{n, f, bad}) }
	add("nothing", false, func(*types.Header) {})
	pow := func(k uint, d int64) *big.Int {
		return new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d))
	}
	for _, g := range []struct {
		name string
		max  uint
		set  func(*types.Header, *big.Int)
	}{{"difficulty", 7, func(h *types.Header, x *big.Int) { h.Difficulty = x }}, {"number", 8, func(h *types.Header, x *big.Int) { h.Number = x }}, {"base fee", 7, func(h *types.Header, x *big.Int) { h.BaseFee = x }}} {
		g := g
		add(g.name+" nil", false, func(h *types.Header) { g.set(h, nil) })
		add(g.name+" -1", true, func(h *types.Header) { g.set(h, big.NewInt(-1)) })
		for _, v := range []int64{0, 1, 127, 128} {
			v := v
			add(fmt.Sprint(g.name, " ", v), false, func(h *types.Header) { g.set(h, big.NewInt(v)) })
		}
		for k := uint(1); k <= g.max+1; k++ {
			k := k
			add(fmt.Sprintf("%s 2^%d-1", g.name, 8*k), k > g.max, func(h *types.Header) { g.set(h, pow(8*k, -1)) })
			add(fmt.Sprintf("%s 2^%d", g.name, 8*k), k >= g.max, func(h *types.Header) { g.set(h, pow(8*k, 0)) })
		}
	}
	for _, g := range []struct {
		name string
		set  func(*types.Header, uint64)
	}{{"gas limit", func(h *types.Header, x uint64) { h.GasLimit = x }}, {"gas used", func(h *types.Header, x uint64) { h.GasUsed = x }}, {"time", func(h *types.Header, x uint64) { h.Time = x }}} {
		g := g
		for _, v := range []uint64{0, 1, 127, 128, 255, 256, 1<<16 - 1, 1 << 16, 1 << 24, 1<<32 - 1, 1 << 32, 1<<40 - 1, 1 << 63, 1<<64 - 1} {
			v := v
			add(fmt.Sprint(g.name, " ", v), v>>32 > 0, func(h *types.Header) { g.set(h, v) })
		}
	}
	for n := 0; n <= extraMax; n++ {
		n := n
		if n > 40 && n < 60 && n%5 > 0 {
			continue
		}
		add(fmt.Sprint("extra ", n), false, func(h *types.Header) { h.Extra = bytes.Repeat([]byte{byte(n + 1)}, n) })
	}
	add("extra byte 7f", false, func(h *types.Header) { h.Extra = []byte{0x7f} })
	add("extra byte 80", false, func(h *types.Header) { h.Extra = []byte{0x80} })
	add("extra byte 0", false, func(h *types.Header) { h.Extra = []byte{0} })
	u := func(x uint64) *uint64 { return &x }
	add("no withdrawals", false, func(h *types.Header) { h.WithdrawalsHash = nil })
	add("no base fee, no withdrawals", false, func(h *types.Header) { h.BaseFee, h.WithdrawalsHash = nil, nil })
	for _, v := range []uint64{0, 1, 128, 1<<64 - 1} {
		v := v
		add(fmt.Sprint("blob gas ", v), false, func(h *types.Header) { h.BlobGasUsed, h.ExcessBlobGas = u(v), u(v/2) })
		add(fmt.Sprint("beacon root ", v), false, func(h *types.Header) {
			h.BlobGasUsed, h.ExcessBlobGas, h.ParentBeaconRoot = u(0), u(v), &common.Hash{1, byte(v)}
		})
	}
	for i := 0; i < 6; i++ {
		i := i
		for _, p := range []byte{0, 0xff, 0x80} {
			p := p
			add(fmt.Sprintf("hash %d all %x", i, p), false, func(h *types.Header) {
				copy([]*common.Hash{&h.ParentHash, &h.UncleHash, &h.Root, &h.TxHash, &h.ReceiptHash, &h.MixDigest}[i][:], bytes.Repeat([]byte{p}, 32))
			})
		}
	}
	add("zero coinbase and nonce", false, func(h *types.Header) { h.Coinbase, h.Nonce = common.Address{}, types.BlockNonce{} })
	return
}

func try(f func()) (crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return
}

func run(c *mc.Ctx) {
	small := edits(40)
	wide := edits(mc.Pick(c, 240, 700))
	type pr struct{ a, b edit }
	var ps []pr
	for _, e := range wide {
		ps = append(ps, pr{e, small[0]})
	}
	for i, a := range small {
		for _, b := range small[i+1:] {
			ps = append(ps, pr{a, b})
		}
	}
	mk := func(p pr) (types.Header, bool) {
		h := base()
		p.a.f(&h)
		p.b.f(&h)
		bad := p.a.bad || p.b.bad
		// the second edit may have replaced the field of the first
		if bad {
			bad = false
			for _, x := range []struct {
				v   *big.Int
				max int
			}{{h.Difficulty, 56}, {h.Number, 64}, {h.BaseFee, 56}} {
				bad = bad || x.v != nil && (x.v.Sign() < 0 || x.v.BitLen() > x.max)
			}
			bad = bad || h.GasLimit>>32 > 0 || h.GasUsed>>32 > 0 || h.Time>>32 > 0
		}
		return h, bad || !bad && len(enc(&h)) > maxLen
	}
	c.Each("headers", len(ps), func(i int) string { return ps[i].a.name + "; " + ps[i].b.name }, func(i int) string {
		h, bad := mk(ps[i])
		c.State(1)
		c.Trans(1)
		c.Trace(1)
		was := h
		var e [][]frontend.Variable
		var x []frontend.Variable
		var err error
		if m := try(func() { e, x, err = smt.EncodeHeaders([]types.Header{h}) }); m != "" {
			return m
		}
		if bad {
			if err == nil {
				return "a header outside the limits was encoded"
			}
			return ""
		}
		if err != nil {
			return err.Error()
		}
		if len(e) != 1 || len(x) != 1 {
			return fmt.Sprintf("%d encodings", len(e))
		}
		if h.Hash() != was.Hash() {
			return "the header was changed"
		}
		return check(h, e[0], x[0])
	})
	// lists
	maxList := mc.Pick(c, 6, 9)
	c.Each("lists", (maxList+1)*(maxList+2), func(i int) string { return fmt.Sprintf("%d headers, bad at %d", i/(maxList+2), i%(maxList+2)-1) }, func(i int) string {
		n, at := i/(maxList+2), i%(maxList+2)-1
		var hs []types.Header
		for k := 0; k < n; k++ {
			h := base()
			h.Number = big.NewInt(int64(k * k * 50))
			h.Extra = bytes.Repeat([]byte{byte(k)}, k*30%33+k)
			if k == at {
				h.GasUsed = 1 << 33
			}
			hs = append(hs, h)
		}
		c.State(1)
		var e [][]frontend.Variable
		var x []frontend.Variable
		var err error
		if m := try(func() { e, x, err = smt.EncodeHeaders(hs) }); m != "" {
			return m
		}
		if at >= 0 && at < n {
			if err == nil {
				return "no error"
			}
			return ""
		}
		if err != nil || len(e) != n || len(x) != n {
			return fmt.Sprintf("%d encodings, %d indices, %v", len(e), len(x), err)
		}
		for k := range hs {
			if m := check(hs[k], e[k], x[k]); m != "" {
				return fmt.Sprintf("header %d: %s", k, m)
			}
		}
		return ""
	})
	// generated chains
	starts := []int{0, 1, 127, 128, 255, 256, 65535, 1<<31 - 3, 1 << 40}
	maxChain := mc.Pick(c, 24, 140)
	c.Each("chains", maxChain*len(starts), func(i int) string { return fmt.Sprintf("%d headers from %d", i/len(starts)+1, starts[i%len(starts)]) }, func(i int) string {
		n, s := i/len(starts)+1, starts[i%len(starts)]
		prev := crypto.Keccak256Hash([]byte{byte(i)})
		hs := smt.GenHeaders(n, s, prev)
		c.State(n)
		c.Trans(n)
		if len(hs) != n {
			return fmt.Sprintf("%d headers", len(hs))
		}
		want := prev
		for k := range hs {
			if hs[k].ParentHash != want || hs[k].Number.Cmp(big.NewInt(int64(s+k))) != 0 {
				return fmt.Sprintf("header %d: parent %x number %v", k, hs[k].ParentHash, hs[k].Number)
			}
			want = crypto.Keccak256Hash(enc(&hs[k]))
		}
		e, x, err := smt.EncodeHeaders(hs[n-1:])
		if err != nil {
			return err.Error()
		}
		return check(hs[n-1], e[0], x[0])
	})
	// hash halves and digests
	var vals [][]byte
	for k := 0; k < 256; k++ {
		vals = append(vals, new(big.Int).Lsh(big.NewInt(1), uint(k)).FillBytes(make([]byte, 32)))
		vals = append(vals, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(k)), big.NewInt(1)).FillBytes(make([]byte, 32)))
	}
	vals = append(vals, bytes.Repeat([]byte{0xff}, 32), fr.Modulus().FillBytes(make([]byte, 32)))
	elem := func(b []byte) []byte { return append(make([]byte, 32-len(b)), b...) }
	ref := func(words ...[]byte) []byte {
		h := mimc.NewMiMC()
		for _, w := range words {
			if _, err := h.Write(w); err != nil {
				panic(err)
			}
		}
		return h.Sum(nil)
	}
	c.Each("hashes", len(vals), func(i int) string { return fmt.Sprintf("%x", vals[i]) }, func(i int) string {
		v := bytes.Clone(vals[i])
		c.State(1)
		h := smt.NewHash(v)
		for k := range h {
			if fmt.Sprint(h[k]) != new(big.Int).SetBytes(v[16*k:16*k+16]).String() {
				return fmt.Sprintf("half %d is %v", k, h[k])
			}
		}
		got := smt.MimcHashBytes32(v)
		if !bytes.Equal(got, ref(elem(v[:16]), elem(v[16:]))) {
			return fmt.Sprintf("digest %x", got)
		}
		if !bytes.Equal(v, vals[i]) {
			return "the input was changed"
		}
		return ""
	})
	c.Each("hash lengths", 97, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		c.State(1)
		b := bytes.Repeat([]byte{0xa5}, i)
		if m := try(func() { smt.NewHash(b) }); (m != "") != (i != 32) {
			return fmt.Sprintf("NewHash of %d bytes: %q", i, m)
		}
		if m := try(func() { smt.MimcHashBytes32(b) }); (m != "") != (i != 32) {
			return fmt.Sprintf("MimcHashBytes32 of %d bytes: %q", i, m)
		}
		return ""
	})
	if e := smt.EmptyHash(); fmt.Sprint(e[0], e[1]) != "0 0" {
		panic("EmptyHash")
	}
	// roots
	leaves := func(n, kind int) (l [][]byte) {
		for i := 0; i < n; i++ {
			var x *big.Int
			switch kind {
			case 0:
				x = new(big.Int).SetBytes(crypto.Keccak256([]byte{byte(i), byte(i >> 8)}))
			case 1:
				x = big.NewInt(7)
			case 2:
				x = big.NewInt(-1 - int64(i))
			case 3:
				x = new(big.Int)
			case 4: // one leaf and its neighbour exchanged
				x = new(big.Int).SetBytes(crypto.Keccak256([]byte{byte(i ^ 1), byte(i >> 8)}))
			}
			l = append(l, x.Mod(x, fr.Modulus()).FillBytes(make([]byte, 32)))
		}
		return
	}
	var root func(l [][]byte) []byte
	root = func(l [][]byte) []byte {
		if len(l) == 1 {
			return l[0]
		}
		return ref(root(l[:len(l)/2]), root(l[len(l)/2:]))
	}
	maxLeaves := mc.Pick(c, 130, 300)
	c.Each("roots", maxLeaves*5, func(i int) string { return fmt.Sprintf("%d leaves kind %d", i/5, i%5) }, func(i int) string {
		n := i / 5
		l := leaves(n, i%5)
		was := leaves(n, i%5)
		c.State(1)
		c.Trans(n)
		var got []byte
		m := try(func() { got = smt.MimcRoot(l) })
		if n == 0 || n&(n-1) != 0 {
			if m == "" {
				return fmt.Sprintf("root %x of a list that has none", got)
			}
			return ""
		}
		if m != "" {
			return m
		}
		for k := range l {
			if !bytes.Equal(l[k], was[k]) {
				return "a leaf was changed"
			}
		}
		if !bytes.Equal(got, root(l)) {
			return fmt.Sprintf("root %x, want %x", got, root(l))
		}
		return ""
	})
	circ := []int{1, 2, 4, 8}
	if c.Thorough() {
		circ = append(circ, 16, 32)
	}
	c.Each("circuit roots", len(circ)*2, func(i int) string { return fmt.Sprintf("%d leaves kind %d", circ[i/2], 2*(i%2)) }, func(i int) string {
		l := leaves(circ[i/2], 2*(i%2))
		want := new(big.Int).SetBytes(smt.MimcRoot(l))
		c.State(1)
		c.Trace(1)
		e := eng.New(gk.BN254)
		r := e.Run(func(api frontend.API) error {
			var ls []*emulated.Element[emulated.BLS12377Fr]
			for _, x := range l {
				v := emulated.ValueOf[emulated.BLS12377Fr](new(big.Int).SetBytes(x))
				for k := range v.Limbs {
					v.Limbs[k] = e.Val(v.Limbs[k])
				}
				ls = append(ls, &v)
			}
			f, err := emulated.NewField[emulated.BLS12377Fr](api)
			if err != nil {
				return err
			}
			got := merkle.NewMimcRootAPI[emulated.BLS12377Fr](api, ecc.BLS12_377).MimcRoot(ls)
			w := emulated.ValueOf[emulated.BLS12377Fr](want)
			for k := range w.Limbs {
				w.Limbs[k] = e.Val(w.Limbs[k])
			}
			f.AssertIsEqual(got, &w)
			return nil
		})
		c.Trans(int(e.Ops))
		if !r.OK {
			return "the circuit's root differs: " + r.String()
		}
		return ""
	})
}
