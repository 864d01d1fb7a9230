// C05: block headers.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/hdrx"
	"verif/harness/mc"
	"verif/harness/mptx"
	"verif/harness/rlpref"
	"verif/harness/trie"
)

func main() {
	mc.Main(mc.Meta{Prop: "C05",
		Rule:        "headers of the three supported layouts with every pair of variable-size fields at every pair of sizes (and single-byte literals), accepted with exactly their hash, roots, number and time; every byte of several headers changed in several ways, every truncation, every wrong field count and round index, junk instead of padding, fixed-size fields of other sizes and nested lists: the result must be rejected, or hash differently and report exactly the fields a reference RLP parser finds",
		Assumptions: []string{"Keccak-256 is collision free", "inputs are nibbles (the Keccak lanes constrain them)", "numbers of more than four bytes are reported as their length and first eight nibbles"},
	}, run)
}

func sizes(i, max int, thorough bool) (r [][]byte) {
	r = append(r, nil, []byte{1}, []byte{0x7f})
	for n := 1; n <= max && n <= 8; n++ {
		r = append(r, hdrx.Seq(n, 11+i))
	}
	if max > 8 {
		for _, n := range []int{11, 31, 32, 33, 55, 56, 57, 127, 128, 255, 256, 257, 400} {
			if thorough || n < 60 || n == 128 || n == 256 {
				r = append(r, hdrx.Seq(n, 5))
			}
		}
	}
	return
}

func blk(b []byte) int64 { return int64(len(b) / 136) }

// accept checks a genuine header.
func accept(c *mc.Ctx, b []byte, n int) string {
	o := hdrx.Run(hdrx.Buf(b), big.NewInt(int64(n)), big.NewInt(blk(b)))
	c.State(1)
	c.Trans(int(o.Ops))
	if !o.Accept() {
		return fmt.Sprintf("genuine header refused: output %d %v", o.Output, o.R)
	}
	if !o.HashIs(eng.Keccak256(b)) {
		return "not the header's hash"
	}
	return o.Same(rlpref.Parse(b, n, false))
}

// refuse checks any other input: what is accepted must be what the bytes say, and never under the genuine hash.
func refuse(c *mc.Ctx, in [hdrx.Len]hdrx.F, raw []byte, num, round *big.Int, hdr []byte) string {
	genuine := eng.Keccak256(hdr)
	o := hdrx.Run(in, num, round)
	c.State(1)
	c.Trans(int(o.Ops))
	if o.R.Panic != "" {
		return o.R.String()
	}
	if !o.Accept() {
		return ""
	}
	k := 17 // a field count beyond the supported ones counts as the largest
	if num.IsInt64() && num.Int64() >= 0 && num.Int64() < 17 {
		k = int(num.Int64())
	}
	if k < 15 {
		return "accepted with an unsupported field count"
	}
	if o.HashIs(genuine) && !bytes.HasPrefix(raw, hdr) {
		return "accepted under the hash of the genuine header"
	}
	full := append(append([]byte{}, raw...), make([]byte, hdrx.Len/2)...)[:hdrx.Len/2]
	d := rlpref.Parse(full, k, false)
	if !d.OK {
		return "accepted bytes that are no list of that many fields"
	}
	return o.Same(d)
}

func pad(b []byte) []byte {
	p := append(append([]byte{}, b...), make([]byte, 136-len(b)%136)...)
	p[len(b)] ^= 1
	p[len(p)-1] ^= 0x80
	return p
}

func run(c *mc.Ctx) {
	forks := []int{15, 16, 17}
	// go-ethereum agrees with the reference encoding
	c.Each("go-ethereum", 3, func(i int) string { return fmt.Sprint(forks[i]) }, func(i int) string {
		f := hdrx.Default(forks[i]).With(7, []byte{9, 1})
		u := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
		h := &types.Header{ParentHash: common.BytesToHash(f[0]), UncleHash: common.BytesToHash(f[1]), Coinbase: common.BytesToAddress(f[2]), Root: common.BytesToHash(f[3]),
			TxHash: common.BytesToHash(f[4]), ReceiptHash: common.BytesToHash(f[5]), Bloom: types.BytesToBloom(f[6]), Difficulty: u(f[7]), Number: u(f[8]),
			GasLimit: u(f[9]).Uint64(), GasUsed: u(f[10]).Uint64(), Time: u(f[11]).Uint64(), Extra: f[12], MixDigest: common.BytesToHash(f[13])}
		if forks[i] > 15 {
			h.BaseFee = u(f[15])
		}
		if forks[i] > 16 {
			w := common.BytesToHash(f[16])
			h.WithdrawalsHash = &w
		}
		k := eng.Keccak256(f.RLP())
		if hh := h.Hash(); !bytes.Equal(hh[:], k[:]) {
			return "HARNESS: header encoding differs from go-ethereum's"
		}
		return accept(c, f.RLP(), forks[i])
	})
	vars := []int{7, 8, 9, 10, 11, 12, 15}
	type cs struct {
		n    int
		f    hdrx.Fields
		name string
	}
	var cases []cs
	for _, n := range forks {
		d := hdrx.Default(n)
		for ai, a := range vars {
			for _, b := range vars[ai+1:] {
				if a >= n || b >= n {
					continue
				}
				for x, va := range sizes(a, hdrx.Max[a], c.Thorough()) {
					for y, vb := range sizes(b, hdrx.Max[b], c.Thorough()) {
						if !c.Thorough() && n != 17 && (x*7+y*3+a+b)%4 != 0 {
							continue
						}
						if !c.Thorough() && n == 17 && (x+y+a)%2 != 0 && a != 11 && b != 11 {
							continue
						}
						cases = append(cases, cs{n, d.With(a, va).With(b, vb), fmt.Sprintf("%d fields, field %d=%x field %d=%d bytes %.8x", n, a, va, b, len(vb), vb)})
					}
				}
			}
		}
		// sizes around the Keccak block and buffer ends
		base := len(d.With(12, nil).RLP()) // extra data is 1 byte there
		for want := base + 1; want < hdrx.Len/2; want++ {
			if !c.Thorough() && want%136 > 1 && want%136 < 134 && want%16 != 0 && want < hdrx.Len/2-4 {
				continue
			}
			for ex := want - base - 3; ex <= want-base+2; ex++ {
				if ex < 0 || ex > 1000 {
					continue
				}
				f := d.With(12, hdrx.Seq(ex, 3))
				if len(f.RLP()) == want {
					cases = append(cases, cs{n, f, fmt.Sprintf("%d fields, total %d", n, want)})
					break
				}
			}
		}
	}
	c.Each("genuine", len(cases), func(i int) string { return cases[i].name }, func(i int) string {
		return accept(c, cases[i].f.RLP(), cases[i].n)
	})

	// altered bytes
	type alt struct {
		n, pos, kind int
		f            hdrx.Fields
	}
	var alts []alt
	for _, n := range forks {
		f := hdrx.Default(n)
		b := f.RLP()
		for p := 0; p < len(b); p++ {
			inBloom := p > 200 && p < 450
			for k := 0; k < 6; k++ {
				if !c.Thorough() && (k > 1 && inBloom || n != 17 && (p+k)%5 != 0) {
					continue
				}
				alts = append(alts, alt{n, p, k, f})
			}
		}
	}
	c.Each("altered byte", len(alts), func(i int) string {
		return fmt.Sprintf("%d fields, byte %d kind %d", alts[i].n, alts[i].pos, alts[i].kind)
	}, func(i int) string {
		a := alts[i]
		b := a.f.RLP()
		r := blk(b)
		p := pad(b)
		switch a.kind {
		case 0:
			p[a.pos] ^= 1
		case 1:
			p[a.pos] ^= 0x80
		case 2:
			p[a.pos]++
		case 3:
			p[a.pos]--
		case 4:
			p[a.pos] = 0
		case 5:
			p[a.pos] = 0xc0
		}
		if p[a.pos] == b[a.pos] {
			return ""
		}
		return refuse(c, hdrx.Raw(p), p, big.NewInt(int64(a.n)), big.NewInt(r), b)
	})

	// whole-input faults
	type fault struct {
		name  string
		raw   []byte
		num   *big.Int
		round *big.Int
		gen   []byte
	}
	var fs []fault
	add := func(name string, raw []byte, num, round int64, gen []byte) {
		fs = append(fs, fault{name, raw, new(big.Int).Mod(big.NewInt(num), gk.BN254), new(big.Int).Mod(big.NewInt(round), gk.BN254), gen})
	}
	for _, n := range forks {
		f := hdrx.Default(n)
		b := f.RLP()
		g := b
		for num := int64(-2); num <= 20; num++ {
			if num != int64(n) {
				add(fmt.Sprintf("%d fields claimed as %d", n, num), pad(b), num, blk(b), g)
			}
		}
		for r := int64(-2); r <= 11; r++ {
			if r != blk(b) {
				add(fmt.Sprintf("%d fields round %d", n, r), pad(b), int64(n), r, g)
			}
		}
		for cut := 0; cut < len(b); cut += mc.Pick(c, 9, 1) {
			add(fmt.Sprintf("%d fields cut to %d", n, cut), pad(b[:cut]), int64(n), blk(b[:cut]), g)
		}
		add(fmt.Sprintf("%d fields unpadded", n), b, int64(n), blk(b), g)
		for _, junk := range []byte{0x01, 0x80, 0xff, 0xc0, 0x55} {
			p := append(append([]byte{}, b...), bytes.Repeat([]byte{junk}, hdrx.Len/2-len(b))...)
			add(fmt.Sprintf("%d fields followed by %02x", n, junk), p, int64(n), blk(b), g)
			add(fmt.Sprintf("%d fields padded, then %02x", n, junk), append(pad(b), bytes.Repeat([]byte{junk}, 100)...), int64(n), blk(b)+1, g)
		}
		// fields of sizes a header cannot have
		for i := range f {
			l := len(f[i])
			var ns []int
			if m, ok := hdrx.Max[i]; ok {
				ns = []int{m + 1, m + 2}
			} else {
				ns = []int{0, 1, l - 1, l + 1, 2 * l}
			}
			for _, s := range ns {
				x := f.With(i, hdrx.Seq(s, 2)).RLP()
				if len(x) >= hdrx.Len/2 {
					continue
				}
				add(fmt.Sprintf("%d fields, field %d of %d bytes", n, i, s), pad(x), int64(n), blk(x), g)
			}
			// a nested list in place of the field, an extra and a missing field
			var it, extra, miss [][]byte
			for k := range f {
				e := trie.RLPStr(f[k])
				if k == i {
					it = append(it, trie.RLPList(trie.RLPStr(f[k])))
					extra = append(extra, []byte{0x80}, e)
				} else {
					it = append(it, e)
					extra = append(extra, e)
					miss = append(miss, e)
				}
			}
			for q, items := range [][][]byte{it, extra, miss} {
				x := trie.RLPList(items...)
				add(fmt.Sprintf("%d fields, field %d structure %d", n, i, q), pad(x), int64(n), blk(x), g)
			}
		}
		// the total off by a little
		for d := -3; d <= 3; d++ {
			if d == 0 {
				continue
			}
			x := append([]byte{}, b...)
			t := int(x[1])<<8 | int(x[2])
			x[1], x[2] = byte((t+d)>>8), byte(t+d)
			add(fmt.Sprintf("%d fields total %+d", n, d), pad(x), int64(n), blk(x), g)
		}
	}
	c.Each("faults", len(fs), func(i int) string { return fs[i].name }, func(i int) string {
		f := fs[i]
		in := hdrx.Raw(f.raw)
		return refuse(c, in, f.raw, f.num, f.round, f.gen)
	})
	if c.Thorough() {
		c.One("bn254 conformance", "test engine", func() string { return conform(c) })
	} else {
		c.One("bn254 conformance", "test engine", func() string { return conform(c) })
	}
}

type circ struct {
	In  [hdrx.Len]frontend.Variable
	N   frontend.Variable
	R   frontend.Variable
	Out frontend.Variable
	H   [64]frontend.Variable
	T   [8]frontend.Variable
}

func (k *circ) Define(api frontend.API) error {
	r := mpt.CheckEthBlockHash(api, k.In, k.N, k.R)
	api.AssertIsEqual(r.Output, k.Out)
	for i := range k.H {
		api.AssertIsEqual(r.BlockHash[i], k.H[i])
	}
	for i := range k.T {
		api.AssertIsEqual(r.BlockTime[i], k.T[i])
	}
	return nil
}

// conform runs two headers in gnark's own test engine.
func conform(c *mc.Ctx) string {
	for _, n := range []int{15, 17} {
		for _, bad := range []bool{false, true} {
			f := hdrx.Default(n).With(11, []byte{0x12, 0x34})
			b := f.RLP()
			w := &circ{N: n, R: blk(b), Out: 1}
			if bad {
				w.N = n - 1 + 2*(17-n)/2
			}
			v, _ := mptx.Buf(b, hdrx.Len)
			for i := range v {
				w.In[i] = eng.New(gk.BN254).Int(v[i])
			}
			h := eng.Keccak256(b)
			for i, x := range trie.Nibbles(h[:]) {
				w.H[i] = x
			}
			for i, x := range []byte{0, 0, 0, 0, 1, 2, 3, 4} {
				w.T[i] = x
			}
			err := test.IsSolved(&circ{}, w, gk.BN254)
			c.Trace(1)
			if (err == nil) == bad {
				return fmt.Sprintf("gnark's test engine: %d fields bad=%v: %v", n, bad, err)
			}
		}
	}
	return ""
}
