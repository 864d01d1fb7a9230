// C15: in-circuit Keccak-256.
package main

import (
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak/keccakf"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/crypto"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

var P = ecc.BN254.ScalarField()

func main() {
	mc.Main(mc.Meta{Prop: "C15",
		Rule:        "permutation: the zero and a dense state and every state that differs from either in one of the 1600 bits, compared with a reference Keccak-f[1600]; sponge: all six variants, every supported block count and every round index (also outside), messages of every block-boundary length with junk after the padded message, compared with go-ethereum's Keccak-256 and with the reference sponge over the junk; words and bits out of range",
		Assumptions: []string{"go-ethereum's Keccak-256 is the standard one", "the word variants use gnark's own permutation gadget, which is executed here as well"},
	}, run)
}

func rng(s uint64) func() uint64 {
	return func() uint64 {
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		return s
	}
}

func permCase(c *mc.Ctx, st [25]uint64) string {
	e := eng.New(P)
	var in, out [1600]F
	for k := range in {
		in[k] = e.Val(int64(st[k/64] >> (k % 64) & 1))
	}
	r := e.Run(func(api frontend.API) error { out = keccakf.Permute(api, in); return nil })
	c.State(1)
	c.Trans(int(e.Ops))
	if !r.OK {
		return fmt.Sprint(r)
	}
	eng.KeccakF(&st)
	for k := range out {
		if e.Int(out[k]) != int64(st[k/64]>>(k%64)&1) {
			return fmt.Sprintf("bit %d is %d", k, e.Int(out[k]))
		}
	}
	return ""
}

// absorb gives the digest after each block.
func absorb(words []uint64) (ds [][4]uint64) {
	var st [25]uint64
	for i, w := range words {
		st[i%17] ^= w
		if i%17 == 16 {
			eng.KeccakF(&st)
			ds = append(ds, [4]uint64{st[0], st[1], st[2], st[3]})
		}
	}
	return
}

func u64(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

type variant struct {
	name   string
	rounds int
	min    int
	bits   bool
	f      func(api frontend.API, words []F, bits []F, idx F) []F
}

func run(c *mc.Ctx) {
	// permutation
	base := [2][25]uint64{}
	rn := rng(0x9e3779b97f4a7c15)
	for k := range base[1] {
		base[1][k] = rn()
	}
	step := 1
	var sts [][25]uint64
	var names []string
	for b := range base {
		sts = append(sts, base[b])
		names = append(names, fmt.Sprintf("base %d", b))
		for k := b; k < 1600; k += step {
			s := base[b]
			s[k/64] ^= 1 << (k % 64)
			sts = append(sts, s)
			names = append(names, fmt.Sprintf("base %d bit %d", b, k))
		}
	}
	c.Each("permutation", len(sts), func(i int) string { return names[i] }, func(i int) string { return permCase(c, sts[i]) })

	// sponge
	var vs []variant
	mk := func(w []F, n int) (b [][17]F) {
		b = make([][17]F, n)
		for i := range w {
			b[i/17][i%17] = w[i]
		}
		return
	}
	vs = append(vs, variant{"words", keccak.MAX_ROUNDS, 1, false, func(api frontend.API, w, _ []F, i F) []F {
		var b [keccak.MAX_ROUNDS][17]F
		copy(b[:], mk(w, keccak.MAX_ROUNDS))
		r := keccak.Keccak256(api, b, i)
		return r[:]
	}}, variant{"normal transaction", keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, 1, false, func(api frontend.API, w, _ []F, i F) []F {
		var b [keccak.NORMAL_TRANSACTION_LEAF_ROUNDS][17]F
		copy(b[:], mk(w, len(b)))
		r := keccak.Keccak256ForNormalTransaction(api, b, i)
		return r[:]
	}}, variant{"max transaction", keccak.MAX_TRANSACTION_LEAF_ROUNDS, 1, false, func(api frontend.API, w, _ []F, i F) []F {
		var b [keccak.MAX_TRANSACTION_LEAF_ROUNDS][17]F
		copy(b[:], mk(w, len(b)))
		r := keccak.Keccak256ForMaxTransaction(api, b, i)
		return r[:]
	}})
	// the variants that return nibbles and the length of the hashed data
	ref := func(k *rlp.KeccakOrLiteralHex) []F { return append(append([]F{}, k.Output[:]...), k.OutputLength) }
	nibbles := len(vs)
	vs = append(vs, variant{"nibbles", keccak.MAX_ROUNDS, 1, false, func(api frontend.API, w, l []F, i F) []F {
		var b [keccak.MAX_ROUNDS][17]F
		copy(b[:], mk(w, len(b)))
		return ref(rlp.Keccak256AsNibbles(api, l[0], b, i))
	}}, variant{"nibbles normal transaction", keccak.NORMAL_TRANSACTION_LEAF_ROUNDS, 1, false, func(api frontend.API, w, l []F, i F) []F {
		var b [keccak.NORMAL_TRANSACTION_LEAF_ROUNDS][17]F
		copy(b[:], mk(w, len(b)))
		return ref(rlp.Keccak256ForNormalTransactionAsNibbles(api, l[0], b, i))
	}}, variant{"nibbles max transaction", keccak.MAX_TRANSACTION_LEAF_ROUNDS, 1, false, func(api frontend.API, w, l []F, i F) []F {
		var b [keccak.MAX_TRANSACTION_LEAF_ROUNDS][17]F
		copy(b[:], mk(w, len(b)))
		return ref(rlp.Keccak256ForMaxTransactionAsNibbles(api, l[0], b, i))
	}})
	nibblesEnd := len(vs)
	maxR := mc.Pick(c, 4, 12)
	for n := 1; n <= maxR; n++ {
		n := n
		vs = append(vs, variant{fmt.Sprintf("bits %d", n), n, 1, true, func(api frontend.API, _, b []F, i F) []F {
			r := keccak.Keccak256Bits(api, n, i, b)
			return r[:]
		}})
		for m := 1; m <= n; m++ {
			m := m
			vs = append(vs, variant{fmt.Sprintf("bits optimized %d..%d", m, n), n, m, true, func(api frontend.API, _, b []F, i F) []F {
				r := keccak.Keccak256BitsOptimized(api, m, n, i, b)
				return r[:]
			}})
		}
	}
	type job struct {
		v     int
		msg   int // message length in bytes, -1: junk only
		idx   *big.Int
		ok    bool
		badAt int // >0: block data out of range at this element
	}
	var jobs []job
	for vi, v := range vs {
		for r := 0; r < v.rounds; r++ {
			ok := r >= v.min-1
			lens := []int{r*136 + 135, r * 136}
			if v.bits || c.Thorough() {
				lens = append(lens, r*136+1, r*136+134, r*136+71)
			}
			for _, n := range lens {
				jobs = append(jobs, job{vi, n, big.NewInt(int64(r)), ok, 0})
			}
		}
		for _, x := range []*big.Int{big.NewInt(int64(v.rounds)), big.NewInt(int64(v.rounds + 1)), new(big.Int).Sub(P, big.NewInt(1)), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Rsh(P, 1)} {
			jobs = append(jobs, job{vi, v.rounds*136 - 1, x, false, 0})
		}
		for _, b := range []int{1, 16, 17*v.rounds - 1} {
			jobs = append(jobs, job{vi, 136*v.rounds - 1, big.NewInt(int64(v.rounds - 1)), false, b})
		}
	}
	c.Each("digest", len(jobs), func(i int) string {
		return fmt.Sprintf("%s message %d round %v bad %d", vs[jobs[i].v].name, jobs[i].msg, jobs[i].idx, jobs[i].badAt)
	}, func(i int) string {
		j := jobs[i]
		v := vs[j.v]
		rn := rng(uint64(j.msg)*2654435761 + uint64(j.v) + 77)
		m := make([]byte, j.msg)
		for k := range m {
			m[k] = byte(rn())
		}
		p := append(append([]byte{}, m...), make([]byte, 136-len(m)%136)...)
		p[len(m)] ^= 1
		p[len(p)-1] ^= 0x80
		hashBlocks := len(p) / 136
		for len(p) < v.rounds*136 {
			p = append(p, byte(rn()))
		}
		e := eng.New(P)
		var words, bits, out []F
		var ref []uint64
		for k := 0; k < len(p); k += 8 {
			x := binary.LittleEndian.Uint64(p[k:])
			ref = append(ref, x)
			words = append(words, e.Val(u64(x)))
			for b := 0; b < 64; b++ {
				bits = append(bits, e.Val(int64(x>>b&1)))
			}
		}
		if j.badAt > 0 {
			words[j.badAt] = e.Val(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), u64(ref[j.badAt])))
			bits[j.badAt] = e.Val([]int64{2, -1}[j.badAt%2])
		}
		asNibbles := j.v >= nibbles && j.v < nibblesEnd
		inLen := []int{2 * len(m), 0, 1, 61, 62, 63, 64, 65, 1 << 20}[i%9]
		if asNibbles {
			bits = []F{e.Val(inLen)}
		}
		r := e.Run(func(api frontend.API) error { out = v.f(api, words, bits, e.Val(j.idx)); return nil })
		c.State(1)
		c.Trans(int(e.Ops))
		if !j.ok {
			if r.OK || r.Panic != "" {
				return fmt.Sprintf("accepted: %v", r)
			}
			return ""
		}
		if !r.OK {
			return fmt.Sprint(r)
		}
		want := absorb(ref)[j.idx.Int64()]
		if hashBlocks == int(j.idx.Int64())+1 {
			h := crypto.Keccak256(m)
			for k := range want {
				if want[k] != binary.LittleEndian.Uint64(h[8*k:]) {
					return "the reference sponge is wrong"
				}
			}
		}
		for k := range out {
			w := u64(want[k%4])
			if asNibbles && k == 64 {
				w = big.NewInt(int64(min(inLen, 64)))
				if inLen == 63 {
					w = big.NewInt(64)
				}
			} else if asNibbles {
				w = u64(want[k/16] >> (8*(k/2%8) + 4*(1-k%2)) & 15)
			}
			if v.bits {
				w = u64(want[k/64] >> (k % 64) & 1)
			}
			if e.Big(out[k]).Cmp(w) != 0 {
				return fmt.Sprintf("output %d is %v, want %v", k, e.Big(out[k]), w)
			}
		}
		return ""
	})
	// gnark itself
	g := gk.New(P, 1089, 256, func(api frontend.API, in []F) []F {
		r := keccak.Keccak256Bits(api, 1, in[1088], in[:1088])
		return r[:]
	})
	c.Each("bn254 conformance", 3, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		in := make([]*big.Int, 1089)
		rn := rng(uint64(i) + 5)
		for k := range in {
			in[k] = u64(rn() & 1)
		}
		in[1088] = big.NewInt(int64(i % 2))
		out, r, e := g.Eng(in)
		c.State(1)
		c.Trans(int(e.Ops))
		kinds := []int{0, 2}
		if c.Thorough() {
			kinds = []int{0, 1, 2}
		}
		if m := g.Agree(in, out, r.OK, kinds...); m != "" {
			return m
		}
		c.Trace(len(kinds))
		return ""
	})
}
