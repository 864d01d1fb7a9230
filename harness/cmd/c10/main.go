// C10: transaction index to trie key.
package main

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/ethereum/go-ethereum/rlp"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

var P = ecc.BN254.ScalarField()

func main() {
	mc.Main(mc.Meta{Prop: "C10",
		Rule:        "all 65536 indexes, every index just past the range, every power of two and its neighbours and every field element congruent or complementary to a small index; the seven output nibbles compared with go-ethereum's RLP of the index padded with zeros; indexes out of range must make the circuit unsatisfiable; the checking circuit must refuse every other claimed string that differs in one nibble",
		Assumptions: []string{},
	}, run)
}

func want(i int) (r [7]int64) {
	b, err := rlp.EncodeToBytes(uint(i))
	if err != nil {
		panic(err)
	}
	for k, x := range b {
		r[2*k], r[2*k+1] = int64(x>>4), int64(x&15)
	}
	return
}

func run(c *mc.Ctx) {
	const blk = 256
	c.Each("in range", 65536/blk, func(i int) string { return fmt.Sprintf("%d..%d", i*blk, i*blk+blk-1) }, func(j int) string {
		for i := j * blk; i < (j+1)*blk; i++ {
			e := eng.New(P)
			var out [7]F
			r := e.Run(func(api frontend.API) error { out = core.CalTxOrReceiptIndexRlp(api, e.Val(i)); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if !r.OK {
				return fmt.Sprintf("index %d: %v", i, r)
			}
			w := want(i)
			for k := range w {
				if e.Big(out[k]).Cmp(big.NewInt(w[k])) != 0 {
					return fmt.Sprintf("index %d: nibble %d is %v, want %d", i, k, e.Big(out[k]), w[k])
				}
			}
			// the checking circuit with the right string and with every single-nibble change
			if i%mc.Pick(c, 251, 17) == 0 || i < 300 || i > 65530 {
				for k := -1; k < 7; k++ {
					for _, d := range []int64{1, 8, -1} {
						cc := &core.IndexCheckCircuit{Index: nil}
						e2 := eng.New(P)
						cc.Index = e2.Val(i)
						for q := range w {
							v := w[q]
							if q == k {
								v += d
							}
							cc.RlpString[q] = e2.Val(v)
						}
						r := e2.Run(func(api frontend.API) error { return cc.Define(api) })
						c.State(1)
						c.Trans(int(e2.Ops))
						if r.Panic != "" || r.OK != (k < 0) {
							return fmt.Sprintf("index %d, string changed at %d by %d: %v", i, k, d, r)
						}
					}
				}
			}
		}
		return ""
	})
	var bad []*big.Int
	for i := int64(65536); i < 65536+1200; i++ {
		bad = append(bad, big.NewInt(i))
	}
	for i := int64(1); i < 400; i++ {
		bad = append(bad, new(big.Int).Sub(P, big.NewInt(i)))
		bad = append(bad, new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(i)))
		bad = append(bad, big.NewInt(i<<16))
		bad = append(bad, big.NewInt(i<<16|5))
	}
	for k := uint(16); k < 254; k++ {
		for d := int64(-1); d < 2; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(d))
			if x.BitLen() > 16 && x.Cmp(P) < 0 {
				bad = append(bad, x)
			}
		}
	}
	// the residues that an inverse-of-two trick could reach
	for i := int64(1); i < 300; i++ {
		bad = append(bad, new(big.Int).ModInverse(big.NewInt(i+1), P))
	}
	c.Each("out of range", len(bad), func(i int) string { return bad[i].String() }, func(i int) string {
		e := eng.New(P)
		r := e.Run(func(api frontend.API) error { core.CalTxOrReceiptIndexRlp(api, e.Val(bad[i])); return nil })
		c.State(1)
		c.Trans(int(e.Ops))
		if r.OK || r.Panic != "" {
			return fmt.Sprintf("index %v: %v", bad[i], r)
		}
		return ""
	})
	g := gk.New(P, 1, 7, func(api frontend.API, in []F) []F { r := core.CalTxOrReceiptIndexRlp(api, in[0]); return r[:] })
	idx := []*big.Int{}
	for _, i := range []int64{0, 1, 2, 127, 128, 129, 255, 256, 257, 4095, 4096, 65535, 65536, 65537, 1 << 20} {
		idx = append(idx, big.NewInt(i))
	}
	idx = append(idx, bad[len(bad)-1], new(big.Int).Sub(P, big.NewInt(1)))
	c.Each("bn254 conformance", len(idx), func(i int) string { return idx[i].String() }, func(i int) string {
		in := []*big.Int{idx[i]}
		out, r, e := g.Eng(in)
		c.State(1)
		c.Trans(int(e.Ops))
		if m := g.Agree(in, out, r.OK, 0, 1, 2); m != "" {
			return m
		}
		c.Trace(3)
		return ""
	})
}
