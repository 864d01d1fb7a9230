// C08: array shifts and list-header strip.
package main

import (
	"fmt"
	"math/big"
	"math/bits"

	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

func main() {
	mc.Main(mc.Meta{Prop: "C08",
		Rule:        "every array length, every shift range and every shift value of a whole small field (so every value inside, just outside and far outside the range) on contents that name their position, plus every 0/1 content of small arrays; every list header form for the header strip; verdict and every output element compared with the array operation",
		Assumptions: []string{"gadgets are field-generic: the modulus changes between the exhaustively explored small field and BN254 (bound by replayed traces)"},
	}, run)
}

func contents(k, n int) []int64 {
	r := make([]int64, n)
	for i := range r {
		if k == 0 {
			r[i] = int64(i + 1)
		} else {
			r[i] = int64(k>>uint(i)) & 1
		}
	}
	return r
}

func run(c *mc.Ctx) {
	const p = 211
	maxN := mc.Pick(c, 18, 30)
	type lc struct{ n, lo, hi int }
	var ls []lc
	for n := 1; n <= maxN; n++ {
		for lo := 0; lo <= n+1; lo++ {
			for hi := lo; hi <= n+3; hi++ {
				ls = append(ls, lc{n, lo, hi})
			}
		}
	}
	ls = append(ls, lc{66, 0, 4}, lc{140, 0, 66}, lc{40, 2, 20}, lc{64, 0, 63})
	c.Each("left", len(ls)*p, func(i int) string {
		l := ls[i/p]
		return fmt.Sprintf("n=%d range=%d..%d shift=%d", l.n, l.lo, l.hi, i%p)
	}, func(i int) string {
		l, s := ls[i/p], i%p
		nc := 1
		if l.n <= 5 {
			nc = 1 << uint(l.n)
		}
		for k := 0; k < nc; k++ {
			in := contents(k, l.n)
			e := eng.NewSmall(p)
			var vin, out []F
			for _, x := range in {
				vin = append(vin, e.Val(x))
			}
			r := e.Run(func(api frontend.API) error { out = rlp.ShiftLeft(api, l.n, l.lo, l.hi, vin, e.Val(s)); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" {
				return r.String()
			}
			if !r.OK {
				if s >= l.lo && s <= l.hi {
					return "shift in range refused: " + r.String()
				}
				return ""
			}
			// accepted: the move must be exact; what the range cannot represent must be refused
			if s < l.lo || s-l.lo >= 1<<uint(bits.Len(uint(l.hi-l.lo))) {
				return "shift outside the range is accepted"
			}
			if len(out) != l.n {
				return "wrong output length"
			}
			for j := range out {
				if e.Int(out[j]) != in[(j+s)%l.n] {
					return fmt.Sprintf("output %d is %d, want %d (contents %v)", j, e.Int(out[j]), in[(j+s)%l.n], in)
				}
			}
			for j := range vin {
				if e.Int(vin[j]) != in[j] {
					return "the caller's array was changed"
				}
			}
		}
		return ""
	})
	type rc struct{ n, b int }
	var rs []rc
	for n := 1; n <= maxN; n++ {
		for b := 1; b <= 6; b++ {
			rs = append(rs, rc{n, b})
		}
	}
	rs = append(rs, rc{64, 7}, rc{40, 3})
	c.Each("right", len(rs)*p, func(i int) string { l := rs[i/p]; return fmt.Sprintf("n=%d bits=%d shift=%d", l.n, l.b, i%p) }, func(i int) string {
		l, s := rs[i/p], i%p
		nc := 1
		if l.n <= 5 {
			nc = 1 << uint(l.n)
		}
		for k := 0; k < nc; k++ {
			in := contents(k, l.n)
			e := eng.NewSmall(p)
			var vin, out []F
			for _, x := range in {
				vin = append(vin, e.Val(x))
			}
			r := e.Run(func(api frontend.API) error { out = rlp.ShiftRight(api, l.n, l.b, vin, e.Val(s)); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" {
				return r.String()
			}
			inr := s < 1<<uint(l.b)
			if r.OK != inr {
				return fmt.Sprintf("shift in range=%v: %v", inr, r)
			}
			if !inr {
				return ""
			}
			if len(out) != l.n {
				return "wrong output length"
			}
			for j := range out {
				w := int64(0)
				if j >= s {
					w = in[j-s]
				}
				if e.Int(out[j]) != w {
					return fmt.Sprintf("output %d is %d, want %d (contents %v)", j, e.Int(out[j]), w, in)
				}
			}
		}
		return ""
	})
	// the list-header strip
	for _, pm := range []int{2, 4, 6} {
		a := rlp.ArrayCheck{MaxHexLen: 2 * 300, ArrayPrefixMaxHexLen: pm}
		pm := pm
		// every first byte, with every length class after it
		type hc struct {
			b   int
			len []byte
		}
		var hs []hc
		for b := 0; b < 256; b++ {
			for _, l := range [][]byte{{0, 0, 0}, {56, 1, 2}, {255, 255, 9}, {1, 4, 7}, {0, 200, 1}, {2, 0, 1}} {
				hs = append(hs, hc{b, l})
			}
		}
		c.Each(fmt.Sprintf("header strip prefixmax=%d", pm), len(hs), func(i int) string { return fmt.Sprintf("%02x %x", hs[i].b, hs[i].len) }, func(i int) string {
			h := hs[i]
			data := append([]byte{byte(h.b)}, h.len...)
			for len(data) < 300 {
				data = append(data, byte(len(data)*5+1))
			}
			e := eng.New(ecc.BN254.ScalarField())
			var in []F
			for _, x := range data {
				in = append(in, e.Val(int(x>>4)), e.Val(int(x&15)))
			}
			var out []F
			var l F
			r := e.Run(func(api frontend.API) error { out, l = a.LeftShiftRlpArrayPrefix(api, in); return nil })
			c.State(1)
			c.Trans(int(e.Ops))
			if r.Panic != "" {
				return r.String()
			}
			list := h.b >= 0xc0
			lol, n := 0, h.b-0xc0
			if h.b >= 0xf8 {
				lol, n = h.b-0xf7, 0
				for k := 0; k < lol; k++ {
					n = n<<8 | int(data[1+k])
					if n > 1<<30 {
						n = 1 << 30
					}
				}
			}
			if !r.OK {
				if list && 2*lol <= pm && 2+2*lol < 1<<uint(bits.Len(uint(pm))) {
					return "well-formed header refused: " + r.String()
				}
				return ""
			}
			if !list {
				return "a header that is not a list's was accepted"
			}
			if 2*lol > pm {
				return "header longer than configured was accepted"
			}
			if e.Int(l) != int64(2*n) {
				return fmt.Sprintf("payload length %v, want %d", e.Big(l), 2*n)
			}
			for j := 0; j < 2*(300-1-lol); j++ {
				x := data[1+lol+j/2]
				w := int64(x >> 4)
				if j%2 == 1 {
					w = int64(x & 15)
				}
				if e.Int(out[j]) != w {
					return fmt.Sprintf("nibble %d is %v, want %d", j, e.Big(out[j]), w)
				}
			}
			return ""
		})
	}
	// BN254
	gl := gk.New(ecc.BN254.ScalarField(), 10, 9, func(api frontend.API, in []F) []F { return rlp.ShiftLeft(api, 9, 2, 7, in[1:], in[0]) })
	gr := gk.New(ecc.BN254.ScalarField(), 10, 9, func(api frontend.API, in []F) []F { return rlp.ShiftRight(api, 9, 3, in[1:], in[0]) })
	var sh []*big.Int
	for i := int64(0); i < 18; i++ {
		sh = append(sh, big.NewInt(i))
	}
	for i := int64(1); i < 4; i++ {
		sh = append(sh, new(big.Int).Sub(ecc.BN254.ScalarField(), big.NewInt(i)))
	}
	sh = append(sh, new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 253))
	c.Each("bn254 conformance", 2*len(sh), func(i int) string { return fmt.Sprintf("%s %v", []string{"left", "right"}[i%2], sh[i/2]) }, func(i int) string {
		g := gl
		if i%2 == 1 {
			g = gr
		}
		s := sh[i/2]
		in := append([]*big.Int{s}, gk.Ints(1, 2, 3, 4, 5, 6, 7, 8, 9)...)
		out, r, e := g.Eng(in)
		c.State(1)
		c.Trans(int(e.Ops))
		want := s.IsInt64() && (i%2 == 0 && s.Int64() >= 2 && s.Int64() < 10 || i%2 == 1 && s.Int64() < 8)
		if r.OK != want && !(i%2 == 0 && s.IsInt64() && s.Int64() > 7 && !r.OK) {
			return fmt.Sprintf("verdict %v", r)
		}
		if r.OK {
			for j := range out {
				w := int64(j) + s.Int64()
				if i%2 == 0 {
					w = w%9 + 1
				} else {
					w = int64(j) - s.Int64() + 1
					if w < 1 {
						w = 0
					}
				}
				if out[j].Int64() != w {
					return fmt.Sprintf("output %d is %v want %d", j, out[j], w)
				}
			}
		}
		if m := g.Agree(in, out, r.OK, 0, 1, 2); m != "" {
			return m
		}
		c.Trace(3)
		return ""
	})
}
