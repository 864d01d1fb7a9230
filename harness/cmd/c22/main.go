// C22: bit, nibble, byte and word packing on the host and in circuits.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

var P = gk.BN254

func main() {
	mc.Main(mc.Meta{Prop: "C22",
		Rule:        "every bit string of up to 16 bits (in whole groups) and, for each longer length up to several words, the zero, the all-one and a dense string and every string that differs from it in one bit, through every packing helper; 32-byte values through every host split and every circuit recomposition that takes it; values that do not fit their width are refused; hex and padding helpers over every length and every byte value per position",
		Assumptions: []string{"inputs of the grouping helpers are whole groups"},
	}, run)
}

// bits of a case: base pattern, optionally one bit flipped
type bc struct{ n, base, flip int }

func (b bc) bit(i int) int {
	v := 0
	switch {
	case b.base == 1:
		v = 1
	case b.base == 2:
		v = (i*i + i/3 + i/7) & 1
	case b.base >= 16:
		v = (b.base - 16) >> i & 1
	}
	if i == b.flip {
		v ^= 1
	}
	return v
}

func (b bc) name() string { return fmt.Sprintf("%d bits base %d flip %d", b.n, b.base, b.flip) }

func bitCases(full int, longs []int, step int) (r []bc) {
	for n := 0; n <= full; n += step {
		for m := 0; m < 1<<n; m++ {
			r = append(r, bc{n, 16 + m, -1})
		}
	}
	for _, n := range longs {
		for base := 0; base < 3; base++ {
			r = append(r, bc{n, base, -1})
			for f := 0; f < n; f++ {
				r = append(r, bc{n, base, f})
			}
		}
	}
	return
}

func le(b bc, lo, hi int) *big.Int {
	x := new(big.Int)
	for i := lo; i < hi && i < b.n; i++ {
		if b.bit(i) == 1 {
			x.SetBit(x, i-lo, 1)
		}
	}
	return x
}

func be(b bc, lo, hi int) *big.Int {
	x := new(big.Int)
	for i := lo; i < hi; i++ {
		x.Lsh(x, 1)
		x.Add(x, big.NewInt(int64(b.bit(i))))
	}
	return x
}

func same(e *eng.Engine, what string, got []F, want []*big.Int) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %d values, %d expected", what, len(got), len(want))
	}
	for i := range got {
		if e.Big(got[i]).Cmp(want[i]) != 0 {
			return fmt.Sprintf("%s: value %d is %s, expected %s", what, i, e.Big(got[i]).Text(16), want[i].Text(16))
		}
	}
	return ""
}

// groups are the in-circuit helpers over bit strings
var groups = []struct {
	name  string
	unit  int
	exact int
	f     func(api frontend.API, in []F) []F
	want  func(b bc) []*big.Int
}{
	{"Bits2Bytes", 8, 0, conv.Bits2Bytes, func(b bc) (r []*big.Int) {
		for i := 0; i < b.n; i += 8 {
			r = append(r, le(b, i, i+8))
		}
		return
	}},
	{"Bits2Bytes2", 8, 0, conv.Bits2Bytes2, func(b bc) (r []*big.Int) {
		for i := 0; i < b.n; i += 8 {
			r = append(r, be(b, i, i+8))
		}
		return
	}},
	{"Bits2BytesArray", 8, 0, conv.Bits2BytesArray, func(b bc) (r []*big.Int) {
		for i := b.n; i > 0; i -= 8 {
			r = append(r, le(b, i-8, i))
		}
		return
	}},
	{"Bits2Nibbles", 4, 0, conv.Bits2Nibbles, func(b bc) (r []*big.Int) {
		for i := 0; i < b.n; i += 4 {
			r = append(r, le(b, i, i+4))
		}
		return
	}},
	{"Bits2Uint128s", 8, 256, func(api frontend.API, in []F) []F { r := conv.Bits2Uint128s(api, [256]F(in)); return r[:] }, func(b bc) []*big.Int {
		by := make([]byte, 32)
		for i := range by {
			by[i] = byte(le(b, 8*i, 8*i+8).Int64())
		}
		return []*big.Int{new(big.Int).SetBytes(by[:16]), new(big.Int).SetBytes(by[16:])}
	}},
	{"PackBitsToFr", 1, 0, utils.PackBitsToFr, func(b bc) (r []*big.Int) {
		for i := 0; i < b.n; i += 253 {
			r = append(r, le(b, i, i+253))
		}
		return
	}},
}

func run(c *mc.Ctx) {
	for _, g := range groups {
		g := g
		var cs []bc
		longs := []int{24, 64, 120, 248, 256, 264}
		if g.name == "PackBitsToFr" {
			longs = []int{31, 252, 253, 254, 506, 507, 760}
		}
		if g.exact > 0 {
			cs = bitCases(-1, []int{g.exact}, 1)
		} else {
			cs = bitCases(mc.Pick(c, 12, 16), longs, g.unit)
			if g.unit == 8 {
				cs = bitCases(16, longs, 8)
			}
		}
		c.Each(g.name, len(cs), func(i int) string { return cs[i].name() }, func(i int) string {
			b := cs[i]
			c.State(1)
			e := eng.New(P)
			in := make([]F, b.n)
			for k := range in {
				in[k] = e.Val(int64(b.bit(k)))
			}
			keep := append([]F{}, in...)
			var out []F
			r := e.Run(func(api frontend.API) error { out = g.f(api, in); return nil })
			c.Trans(int(e.Ops))
			if !r.OK {
				return r.String()
			}
			for k := range in {
				if in[k] != keep[k] {
					return "the caller's bits were changed"
				}
			}
			if m := same(e, g.name, out, g.want(b)); m != "" {
				return m
			}
			if g.name == "PackBitsToFr" {
				hb := make([]uint, b.n)
				for k := range hb {
					hb[k] = uint(b.bit(k))
				}
				h := utils.PackBitsToInt(hb)
				if len(h) != len(out) {
					return "host packs into a different number of words"
				}
				for k := range h {
					if h[k].Cmp(e.Big(out[k])) != 0 {
						return fmt.Sprintf("host word %d differs", k)
					}
				}
			}
			return ""
		})
		// a non-bit is refused, and gnark agrees
		n := 256
		gd := gk.New(P, n, len(g.want(bc{n: n})), g.f)
		c.Each(g.name+" gnark", 8, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
			in := make([]*big.Int, n)
			for k := range in {
				in[k] = big.NewInt(int64(bc{n, 2, i * 30}.bit(k)))
			}
			ok := i < 5
			if !ok {
				in[i*31] = []*big.Int{big.NewInt(2), new(big.Int).Sub(P, big.NewInt(1)), big.NewInt(3)}[i-5]
			}
			out, r, _ := gd.Eng(in)
			if r.OK != ok {
				return fmt.Sprintf("accepted=%v", r.OK)
			}
			c.Trace(2)
			return gd.Agree(in, out, ok, i%2, 2)
		})
	}
	flips(c)
	words(c)
	decompose(c)
	hexes(c)
}

func flips(c *mc.Ctx) {
	max := mc.Pick(c, 40, 130)
	c.Each("flips", max, func(i int) string { return fmt.Sprintf("len %d", i) }, func(n int) string {
		in := make([]int, n)
		for i := range in {
			in[i] = i * 3
		}
		keep := append([]int{}, in...)
		eq := func(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
		rev := func(a []int) (r []int) {
			for i := len(a) - 1; i >= 0; i-- {
				r = append(r, a[i])
			}
			return
		}
		c.State(1)
		if !eq(utils.Flip(in), rev(in)) || !eq(gutils.Flip(in), rev(in)) {
			return "Flip"
		}
		for g := 1; g <= n; g++ {
			if n%g != 0 {
				if m := refused(func() { gutils.FlipSubSlice(in, g) }); m != "" {
					return fmt.Sprintf("FlipSubSlice of groups of %d: %s", g, m)
				}
				continue
			}
			var groups [][]int
			for i := 0; i < n; i += g {
				groups = append(groups, in[i:i+g])
			}
			var w1, w2 []int
			for i := range groups {
				w1 = append(w1, rev(groups[i])...)
				w2 = append(w2, groups[len(groups)-1-i]...)
			}
			c.State(1)
			if !eq(gutils.FlipSubSlice(in, g), w1) {
				return fmt.Sprintf("FlipSubSlice %d", g)
			}
			if !eq(utils.FlipByGroups(in, g), w2) {
				return fmt.Sprintf("FlipByGroups %d", g)
			}
		}
		if !eq(in, keep) {
			return "the caller's slice was changed"
		}
		vs := gutils.Slice2FVs(in)
		if len(vs) != n {
			return "Slice2FVs"
		}
		for i := range vs {
			if vs[i] != F(in[i]) {
				return "Slice2FVs"
			}
		}
		if w := rev(in); !eq(utils.Reverse(in), w) || !eq(in, w) {
			return "Reverse"
		}
		return ""
	})
	ns := []int{8, 16, 24, 32, 64, 128, 248}
	c.Each("FlipKeccakFvBits", len(ns)*250, func(i int) string { return fmt.Sprintf("%d bits case %d", ns[i/250], i%250) }, func(i int) string {
		n, k := ns[i/250], i%250
		b := bc{n, 2, k}
		if k >= n {
			b = bc{n, k % 2, -1}
		}
		x := le(b, 0, n)
		if k == 249 {
			x = new(big.Int).Lsh(big.NewInt(1), uint(n))
		}
		c.State(1)
		e := eng.New(P)
		var out []F
		r := e.Run(func(api frontend.API) error { out = gutils.FlipKeccakFvBits(api, e.Val(x), n); return nil })
		if k == 249 {
			if r.OK {
				return "accepted a value that does not fit"
			}
			return ""
		}
		if !r.OK {
			return r.String()
		}
		by := x.FillBytes(make([]byte, n/8))
		var want []*big.Int
		for j := 0; j < n; j++ {
			want = append(want, big.NewInt(int64(by[j/8]>>(j%8)&1)))
		}
		return same(e, "bits", out, want)
	})
}

func refused(f func()) (m string) {
	defer func() {
		if recover() != nil {
			m = ""
		}
	}()
	f()
	return "not refused"
}

// words: 32-byte values split on the host and put together in the circuit
func words(c *mc.Ctx) {
	cs := bitCases(-1, []int{256}, 1)
	// and values with every byte length
	data := func(b bc) []byte {
		d := make([]byte, 32)
		le(b, 0, 256).FillBytes(d)
		return d
	}
	nib := func(d []byte) (r []*big.Int) {
		for _, x := range d {
			r = append(r, big.NewInt(int64(x>>4)), big.NewInt(int64(x&15)))
		}
		return
	}
	c.Each("32 bytes", len(cs), func(i int) string { return cs[i].name() }, func(i int) string {
		d := data(cs[i])
		if i%3 == 1 {
			d = d[i%32:] // shorter data is the same number
		}
		full := make([]byte, 32)
		copy(full[32-len(d):], d)
		x := new(big.Int).SetBytes(d)
		for _, fr := range []int{1, 8, 64, 127, 128, 129, 200, 248, 252, 253} {
			c.State(1)
			p := utils.ParseBytes32(d, fr)
			lo := new(big.Int).And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(fr)), big.NewInt(1)))
			hi := new(big.Int).Rsh(x, uint(fr))
			if 256-fr <= 253 {
				if p[0].Cmp(lo) != 0 || p[1].Cmp(hi) != 0 {
					return fmt.Sprintf("ParseBytes32 at %d: %x %x", fr, p[0], p[1])
				}
				hb := utils.Byte32ToFrBits(p, fr)
				if len(hb) != 256 {
					return "Byte32ToFrBits length"
				}
				e := eng.New(P)
				var out []F
				r := e.Run(func(api frontend.API) error {
					out = utils.Byte32ToBits(api, utils.Bytes32{Val: [2]F{e.Val(p[0]), e.Val(p[1])}}, fr)
					return nil
				})
				c.Trans(int(e.Ops))
				if !r.OK {
					return r.String()
				}
				if len(out) != 256 {
					return "Byte32ToBits length"
				}
				for k := range hb {
					if hb[k] != x.Bit(k) {
						return fmt.Sprintf("Byte32ToFrBits at %d bit %d", fr, k)
					}
					if e.Int(out[k]) != int64(x.Bit(k)) {
						return fmt.Sprintf("Byte32ToBits at %d bit %d", fr, k)
					}
				}
			}
		}
		p := utils.ParseBytes32(d, 248)
		e := eng.New(P)
		var a [64]F
		var b [2]F
		r := e.Run(func(api frontend.API) error {
			b32 := utils.Bytes32{Val: [2]F{e.Val(p[0]), e.Val(p[1])}}
			a = utils.RecomposeSDKByte32ToNibble(api, b32)
			b = utils.RecomposeSDKByte32To2Fr(api, b32)
			return nil
		})
		if !r.OK {
			return r.String()
		}
		if m := same(e, "RecomposeSDKByte32ToNibble", a[:], nib(full)); m != "" {
			return m
		}
		if m := same(e, "RecomposeSDKByte32To2Fr", b[:], []*big.Int{new(big.Int).SetBytes(full[:16]), new(big.Int).SetBytes(full[16:])}); m != "" {
			return m
		}
		for _, n := range []int{2, 4, 8, 16, 32, 64, 128, 256} {
			w := 256 / n
			e := eng.New(P)
			var out [64]F
			r := e.Run(func(api frontend.API) error {
				in := make([]F, n)
				for k := range in {
					piece := new(big.Int).Rsh(x, uint(256-(k+1)*w))
					piece.And(piece, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
					in[k] = e.Val(piece)
				}
				out = utils.Recompose32ByteToNibbles(api, in)
				return nil
			})
			c.State(1)
			c.Trans(int(e.Ops))
			if !r.OK {
				return r.String()
			}
			if m := same(e, fmt.Sprintf("Recompose32ByteToNibbles %d", n), out[:], nib(full)); m != "" {
				return m
			}
		}
		six := new(big.Int).And(x, big.NewInt(1<<48-1))
		e = eng.New(P)
		var out [12]F
		r = e.Run(func(api frontend.API) error { out = utils.Recompose6BytesToNibbles(api, e.Val(six)); return nil })
		if !r.OK {
			return r.String()
		}
		return same(e, "Recompose6BytesToNibbles", out[:], nib(full[26:]))
	})
	// values that do not fit
	type ov struct {
		name string
		f    func(api frontend.API, v func(*big.Int) F, x *big.Int)
		bits uint
	}
	ovs := []ov{
		{"6 bytes", func(api frontend.API, v func(*big.Int) F, x *big.Int) { utils.Recompose6BytesToNibbles(api, v(x)) }, 48},
		{"nibble low", func(api frontend.API, v func(*big.Int) F, x *big.Int) {
			utils.RecomposeSDKByte32ToNibble(api, utils.Bytes32{Val: [2]F{v(x), v(big.NewInt(1))}})
		}, 248},
		{"nibble high", func(api frontend.API, v func(*big.Int) F, x *big.Int) {
			utils.RecomposeSDKByte32ToNibble(api, utils.Bytes32{Val: [2]F{v(big.NewInt(1)), v(x)}})
		}, 8},
		{"2fr low", func(api frontend.API, v func(*big.Int) F, x *big.Int) {
			utils.RecomposeSDKByte32To2Fr(api, utils.Bytes32{Val: [2]F{v(x), v(big.NewInt(1))}})
		}, 248},
		{"2fr high", func(api frontend.API, v func(*big.Int) F, x *big.Int) {
			utils.RecomposeSDKByte32To2Fr(api, utils.Bytes32{Val: [2]F{v(big.NewInt(1)), v(x)}})
		}, 8},
		{"bits low", func(api frontend.API, v func(*big.Int) F, x *big.Int) {
			utils.Byte32ToBits(api, utils.Bytes32{Val: [2]F{v(x), v(big.NewInt(1))}}, 130)
		}, 130},
		{"bits high", func(api frontend.API, v func(*big.Int) F, x *big.Int) {
			utils.Byte32ToBits(api, utils.Bytes32{Val: [2]F{v(big.NewInt(1)), v(x)}}, 130)
		}, 126},
	}
	for n := 2; n <= 256; n *= 2 {
		for _, at := range []int{0, n / 2, n - 1} {
			n, at := n, at
			ovs = append(ovs, ov{fmt.Sprintf("%d pieces at %d", n, at), func(api frontend.API, v func(*big.Int) F, x *big.Int) {
				in := make([]F, n)
				for k := range in {
					in[k] = v(big.NewInt(1))
				}
				in[at] = v(x)
				utils.Recompose32ByteToNibbles(api, in)
			}, uint(256 / n)})
		}
	}
	c.Each("too large", len(ovs), func(i int) string { return ovs[i].name }, func(i int) string {
		o := ovs[i]
		top := new(big.Int).Lsh(big.NewInt(1), o.bits)
		for _, x := range []*big.Int{new(big.Int).Sub(top, big.NewInt(1)), top, new(big.Int).Add(top, big.NewInt(1)), new(big.Int).Sub(P, big.NewInt(1))} {
			c.State(1)
			e := eng.New(P)
			r := e.Run(func(api frontend.API) error { o.f(api, func(x *big.Int) F { return e.Val(x) }, x); return nil })
			if r.OK != (x.Cmp(top) < 0) {
				return fmt.Sprintf("%s: accepted=%v", x.Text(16), r.OK)
			}
		}
		return ""
	})
	c.Each("piece counts", 300, func(i int) string { return fmt.Sprint(i) }, func(n int) string {
		if n > 0 && 256%n == 0 {
			return ""
		}
		e := eng.New(P)
		r := e.Run(func(api frontend.API) error {
			in := make([]F, n)
			for k := range in {
				in[k] = e.Val(0)
			}
			utils.Recompose32ByteToNibbles(api, in)
			return nil
		})
		c.State(1)
		if r.OK {
			return "a number of pieces that does not divide 256 bits was accepted"
		}
		return ""
	})
}

func decompose(c *mc.Ctx) {
	c.Each("DecomposeBits", 40, func(i int) string { return fmt.Sprintf("length %d", i) }, func(n int) string {
		lim := 1 << 12
		for x := 0; x < lim; x++ {
			v := big.NewInt(int64(x))
			if n > 12 {
				v.Lsh(v, uint(n-12))
			}
			keep := new(big.Int).Set(v)
			c.State(1)
			if v.BitLen() > n {
				if m := refused(func() { utils.DecomposeBits(v, n) }); m != "" {
					return fmt.Sprintf("%d into %d bits %s", x, n, m)
				}
				continue
			}
			d := utils.DecomposeBits(v, n)
			if len(d) != n {
				return "length"
			}
			for k := range d {
				if d[k] != v.Bit(k) {
					return fmt.Sprintf("%s bit %d", v, k)
				}
			}
			if v.Cmp(keep) != 0 {
				return "the caller's number was changed"
			}
		}
		return ""
	})
	c.Each("DecodeByteToBinary", 256, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		c.State(1)
		d := utils.DecodeByteToBinary(byte(i))
		if len(d) != 8 {
			return "length"
		}
		for k := range d {
			if d[k] != uint(i>>(7-k)&1) {
				return fmt.Sprintf("bit %d", k)
			}
		}
		return ""
	})
	vals := []any{big.Int{}, big.NewInt(5), uint8(255), uint16(65535), uint32(1<<32 - 1), uint64(1<<64 - 1), uint(7), int8(-128), int16(-1), int32(1 << 30), int64(-1 << 63), int(3), "0x1f", "77", []byte{1, 0}, nil}
	want := []string{"0", "5", "255", "65535", "4294967295", "18446744073709551615", "7", "-128", "-1", "1073741824", "-9223372036854775808", "3", "31", "77", "256", "0"}
	for d := uint64(0); d < 3; d++ { // both sides of every sign and width boundary
		for _, k := range []uint{7, 8, 15, 16, 31, 32, 53, 63} {
			v := uint64(1)<<k - 1 + d
			t := new(big.Int).SetUint64(v).String()
			vals, want = append(vals, v, uint(v)), append(want, t, t)
			if v < 1<<32 {
				vals, want = append(vals, uint32(v)), append(want, t)
			}
			if v < 1<<16 {
				vals, want = append(vals, uint16(v)), append(want, t)
			}
			if v < 1<<8 {
				vals, want = append(vals, uint8(v)), append(want, t)
			}
			if v < 1<<63 {
				vals, want = append(vals, int64(v), int64(-v), int(v), int(-v)), append(want, t, "-"+t, t, "-"+t)
			}
			if v < 1<<31 {
				vals, want = append(vals, int32(v), int32(-v)), append(want, t, "-"+t)
			}
			if v < 1<<15 {
				vals, want = append(vals, int16(v), int16(-v)), append(want, t, "-"+t)
			}
			if v < 1<<7 {
				vals, want = append(vals, int8(v), int8(-v)), append(want, t, "-"+t)
			}
			x := new(big.Int).Lsh(big.NewInt(int64(v%7+1)), 8*k)
			vals, want = append(vals, *x, new(big.Int).Neg(x), x.Bytes(), x.String(), "0x"+x.Text(16), "-"+x.String()), append(want, x.String(), "-"+x.String(), x.String(), x.String(), x.String(), "-"+x.String())
		}
	}
	c.Each("Var2BigInt", len(vals), func(i int) string { return fmt.Sprintf("%T %v %d", vals[i], want[i], i) }, func(i int) string {
		c.State(1)
		if g := utils.Var2BigInt(vals[i]); g.String() != want[i] {
			return g.String()
		}
		return ""
	})
}

func hexes(c *mc.Ctx) {
	c.Each("hex", 70, func(i int) string { return fmt.Sprintf("len %d", i) }, func(n int) string {
		for v := 0; v < 256; v++ {
			b := make([]byte, n)
			for k := range b {
				b[k] = byte(v + k*37)
			}
			c.State(1)
			s := fmt.Sprintf("%x", b)
			for _, h := range []string{s, "0x" + s, "0X" + s, strings.ToUpper(s)} {
				if !bytes.Equal(utils.Hex2Bytes(h), b) {
					return "Hex2Bytes " + h
				}
				if utils.Hex2BigInt(h).Cmp(new(big.Int).SetBytes(b)) != 0 {
					return "Hex2BigInt " + h
				}
				if utils.IsValidTxHash(h) != (n == 32) {
					return "IsValidTxHash " + h
				}
			}
			if n > 0 {
				// odd number of digits
				w := append([]byte{}, b...)
				w[0] &= 15
				if !bytes.Equal(utils.Hex2Bytes(s[1:]), w) || utils.IsValidTxHash(s[1:]) {
					return "odd " + s[1:]
				}
				for k := 0; k < len(s); k += 7 {
					if utils.IsValidTxHash(s[:k] + "g" + s[k+1:]) {
						return "IsValidTxHash with a letter"
					}
				}
			}
			if utils.Bytes2Hex(b) != s || utils.Bytes2Hex0x(b) != "0x"+s {
				return "Bytes2Hex"
			}
			if g := utils.ArrayBytes2Hex0x([][]byte{b, b}); len(g) != 2 || g[1] != "0x"+s {
				return "ArrayBytes2Hex0x"
			}
			if g := utils.Strings2bytes([]string{s, "0x" + s}); len(g) != 2 || !bytes.Equal(g[0], b) || !bytes.Equal(g[1], b) {
				return "Strings2bytes"
			}
			for _, t := range []struct {
				n int
				f func([]byte) []byte
			}{{20, utils.Pad20Bytes}, {32, utils.Pad32Bytes}} {
				if n > t.n {
					if m := refused(func() { t.f(b) }); m != "" {
						return fmt.Sprintf("padding to %d %s", t.n, m)
					}
					continue
				}
				w := append(make([]byte, t.n-n), b...)
				if !bytes.Equal(t.f(b), w) {
					return fmt.Sprintf("padding to %d", t.n)
				}
			}
			if n <= 20 {
				w := append(make([]byte, 20-n), b...)
				a := utils.Hex2Addr(s)
				if !bytes.Equal(a[:], w) || utils.Addr2Hex(a) != fmt.Sprintf("%x", w) || utils.Bytes2AddrHex0x(b) != fmt.Sprintf("0x%x", w) || utils.FormatAddrHex("0x"+s) != fmt.Sprintf("%x", w) {
					return "address " + s
				}
			}
			if n <= 32 {
				w := append(make([]byte, 32-n), b...)
				if h := utils.Hex2Hash(s); !bytes.Equal(h[:], w) {
					return "hash " + s
				}
				if h := utils.Bytes2Hash(b); !bytes.Equal(h[:], w) {
					return "hash bytes " + s
				}
			}
			// MiMC blocks
			if n <= 32 {
				if g := utils.MiMCBlockPad0(b, 32); !bytes.Equal(g, append(make([]byte, 32-n), b...)) {
					return fmt.Sprintf("MiMCBlockPad0 %x", g)
				}
			}
		}
		return ""
	})
}
