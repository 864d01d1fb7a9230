// C37: host commitment hashes against their definition over the list of words.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	cu "github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	bls12377 "github.com/consensys/gnark-crypto/ecc/bls12-377"
	m377 "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	m254 "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	fr761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr"
	m761 "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/backend/plonk"
	plonk377 "github.com/consensys/gnark/backend/plonk/bls12-377"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	"github.com/consensys/gnark/std/algebra/native/sw_bls12377"
	"github.com/consensys/gnark/std/math/emulated"
	replonk "github.com/consensys/gnark/std/recursion/plonk"
	"github.com/consensys/gnark/test/unsafekzg"
	"github.com/iden3/go-iden3-crypto/poseidon"

	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C37",
		Rule:        "BLS12-377 commitment: every length up to a bound with boundary fillings, every value around the modulus at every word, every single-bit change; bit strings up to a length with every small modulus, and around the three scalar moduli; block padding for every pair of sizes; verification-key hash: every word at every boundary value and every transposition of two words; its BN254 form for every single bit and every boundary of both halves, and every other length; Poseidon: every history of writes (plain, caller changing the value afterwards), sums and resets up to a depth and every number of words with boundary values",
		Assumptions: []string{"MiMC and Poseidon of a list of canonical words are the gnark-crypto and iden3 ones"},
	}, run)
}

var (
	r377 = ecc.BLS12_377.ScalarField()
	r254 = ecc.BN254.ScalarField()
	r761 = ecc.BW6_761.ScalarField()
	one  = big.NewInt(1)
)

func pow(n uint) *big.Int               { return new(big.Int).Lsh(one, n) }
func plus(a *big.Int, k int64) *big.Int { return new(big.Int).Add(a, big.NewInt(k)) }
func block(x *big.Int, n int) []byte    { return x.FillBytes(make([]byte, n)) }
func try(f func()) (p string)           { defer rec(&p); f(); return }
func rec(p *string) {
	if r := recover(); r != nil {
		*p = fmt.Sprint(r)
		if *p == "" {
			*p = "panic"
		}
	}
}

func run(c *mc.Ctx) {
	logger.Disable()
	bits(c)
	blsHash(c)
	pad(c)
	vkHash(c)
	vk254(c)
	poseidonHistory(c)
}

// --- bits to a field element

func bits(c *mc.Ctx) {
	n := mc.Pick(c, 10, 13)
	c.Each("bits, small moduli", 41*(n+1), func(i int) string { return fmt.Sprintf("modulus %d length %d", i/(n+1)+2, i%(n+1)) }, func(i int) string {
		m, l := big.NewInt(int64(i/(n+1)+2)), i%(n+1)
		for v := 0; v < 1<<l; v++ {
			b := make([]uint, l)
			for k := range b {
				b[k] = uint(v >> (l - 1 - k) & 1)
			}
			c.State(1)
			if g := cu.BitsToFrBigInt(b, m); g.Cmp(new(big.Int).Mod(big.NewInt(int64(v)), m)) != 0 {
				return fmt.Sprintf("%b gives %v", v, g)
			}
			for k := range b {
				if b[k] != uint(v>>(l-1-k)&1) {
					return "the bits were changed"
				}
			}
		}
		return ""
	})
	mods := []*big.Int{r254, r377, r761}
	type cs struct {
		m, v *big.Int
		l    int
	}
	var l []cs
	for _, m := range mods {
		for k := int64(1); k < 5; k++ {
			for d := int64(-2); d < 3; d++ {
				v := plus(new(big.Int).Mul(m, big.NewInt(k)), d)
				for _, x := range []int{0, 1, 9} {
					l = append(l, cs{m, v, v.BitLen() + x})
				}
			}
		}
		for b := uint(0); b < 400; b++ {
			l = append(l, cs{m, pow(b), int(b) + 1}, cs{m, plus(pow(b), -1), int(b)})
		}
	}
	mm := [3]string{}
	for i, m := range mods {
		mm[i] = m.String()
	}
	c.Each("bits, field moduli", len(l), func(i int) string { return fmt.Sprintf("%x mod %x length %d", l[i].v, l[i].m, l[i].l) }, func(i int) string {
		x := l[i]
		b := make([]uint, x.l)
		for k := range b {
			b[k] = x.v.Bit(x.l - 1 - k)
		}
		c.State(1)
		if g := cu.BitsToFrBigInt(b, x.m); g.Cmp(new(big.Int).Mod(x.v, x.m)) != 0 {
			return fmt.Sprintf("gives %x", g)
		}
		return ""
	})
	for i, m := range mods {
		if m.String() != mm[i] {
			c.One("bits, field moduli", "modulus changed", func() string { return "the caller's modulus was changed" })
		}
	}
}

// --- BLS12-377 commitment

// ref377: words of 253 bits, big-endian, as elements of the scalar field.
func ref377(in []byte) []byte {
	h := m377.NewMiMC()
	n := 8 * len(in)
	v := new(big.Int).SetBytes(in)
	for i := 0; i < n; i += 253 {
		e := i + 253
		if e > n {
			e = n
		}
		w := new(big.Int).Rsh(v, uint(n-e))
		w.And(w, plus(pow(uint(e-i)), -1)).Mod(w, r377)
		if _, err := h.Write(block(w, 32)); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return h.Sum(nil)
}

func ck377(c *mc.Ctx, in []byte) string {
	keep := bytes.Clone(in)
	c.State(1)
	c.Trans(len(in))
	g, want := cu.GenerateBls12377Hash(in), ref377(in)
	if !bytes.Equal(in, keep) {
		return "the input was changed"
	}
	if !bytes.Equal(g, want) {
		return fmt.Sprintf("%x: got %x want %x", in, g, want)
	}
	return ""
}

func blsHash(c *mc.Ctx) {
	max := mc.Pick(c, 200, 700)
	fills := []func(i int) byte{
		func(int) byte { return 0 }, func(int) byte { return 0xff }, func(int) byte { return 0x80 }, func(int) byte { return 1 },
		func(i int) byte { return byte(i*37 + 11) }, func(i int) byte { return byte(i * i) },
	}
	c.Each("BLS12-377, lengths", (max+1)*len(fills), func(i int) string { return fmt.Sprintf("length %d filling %d", i/len(fills), i%len(fills)) }, func(i int) string {
		in := make([]byte, i/len(fills))
		for k := range in {
			in[k] = fills[i%len(fills)](k)
		}
		return ck377(c, in)
	})
	// values around the modulus, the width and 0 at every word of 1..n words
	vals := []*big.Int{new(big.Int), one, plus(r377, -1), r377, plus(r377, 1), plus(pow(252), -1), pow(252), plus(pow(253), -1), plus(r254, 0)}
	vals[len(vals)-1] = new(big.Int).Mod(r254, pow(253))
	nw := mc.Pick(c, 3, 4)
	var cs [][]int
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) > 0 {
			cs = append(cs, append([]int{}, p...))
		}
		if len(p) < nw {
			for v := range vals {
				rec(append(p, v))
			}
		}
	}
	rec(nil)
	c.Each("BLS12-377, words", len(cs), func(i int) string { return fmt.Sprint(cs[i]) }, func(i int) string {
		v := new(big.Int)
		for _, k := range cs[i] {
			v.Lsh(v, 253).Or(v, vals[k])
		}
		n := 253 * len(cs[i])
		pad := (8 - n%8) % 8
		for t := 0; t < 2; t++ { // the last, partial word empty or full
			in := new(big.Int).Lsh(v, uint(pad))
			if t == 1 {
				in.Or(in, plus(pow(uint(pad)), -1))
			}
			if m := ck377(c, block(in, (n+pad)/8)); m != "" {
				return m
			}
		}
		return ""
	})
	// every bit counts
	for _, n := range mc.Pick(c, []int{32, 64, 96}, []int{1, 31, 32, 33, 63, 64, 65, 95, 96, 127, 160}) {
		base := make([]byte, n)
		for k := range base {
			base[k] = byte(k*91 + 5)
		}
		h0 := cu.GenerateBls12377Hash(bytes.Clone(base))
		c.Each(fmt.Sprintf("BLS12-377, single bits of %d bytes", n), 8*n, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
			in := bytes.Clone(base)
			in[i/8] ^= 0x80 >> (i % 8)
			if m := ck377(c, in); m != "" {
				return m
			}
			if bytes.Equal(h0, cu.GenerateBls12377Hash(in)) {
				return "the bit does not count"
			}
			return ""
		})
	}
}

// --- padding to a block

func pad(c *mc.Ctx) {
	n := mc.Pick(c, 70, 150)
	c.Each("block padding", n*n, func(i int) string { return fmt.Sprintf("%d bytes to %d", i/n, i%n) }, func(i int) string {
		data := make([]byte, i/n, i/n+8)
		for k := range data {
			data[k] = byte(k + 1)
		}
		keep := bytes.Clone(data)
		c.State(1)
		var g []byte
		p := try(func() { g = cu.MiMCBlockPad0(data, i%n) })
		if !bytes.Equal(keep, data) {
			return "the input was changed"
		}
		if i/n > i%n {
			if p == "" {
				return fmt.Sprintf("data that does not fit is cut to %x", g)
			}
			return ""
		}
		if p != "" {
			return "panic: " + p
		}
		if !bytes.Equal(g, append(make([]byte, i%n-i/n), keep...)) {
			return fmt.Sprintf("got %x", g)
		}
		for k := range g {
			g[k] = 0xee
		}
		if !bytes.Equal(keep, data) {
			return "the result shares the caller's memory"
		}
		return ""
	})
}

// --- verification key

type vkT = replonk.VerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine]

const words = 1 + 4 + 2 + 8 + 6 + 10

// mkVk puts the words, in the order of the definition, into a key.
func mkVk(w []*big.Int) (vk vkT) {
	k := 0
	next := func() *big.Int { k++; return new(big.Int).Set(w[k-1]) }
	el := func() frontend.Variable { var e fr761.Element; e.SetBigInt(next()); return e }
	g1 := func() sw_bls12377.G1Affine { x := el(); return sw_bls12377.G1Affine{X: x, Y: el()} }
	vk.NbPublicVariables = next().Uint64()
	vk.CosetShift = emulated.Element[sw_bls12377.ScalarField]{Limbs: []frontend.Variable{next(), next(), next(), next()}}
	vk.Kzg.G1 = g1()
	for i := range vk.Kzg.G2 {
		p := &vk.Kzg.G2[i].P
		p.X.A0, p.X.A1, p.Y.A0, p.Y.A1 = el(), el(), el(), el()
	}
	for i := range vk.S {
		vk.S[i].G1El = g1()
	}
	vk.Ql.G1El, vk.Qr.G1El, vk.Qm.G1El, vk.Qo.G1El, vk.Qk.G1El = g1(), g1(), g1(), g1(), g1()
	vk.Size = big.NewInt(8)
	vk.SizeInv = emulated.ValueOf[sw_bls12377.ScalarField](new(big.Int).ModInverse(big.NewInt(8), r377))
	vk.Generator = emulated.ValueOf[sw_bls12377.ScalarField](9)
	if k != len(w) {
		panic("harness: words")
	}
	return
}

func generic() (w []*big.Int) {
	for i := 0; i < words; i++ {
		w = append(w, big.NewInt(int64(1000+7*i)))
	}
	return
}

func ref761(w []*big.Int) []byte {
	h := m761.NewMiMC()
	for _, x := range w {
		if _, err := h.Write(block(x, 48)); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return h.Sum(nil)
}

func ckVk(c *mc.Ctx, w []*big.Int) string {
	c.State(1)
	c.Trans(len(w))
	vk := mkVk(w)
	if g, want := cu.CalculateAppVkHashFor761(vk), ref761(w); !bytes.Equal(g, want) {
		return fmt.Sprintf("got %x want %x", g, want)
	}
	// the key is left as it was, and hashes to the same value again
	for i, l := range vk.CosetShift.Limbs {
		if l.(*big.Int).Cmp(w[1+i]) != 0 {
			return "the key was changed"
		}
	}
	if !bytes.Equal(cu.CalculateAppVkHashFor761(vk), ref761(w)) {
		return "the second hash differs"
	}
	return ""
}

func vkHash(c *mc.Ctx) {
	max := func(i int) *big.Int { // exclusive bound of a word
		if i < 5 {
			return pow(64)
		}
		return r761
	}
	type cs struct {
		i int
		v *big.Int
	}
	var l []cs
	for i := 0; i < words; i++ {
		for _, v := range []*big.Int{new(big.Int), one, plus(max(i), -1), plus(max(i), -2), pow(63), pow(uint(plus(max(i), -1).BitLen() - 1))} {
			l = append(l, cs{i, v})
		}
		for b := uint(0); b < uint(max(i).BitLen()-1); b += uint(mc.Pick(c, 8, 1)) {
			l = append(l, cs{i, pow(b)})
		}
	}
	h0 := cu.CalculateAppVkHashFor761(mkVk(generic()))
	c.Each("key words", len(l), func(i int) string { return fmt.Sprintf("word %d = %x", l[i].i, l[i].v) }, func(i int) string {
		w := generic()
		w[l[i].i] = l[i].v
		if m := ckVk(c, w); m != "" {
			return m
		}
		if bytes.Equal(cu.CalculateAppVkHashFor761(mkVk(w)), h0) {
			return "the word does not count"
		}
		return ""
	})
	c.Each("key word order", words*words, func(i int) string { return fmt.Sprintf("%d and %d exchanged", i/words, i%words) }, func(i int) string {
		w := generic()
		w[i/words], w[i%words] = w[i%words], w[i/words]
		return ckVk(c, w)
	})
	for _, d := range []struct {
		n string
		v *big.Int
	}{{"zero", new(big.Int)}, {"one", one}} {
		c.One("key word order", "all "+d.n, func() string {
			w := generic()
			for i := range w {
				w[i] = d.v
			}
			return ckVk(c, w)
		})
	}
	c.Each("keys of circuits", 3, func(i int) string { return fmt.Sprint(i) }, func(i int) string { return realKey(c, i+1) })
	// a limb that is no word is refused, not dropped with all that follows
	c.Each("key limbs too large", 4*3, func(i int) string { return fmt.Sprintf("limb %d case %d", i/3, i%3) }, func(i int) string {
		w := generic()
		w[1+i/3] = []*big.Int{r761, plus(pow(384), -1), pow(384)}[i%3]
		vk := mkVk(w)
		var h []byte
		if p := try(func() { h = cu.CalculateAppVkHashFor761(vk) }); p == "" {
			return fmt.Sprintf("accepted: %x", h)
		}
		return ""
	})
	// the other words of the key
	other := []struct {
		n string
		f func(vk *vkT)
	}{
		{"Size", func(vk *vkT) { vk.Size = big.NewInt(16) }},
		{"SizeInv", func(vk *vkT) { vk.SizeInv = emulated.ValueOf[sw_bls12377.ScalarField](5) }},
		{"Generator", func(vk *vkT) { vk.Generator = emulated.ValueOf[sw_bls12377.ScalarField](5) }},
		{"Qcp", func(vk *vkT) {
			vk.Qcp = append(vk.Qcp, vk.Ql)
		}},
		{"CommitmentConstraintIndexes", func(vk *vkT) { vk.CommitmentConstraintIndexes = []frontend.Variable{3} }},
	}
	c.Each("key words left out", len(other), func(i int) string { return other[i].n }, func(i int) string {
		vk := mkVk(generic())
		other[i].f(&vk)
		if bytes.Equal(cu.CalculateAppVkHashFor761(vk), h0) {
			return "keys that differ in " + other[i].n + " have the same hash"
		}
		return ""
	})
}

type pows struct {
	X frontend.Variable
	Y frontend.Variable `gnark:",public"`
	n int
}

func (p *pows) Define(api frontend.API) error {
	y := p.X
	for i := 0; i < p.n; i++ {
		y = api.Add(api.Mul(y, p.X), i)
	}
	api.AssertIsEqual(p.Y, y)
	return nil
}

// realKey: the key of a compiled circuit, read from gnark's own representation.
func realKey(c *mc.Ctx, n int) string {
	ccs, err := frontend.Compile(r377, scs.NewBuilder, &pows{n: n})
	if err != nil {
		return "harness: " + err.Error()
	}
	srs, lag, err := unsafekzg.NewSRS(ccs)
	if err != nil {
		return "harness: " + err.Error()
	}
	_, pvk, err := plonk.Setup(ccs, srs, lag)
	if err != nil {
		return "harness: " + err.Error()
	}
	vk, err := replonk.ValueOfVerifyingKey[sw_bls12377.ScalarField, sw_bls12377.G1Affine, sw_bls12377.G2Affine](pvk)
	if err != nil {
		return "harness: " + err.Error()
	}
	v := pvk.(*plonk377.VerifyingKey)
	w := []*big.Int{new(big.Int).SetUint64(v.NbPublicVariables)}
	sh := v.CosetShift.BigInt(new(big.Int))
	for i := 0; i < 4; i++ {
		w = append(w, new(big.Int).And(new(big.Int).Rsh(sh, uint(64*i)), plus(pow(64), -1)))
	}
	g1 := func(p bls12377.G1Affine) {
		w = append(w, p.X.BigInt(new(big.Int)), p.Y.BigInt(new(big.Int)))
	}
	g1(v.Kzg.G1)
	for _, p := range v.Kzg.G2 {
		for _, e := range []bls12377.E2{p.X, p.Y} {
			w = append(w, e.A0.BigInt(new(big.Int)), e.A1.BigInt(new(big.Int)))
		}
	}
	for _, p := range v.S {
		g1(p)
	}
	for _, p := range []bls12377.G1Affine{v.Ql, v.Qr, v.Qm, v.Qo, v.Qk} {
		g1(p)
	}
	c.Trace(1)
	if g, want := cu.CalculateAppVkHashFor761(vk), ref761(w); !bytes.Equal(g, want) {
		return fmt.Sprintf("got %x want %x", g, want)
	}
	return ""
}

// --- BN254 form of the key hash

func ref254(a, b []byte) []byte {
	h := m254.NewMiMC()
	for _, x := range [][]byte{a, b} {
		if _, err := h.Write(block(new(big.Int).SetBytes(x), 32)); err != nil {
			return nil
		}
	}
	return h.Sum(nil)
}

func vk254(c *mc.Ctx) {
	base := make([]byte, 48)
	for i := range base {
		base[i] = byte(i*29 + 3)
	}
	ck := func(in []byte) string {
		c.State(1)
		keep := bytes.Clone(in)
		g := cu.CalculateAppVkHashFrom761To254(in)
		if !bytes.Equal(keep, in) {
			return "the input was changed"
		}
		if w := ref254(in[:24], in[24:]); !bytes.Equal(g, w) {
			return fmt.Sprintf("got %x want %x", g, w)
		}
		return ""
	}
	h0 := cu.CalculateAppVkHashFrom761To254(bytes.Clone(base))
	c.Each("BN254 form, single bits", 384, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		in := bytes.Clone(base)
		in[i/8] ^= 0x80 >> (i % 8)
		if m := ck(in); m != "" {
			return m
		}
		if bytes.Equal(h0, cu.CalculateAppVkHashFrom761To254(in)) {
			return "the bit does not count"
		}
		return ""
	})
	vals := []*big.Int{new(big.Int), one, pow(64), pow(128), pow(191), plus(pow(192), -1), plus(pow(192), -2), pow(184)}
	c.Each("BN254 form, halves", len(vals)*len(vals), func(i int) string { return fmt.Sprintf("%x %x", vals[i/len(vals)], vals[i%len(vals)]) }, func(i int) string {
		return ck(append(block(vals[i/len(vals)], 24), block(vals[i%len(vals)], 24)...))
	})
	// other lengths are warned about; no byte is left out
	n := 80
	c.Each("BN254 form, other lengths", n*3, func(i int) string { return fmt.Sprintf("length %d filling %d", i/3, i%3) }, func(i int) string {
		l := i / 3
		in := make([]byte, l, l+64)
		for k := range in {
			in[k] = []byte{0, 0xff, byte(k + 1)}[i%3]
		}
		var g []byte
		p := try(func() { g = cu.CalculateAppVkHashFrom761To254(in) })
		c.State(1)
		var w []byte
		if l >= 24 && l <= 56 {
			w = ref254(in[:24], in[24:])
		}
		switch {
		case l == 48 && p != "":
			return "panic: " + p
		case p == "" && (w == nil || !bytes.Equal(g, w)):
			return fmt.Sprintf("a hash that does not cover the input: %x", g)
		}
		return ""
	})
}

// --- Poseidon

func poseidonHistory(c *mc.Ctx) {
	vals := []*big.Int{new(big.Int), one, plus(r254, -1), r254, plus(r254, 1), big.NewInt(-1), plus(pow(256), -1)}
	ref := func(l []*big.Int) (*big.Int, error) {
		for _, x := range l {
			if x.Sign() < 0 || x.Cmp(r254) >= 0 {
				return nil, fmt.Errorf("not a word")
			}
		}
		return poseidon.Hash(l)
	}
	same := func(g *big.Int, e error, l []*big.Int) string {
		w, we := ref(l)
		if (e == nil) != (we == nil) {
			return fmt.Sprintf("%v: error %v, want %v", l, e, we)
		}
		if e == nil && g.Cmp(w) != 0 {
			return fmt.Sprintf("%v: got %v want %v", l, g, w)
		}
		return ""
	}
	c.Each("Poseidon, number of words", 20*len(vals), func(i int) string { return fmt.Sprintf("%d words, one of them %v", i/len(vals), vals[i%len(vals)]) }, func(i int) string {
		n, v := i/len(vals), vals[i%len(vals)]
		for at := 0; at < n || at == 0; at++ {
			p := cu.NewPoseidonBn254()
			var l []*big.Int
			for k := 0; k < n; k++ {
				x := big.NewInt(int64(k + 5))
				if k == at {
					x = new(big.Int).Set(v)
				}
				l = append(l, x)
				p.Write(x)
			}
			c.State(1)
			g, e := p.Sum()
			if m := same(g, e, l); m != "" {
				return m
			}
			if at < n && l[at].Cmp(v) != 0 {
				return "the caller's value was changed"
			}
		}
		return ""
	})
	// histories on two hashers: write, write then change the value, write again the
	// same variable, sum, sum and change the result, reset
	const ops = 12
	depth := mc.Pick(c, 4, 6)
	n := 1
	for i := 0; i < depth; i++ {
		n *= ops
	}
	c.Each("Poseidon histories", n, func(i int) string { return hist(i, depth) }, func(i int) string {
		var h [2]*cu.PoseidonBn254Hasher
		var l [2][]*big.Int
		h[0], h[1] = cu.NewPoseidonBn254(), cu.NewPoseidonBn254()
		v := big.NewInt(3)
		for s := 0; s < depth; s++ {
			op := i % ops
			i /= ops
			k := op % 2
			switch op / 2 {
			case 0: // a fresh value
				h[k].Write(big.NewInt(int64(s + 7)))
				l[k] = append(l[k], big.NewInt(int64(s+7)))
			case 1: // the caller's variable as it is now
				h[k].Write(v)
				l[k] = append(l[k], new(big.Int).Set(v))
			case 2: // ... changed right afterwards
				h[k].Write(v)
				l[k] = append(l[k], new(big.Int).Set(v))
				v.Add(v, big.NewInt(10))
			case 3:
				g, e := h[k].Sum()
				if m := same(g, e, l[k]); m != "" {
					return m
				}
			case 4:
				g, e := h[k].Sum()
				if m := same(g, e, l[k]); m != "" {
					return m
				}
				if g != nil {
					g.SetInt64(99)
				}
			case 5:
				h[k].Reset()
				l[k] = nil
			}
			c.Trans(1)
		}
		c.State(1)
		for k := range h {
			g, e := h[k].Sum()
			if m := same(g, e, l[k]); m != "" {
				return m
			}
		}
		return ""
	})
}

func hist(i, depth int) (s string) {
	for k := 0; k < depth; k++ {
		o := i % 12
		i /= 12
		s += []string{"write", "write v", "write v, change v", "sum", "sum, change it", "reset"}[o/2] + fmt.Sprint(o%2) + "; "
	}
	return
}
