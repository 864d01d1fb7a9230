// C20: Merkle-root gadgets.
package main

import (
	"bytes"
	"fmt"
	"hash"
	"math/big"
	"os"
	"os/exec"
	"runtime/debug"

	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/consensys/gnark-crypto/ecc"
	nbls "github.com/consensys/gnark-crypto/ecc/bls12-377/fr/mimc"
	nbn "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	nbw "github.com/consensys/gnark-crypto/ecc/bw6-761/fr/mimc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/hash/mimc"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/ethereum/go-ethereum/crypto"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
)

type F = frontend.Variable

func main() {
	if os.Getenv("C20_PROBE") != "" {
		probe()
		return
	}
	mc.Main(mc.Meta{Prop: "C20",
		Rule:        "every leaf count up to the bound for each root gadget, with all-distinct, all-equal, trailing zero or repeated and per-leaf changed or swapped leaves, and every list over three leaves (one of them zero) up to four leaves, against a reference built from go-ethereum's Keccak and gnark-crypto's MiMC; path roots: every depth up to the bound, every direction vector, leaf and sibling values at field boundaries (also equal ones), directions that are not bits, missing directions; every unsupported leaf count must be refused",
		Assumptions: []string{"go-ethereum's Keccak-256 and gnark-crypto's native MiMC are the references"},
	}, run)
}

// probe runs in a child process: zero leaves must be refused, not overflow the stack.
func probe() {
	debug.SetMaxStack(32 << 20)
	defer func() {
		if r := recover(); r != nil {
			fmt.Print("refused")
		}
	}()
	e := eng.New(gk.BN254)
	r := e.Run(func(api frontend.API) error {
		if os.Getenv("C20_PROBE") == "mimc" {
			merkle.NewMimcRootAPI[emulated.BLS12377Fr](api, ecc.BLS12_377).MimcRoot(nil)
		} else {
			merkle.KeccakMerkleRoot(api, nil)
		}
		return nil
	})
	if r.OK {
		fmt.Print("accepted")
	} else {
		fmt.Print("refused")
	}
}

func hbits(e *eng.Engine, h [32]byte) (b [256]F) {
	for k := range b {
		b[k] = e.Val(int64(h[k/8] >> (k % 8) & 1))
	}
	return
}

func leaf(seed, i int) (h [32]byte) {
	return eng.Keccak256([]byte{byte(seed), byte(i), byte(i >> 8)})
}

// variants of a leaf list: base, all equal, one changed, two neighbours swapped, reversed
func lists(n int) (r [][][32]byte, names []string) {
	mk := func() (l [][32]byte) {
		for i := 0; i < n; i++ {
			l = append(l, leaf(1, i))
		}
		return
	}
	add := func(name string, l [][32]byte) { r, names = append(r, l), append(names, name) }
	add("distinct", mk())
	l := mk()
	for i := range l {
		l[i] = leaf(2, 0)
	}
	add("equal", l)
	add("zero", make([][32]byte, n))
	if n <= 4 {
		// every list over three leaves
		tot := 1
		for i := 0; i < n; i++ {
			tot *= 3
		}
		for m := 0; m < tot; m++ {
			l := make([][32]byte, n)
			x := m
			for i := range l {
				if x%3 > 0 {
					l[i] = leaf(1, x%3)
				}
				x /= 3
			}
			add(fmt.Sprintf("over three leaves %d", m), l)
		}
	}
	for j := 1; j < n; j++ {
		l := mk()
		for i := n - j; i < n; i++ {
			l[i] = [32]byte{}
		}
		add(fmt.Sprintf("last %d zero", j), l)
		l = mk()
		for i := n - j; i < n; i++ {
			l[i] = l[n-j-1]
		}
		add(fmt.Sprintf("last %d repeated", j), l)
	}
	for i := 0; i < n; i++ {
		l := mk()
		l[i][i%32] ^= 1 << (i % 8)
		add(fmt.Sprintf("changed %d", i), l)
		if i+1 < n {
			l := mk()
			l[i], l[i+1] = l[i+1], l[i]
			add(fmt.Sprintf("swapped %d", i), l)
		}
	}
	return
}

func keccakRoot(l [][32]byte) [32]byte {
	for len(l) > 1 {
		var m [][32]byte
		for i := 0; i < len(l); i += 2 {
			m = append(m, [32]byte(crypto.Keccak256(l[i][:], l[i+1][:])))
		}
		l = m
	}
	return l[0]
}

func run(c *mc.Ctx) {
	type kc struct {
		n    int
		name string
		l    [][32]byte
	}
	var ks []kc
	for n := 1; n <= mc.Pick(c, 17, 65); n++ {
		ls, ns := lists(n)
		if n&(n-1) != 0 {
			ls, ns = ls[:1], ns[:1]
		}
		for i := range ls {
			ks = append(ks, kc{n, ns[i], ls[i]})
		}
	}
	c.Each("keccak root", len(ks), func(i int) string { return fmt.Sprintf("%d leaves %s", ks[i].n, ks[i].name) }, func(i int) string {
		k := ks[i]
		c.State(1)
		e := eng.New(gk.BN254)
		var out [256]F
		r := e.Run(func(api frontend.API) error {
			in := make([][256]F, k.n)
			for j := range in {
				in[j] = hbits(e, k.l[j])
			}
			out = merkle.KeccakMerkleRoot(api, in)
			return nil
		})
		c.Trans(int(e.Ops))
		if k.n&(k.n-1) != 0 {
			if r.OK {
				return "an unsupported leaf count was accepted"
			}
			return ""
		}
		if !r.OK {
			return r.String()
		}
		w := keccakRoot(k.l)
		for b := range out {
			if e.Int(out[b]) != int64(w[b/8]>>(b%8)&1) {
				return fmt.Sprintf("bit %d of the root is %d", b, e.Int(out[b]))
			}
		}
		return ""
	})
	kg := gk.New(gk.BN254, 2*256, 256, func(api frontend.API, in []F) []F {
		r := merkle.KeccakMerkleRoot(api, [][256]F{[256]F(in[:256]), [256]F(in[256:])})
		return r[:]
	})
	c.Each("keccak root gnark", 3, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		l := [][32]byte{leaf(5, i), leaf(6, i)}
		w := keccakRoot(l)
		if i == 1 {
			w[7] ^= 16
		}
		var in, out []*big.Int
		bit := func(h [32]byte, k int) *big.Int { return big.NewInt(int64(h[k/8] >> (k % 8) & 1)) }
		for k := 0; k < 512; k++ {
			in = append(in, bit(l[k/256], k%256))
		}
		if i == 2 {
			in[300] = big.NewInt(2)
		}
		for k := 0; k < 256; k++ {
			out = append(out, bit(w, k))
		}
		c.Trace(2)
		return kg.Agree(in, out, i == 0, 0, 2)
	})
	for _, kind := range []string{"mimc", "keccak"} {
		kind := kind
		c.One("no leaves", kind, func() string {
			self, err := os.Executable()
			if err != nil {
				return ""
			}
			cmd := exec.Command(self)
			cmd.Env = append(os.Environ(), "C20_PROBE="+kind, "GOTRACEBACK=none")
			var o bytes.Buffer
			cmd.Stdout = &o
			err = cmd.Run()
			c.State(1)
			if err != nil || o.String() != "refused" {
				return fmt.Sprintf("a root of no leaves was not refused: %q %v", o.String(), err)
			}
			return ""
		})
	}

	emu[emulated.BLS12377Fr](c, "bls12-377", ecc.BLS12_377, func() hash.Hash { return nbls.NewMiMC() })
	emu[emulated.BN254Fr](c, "bn254", ecc.BN254, func() hash.Hash { return nbn.NewMiMC() })
	emu[emulated.BW6761Fr](c, "bw6-761", ecc.BW6_761, func() hash.Hash { return nbw.NewMiMC() })
	native(c)
}

func bl(x *big.Int, n int) []byte { b := make([]byte, n); return x.FillBytes(b) }

func h2(native func() hash.Hash, bs int, a, b *big.Int) *big.Int {
	h := native()
	h.Write(bl(a, bs))
	h.Write(bl(b, bs))
	return new(big.Int).SetBytes(h.Sum(nil))
}

func emu[T emulated.FieldParams](c *mc.Ctx, name string, id ecc.ID, native func() hash.Hash) {
	var p T
	mod, nb := p.Modulus(), int(p.NbLimbs())
	bs := len(mod.Bytes())
	m64 := new(big.Int).SetUint64(^uint64(0))
	limbs := func(x *big.Int) []F {
		r := make([]F, nb)
		for i := range r {
			r[i] = new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), m64)
		}
		return r
	}
	val := func(e *eng.Engine, el *emulated.Element[T]) *big.Int {
		g := new(big.Int)
		for j := len(el.Limbs) - 1; j >= 0; j-- {
			g.Lsh(g, 64).Add(g, e.Big(el.Limbs[j]))
		}
		return g
	}
	type cas struct {
		n    int
		name string
		l    [][32]byte
	}
	var cs []cas
	for n := 1; n <= mc.Pick(c, 9, 33); n++ {
		ls, ns := lists(n)
		if n&(n-1) != 0 {
			ls, ns = ls[:1], ns[:1]
		}
		for i := range ls {
			cs = append(cs, cas{n, ns[i], ls[i]})
		}
	}
	toF := func(h [32]byte) *big.Int { x := new(big.Int).SetBytes(h[:]); return x.Mod(x, mod) }
	c.Each("mimc root "+name, len(cs), func(i int) string { return fmt.Sprintf("%d leaves %s", cs[i].n, cs[i].name) }, func(i int) string {
		k := cs[i]
		c.State(1)
		e := eng.New(gk.BN254)
		var out *emulated.Element[T]
		r := e.Run(func(api frontend.API) error {
			a := merkle.NewMimcRootAPI[T](api, id)
			in := make([]*emulated.Element[T], k.n)
			for j := range in {
				in[j] = &emulated.Element[T]{Limbs: e.Vals(limbs(toF(k.l[j])))}
			}
			keep := append([]*emulated.Element[T]{}, in...)
			// a second root with the same instance must not depend on the first
			if k.n&(k.n-1) == 0 && i%2 == 1 {
				a.MimcRoot(in[:1])
				if k.n > 1 {
					a.MimcRoot([]*emulated.Element[T]{in[1], in[0]})
				}
			}
			out = a.MimcRoot(in)
			for j := range in {
				if in[j] != keep[j] {
					panic("the caller's leaves were changed")
				}
			}
			return nil
		})
		c.Trans(int(e.Ops))
		if k.n&(k.n-1) != 0 {
			if r.OK {
				return "an unsupported leaf count was accepted"
			}
			return ""
		}
		if !r.OK {
			return r.String()
		}
		var l []*big.Int
		for _, h := range k.l {
			l = append(l, toF(h))
		}
		for len(l) > 1 {
			var m []*big.Int
			for j := 0; j < len(l); j += 2 {
				m = append(m, h2(native, bs, l[j], l[j+1]))
			}
			l = m
		}
		if g := val(e, out); g.Mod(g, mod).Cmp(l[0]) != 0 {
			return fmt.Sprintf("root %s, reference %s", g.Text(16), l[0].Text(16))
		}
		return ""
	})
	// paths
	depth := mc.Pick(c, 3, 5)
	type pc struct {
		d, dirs, bad, eq int
	}
	var ps []pc
	for d := 0; d <= depth; d++ {
		for m := 0; m < 1<<d; m++ {
			ps = append(ps, pc{d, m, -1, 0}, pc{d, m, -1, 1})
			if m == 0 || m == 1<<d-1 {
				for b := 0; b < d; b++ {
					ps = append(ps, pc{d, m, b, 0})
				}
			}
		}
	}
	c.Each("mimc path "+name, len(ps), func(i int) string { return fmt.Sprint(ps[i]) }, func(i int) string {
		k := ps[i]
		c.State(1)
		e := eng.New(gk.BN254)
		lf := toF(leaf(7, k.dirs))
		var sib []*big.Int
		want := new(big.Int).Set(lf)
		for j := 0; j < k.d; j++ {
			s := toF(leaf(8, j))
			switch {
			case k.eq == 1:
				s = new(big.Int).Set(want)
			case j == 1:
				s = new(big.Int).Sub(mod, big.NewInt(1))
			case j == 2:
				s = new(big.Int)
			}
			sib = append(sib, s)
			if k.dirs>>j&1 == 1 {
				want = h2(native, bs, s, want)
			} else {
				want = h2(native, bs, want, s)
			}
		}
		var out *emulated.Element[T]
		r := e.Run(func(api frontend.API) error {
			a := merkle.NewMimcRootAPI[T](api, id)
			path := make([]*emulated.Element[T], k.d)
			dirs := make([]F, k.d)
			for j := range path {
				path[j] = &emulated.Element[T]{Limbs: e.Vals(limbs(sib[j]))}
				dirs[j] = e.Val(int64(k.dirs >> j & 1))
				if j == k.bad {
					dirs[j] = e.Val(int64(2))
				}
			}
			out = a.RestoreMimcRoot(&emulated.Element[T]{Limbs: e.Vals(limbs(lf))}, path, dirs)
			return nil
		})
		c.Trans(int(e.Ops))
		if k.bad >= 0 {
			if r.OK {
				return "a direction that is not a bit was accepted"
			}
			return ""
		}
		if !r.OK {
			return r.String()
		}
		if g := val(e, out); g.Mod(g, mod).Cmp(want) != 0 {
			return fmt.Sprintf("root %s, reference %s", g.Text(16), want.Text(16))
		}
		return ""
	})
	c.Each("mimc path lengths "+name, 16, func(i int) string { return fmt.Sprintf("path %d directions %d", i/4, i%4) }, func(i int) string {
		if i/4 == i%4 {
			return ""
		}
		e := eng.New(gk.BN254)
		c.State(1)
		r := e.Run(func(api frontend.API) error {
			el := func() *emulated.Element[T] { return &emulated.Element[T]{Limbs: e.Vals(limbs(big.NewInt(9)))} }
			path := make([]*emulated.Element[T], i/4)
			for j := range path {
				path[j] = el()
			}
			dirs := make([]F, i%4)
			for j := range dirs {
				dirs[j] = e.Val(0)
			}
			merkle.NewMimcRootAPI[T](api, id).RestoreMimcRoot(el(), path, dirs)
			return nil
		})
		if r.OK {
			return "a path with a different number of directions was accepted"
		}
		return ""
	})
}

// native MiMC paths
func native(c *mc.Ctx) {
	P := gk.BN254
	type pc struct {
		d, extra, dirs, bad, vals, hashed int
	}
	var ps []pc
	depth := mc.Pick(c, 6, 9)
	for d := 0; d <= depth; d++ {
		for m := 0; m < 1<<d; m++ {
			for hashed := 0; hashed < 2; hashed++ {
				for v := 0; v < 3; v++ {
					ps = append(ps, pc{d, 0, m, -1, v, hashed})
				}
				if m == 0 || m == 1<<d-1 {
					for b := 0; b < d; b++ {
						ps = append(ps, pc{d, 0, m, b, 0, hashed})
					}
					ps = append(ps, pc{d, 1, m, -1, 0, hashed})
					if d > 0 {
						ps = append(ps, pc{d, -1, m, -1, 0, hashed})
					}
				}
			}
		}
	}
	badDir := []*big.Int{big.NewInt(2), new(big.Int).Sub(P, big.NewInt(1)), new(big.Int).Rsh(P, 1), big.NewInt(3)}
	c.Each("native path", len(ps), func(i int) string { return fmt.Sprintf("%+v", ps[i]) }, func(i int) string {
		k := ps[i]
		c.State(1)
		lf := new(big.Int).SetInt64(int64(k.dirs) + 5)
		if k.vals == 2 {
			lf = new(big.Int).Sub(P, big.NewInt(1))
		}
		want := new(big.Int).Set(lf)
		if k.hashed == 1 {
			h := nbn.NewMiMC()
			h.Write(bl(lf, 32))
			want.SetBytes(h.Sum(nil))
		}
		var sib []*big.Int
		for j := 0; j < k.d; j++ {
			s := big.NewInt(int64(j*7 + 1))
			switch {
			case k.vals == 1:
				s.Set(want)
			case k.vals == 2 && j%2 == 0:
				s = new(big.Int)
			}
			sib = append(sib, s)
			if k.dirs>>j&1 == 1 {
				want = h2(func() hash.Hash { return nbn.NewMiMC() }, 32, s, want)
			} else {
				want = h2(func() hash.Hash { return nbn.NewMiMC() }, 32, want, s)
			}
		}
		bads := badDir[:1]
		if k.bad >= 0 {
			bads = badDir
		}
		for _, bd := range bads {
			e := eng.New(P)
			var out F
			r := e.Run(func(api frontend.API) error {
				h, err := mimc.NewMiMC(api)
				if err != nil {
					return err
				}
				// whatever the caller hashed before must not matter
				h.Write(e.Val(11))
				dirs := make([]F, k.d+k.extra)
				for j := range dirs {
					dirs[j] = e.Val(int64(k.dirs >> j & 1))
					if j == k.bad {
						dirs[j] = e.Val(bd)
					}
				}
				sv := make([]F, k.d)
				for j := range sv {
					sv[j] = e.Val(sib[j])
				}
				if k.hashed == 1 {
					out = merkle.MerkleRootBasedOnMiMCHash(api, h, e.Val(lf), dirs, sv)
				} else {
					out = merkle.MerkleRootWithLeaveHash(api, h, e.Val(lf), dirs, sv)
				}
				return nil
			})
			c.Trans(int(e.Ops))
			if k.bad >= 0 || k.extra < 0 {
				if r.OK {
					return "accepted a direction that is not a bit, or too few directions"
				}
				continue
			}
			if !r.OK {
				return r.String()
			}
			if e.Big(out).Cmp(want) != 0 {
				return fmt.Sprintf("root %s, reference %s", e.Big(out).Text(16), want.Text(16))
			}
		}
		return ""
	})
	g := gk.New(P, 1+2+2, 1, func(api frontend.API, in []F) []F {
		h, _ := mimc.NewMiMC(api)
		return []F{merkle.MerkleRootBasedOnMiMCHash(api, h, in[0], in[1:3], in[3:])}
	})
	c.Each("native path gnark", 6, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		in := gk.Ints(77, int64(i&1), int64(i>>1&1), 5, 6)
		ok := i != 5
		if i == 4 {
			in[2] = big.NewInt(2)
			ok = false
		}
		out, r, _ := g.Eng(in)
		if i == 4 {
			if r.OK {
				return "accepted"
			}
		} else if !r.OK {
			return r.String()
		}
		if i == 5 {
			out[0] = new(big.Int).Xor(out[0], big.NewInt(1))
		}
		c.Trace(3)
		return g.Agree(in, out, ok, 0, 1, 2)
	})
}
