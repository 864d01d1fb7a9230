// C06: the leaf, extension and branch node checks.
package main

import (
	"fmt"
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mc"
	"verif/harness/rlpref"
	"verif/harness/trie"
)

type F = frontend.Variable

var P = ecc.BN254.ScalarField()

const (
	kMax = 64
	vMax = 66
	lMax = 4 + kMax + 2 + 4 + vMax
	eMax = 4 + kMax + 2 + 2 + 64
)

func main() {
	mc.Main(mc.Meta{Prop: "C06",
		Rule:        "every key-fragment length and parity, every value/reference length class, every child index; for each node the genuine claim and every single alteration (each RLP header byte, each hex-prefix high nibble, parity witness, first/middle/last key nibble, reference or value nibble, each claimed length, child index incl. out of range); verdict compared with a reference decoder of the node",
		Assumptions: []string{"inputs are nibbles", "a child that is itself a list is compared by its payload, as the decoder hands it out"},
	}, run)
}

func nib(b []byte) (r []int) {
	for _, x := range b {
		r = append(r, int(x>>4), int(x&15))
	}
	return
}

func pad(d []int, n, f int) []int {
	r := append([]int{}, d...)
	for len(r) < n {
		r = append(r, f)
	}
	return r[:n]
}

func bytesOf(n []int) []byte {
	r := make([]byte, len(n)/2)
	for i := range r {
		r[i] = byte(n[2*i]<<4 | n[2*i+1])
	}
	return r
}

func vals(e *eng.Engine, d []int) (r []F) {
	for _, x := range d {
		r = append(r, e.Val(x))
	}
	return
}

func hp(frag []int, flag int) []byte {
	n := []int{flag, 0}
	if len(frag)%2 == 1 {
		n = []int{flag + 1}
	}
	return bytesOf(append(n, frag...))
}

func frag(n, s int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = (i*s + 3*s + i*i) % 16
	}
	return r
}

func seq(n, s int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(i*29 + s*17 + 1)
	}
	return r
}

// two is a claim about a two-item node.
type two struct {
	name   string
	node   []int // nibbles, padded
	key    []int // padded
	klen   int
	plen   int
	ref    []int // value or reference, padded
	rlen   int
	honest bool
}

func eq(a, b []int) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func run(c *mc.Ctx) {
	vlens := []int{0, 1, 2, 20, 31, 32, 33}
	step := mc.Pick(c, 3, 1)
	var leaves, exts []two
	muts := func(base two, add func(two)) {
		base.honest = true
		add(base)
		m := func(name string, f func(t *two)) {
			t := base
			t.honest = false
			t.node = append([]int{}, base.node...)
			t.key = append([]int{}, base.key...)
			t.ref = append([]int{}, base.ref...)
			t.name = base.name + " " + name
			f(&t)
			add(t)
		}
		for _, d := range []int{-2, -1, 1, 2} {
			d := d
			m(fmt.Sprintf("klen%+d", d), func(t *two) { t.klen += d })
			m(fmt.Sprintf("rlen%+d", d), func(t *two) { t.rlen += d })
		}
		for p := 0; p <= 3; p++ {
			p := p
			if p != base.plen {
				m(fmt.Sprintf("plen=%d", p), func(t *two) { t.plen = p })
				m(fmt.Sprintf("plen=%d klen adjusted", p), func(t *two) { t.plen = p; t.klen += base.plen - p })
			}
		}
		for _, i := range []int{0, base.klen / 2, base.klen - 1, base.klen} {
			i := i
			if i >= 0 && i < kMax {
				m(fmt.Sprintf("key[%d]", i), func(t *two) { t.key[i] ^= 5 })
			}
		}
		for _, i := range []int{0, 1, base.rlen / 2, base.rlen - 1, base.rlen} {
			i := i
			if i >= 0 && i < len(base.ref) {
				m(fmt.Sprintf("ref[%d]", i), func(t *two) { t.ref[i] ^= 9 })
			}
		}
		m("zero value", func(t *two) { t.ref = pad([]int{8, 0}, len(t.ref), 0) })
		m("zero value, other key", func(t *two) { t.ref = pad([]int{8, 0}, len(t.ref), 0); t.key[0] ^= 1 })
		m("all-zero value, other key", func(t *two) { t.ref = pad(nil, len(t.ref), 0); t.key[0] ^= 1 })
		m("8000..01 value, other key", func(t *two) { t.ref = pad([]int{8, 0}, len(t.ref), 0); t.ref[len(t.ref)-1] = 1; t.key[0] ^= 1 })
		// every structural byte of the node
		for pos := 0; pos < 10; pos++ {
			pos := pos
			for _, v := range []int{1, 15} {
				v := v
				m(fmt.Sprintf("node[%d]+%d", pos, v), func(t *two) { t.node[pos] = (t.node[pos] + v) % 16 })
			}
		}
		last := len(base.node) - 1
		_ = last
	}
	parities := func(n int) [][]int { return [][]int{frag(n, 3), frag(n, 7)} }
	for n := 0; n <= kMax; n++ {
		if n > 6 && n < 58 && n%step != 0 {
			continue
		}
		for vi, vl := range vlens {
			for fi, f := range parities(n) {
				if fi > 0 && (n == 0 || vi%3 != 0) {
					continue
				}
				v := seq(vl, n)
				if vl == 1 && n%2 == 0 {
					v[0] = 7
				}
				pl := 2 - n%2
				node := trie.RLPList(trie.RLPStr(hp(f, 2)), trie.RLPStr(v))
				if 2*len(node) <= lMax {
					base := two{name: fmt.Sprintf("leaf frag=%d/%d value=%d", n, fi, vl), node: pad(nib(node), lMax, 0), key: pad(f, kMax, 0), klen: n, plen: pl, ref: pad(nib(v), vMax, 0), rlen: 2 * vl}
					if n%2 == 1 {
						base.key = pad(f, kMax, 11) // what follows the fragment must not matter
					}
					muts(base, func(t two) { leaves = append(leaves, t) })
					// an extension where a leaf is expected
					t := base
					t.name += " ext-flag"
					t.node = pad(nib(trie.RLPList(trie.RLPStr(hp(f, 0)), trie.RLPStr(v))), lMax, 0)
					leaves = append(leaves, t)
				}
				if vl <= 32 {
					en := trie.RLPList(trie.RLPStr(hp(f, 0)), trie.RLPStr(v))
					if 2*len(en) <= eMax {
						base := two{name: fmt.Sprintf("ext frag=%d/%d ref=%d", n, fi, vl), node: pad(nib(en), eMax, 0), key: pad(f, kMax, 0), klen: n, plen: pl, ref: pad(nib(v), 64, 0), rlen: 2 * vl}
						muts(base, func(t two) { exts = append(exts, t) })
						t := base
						t.name += " leaf-flag"
						t.node = pad(nib(trie.RLPList(trie.RLPStr(hp(f, 2)), trie.RLPStr(v))), eMax, 0)
						exts = append(exts, t)
					}
				}
			}
		}
	}
	lc := mpt.NewMPTLeafCheck(kMax, vMax)
	xc := mpt.NewMPTExtensionCheck(kMax, 64)
	// parsed says whether the claim is right (reference)
	right := func(t two, leaf bool) bool {
		d := rlpref.Parse(bytesOf(t.node), 2, false)
		if !d.OK {
			return false
		}
		path, val := nib(d.F[0].Content), nib(d.F[1].Content)
		flag := 0
		if leaf {
			flag = 2
		}
		switch t.plen {
		case 1:
			if len(path) < 1 || path[0] != flag+1 {
				return false
			}
		case 2:
			if len(path) < 2 || path[0] != flag || path[1] != 0 {
				return false
			}
		default:
			return false
		}
		f := path[t.plen:]
		km := eq(f, t.key)
		if leaf && eq(append([]int{8}, make([]int, 65)...), t.ref) && !km {
			return true // exclusion: another key's leaf
		}
		if !km || len(f) != t.klen {
			return false
		}
		if !eq(val, t.ref) {
			return false
		}
		return leaf || len(val) == t.rlen
	}
	judge := func(t two, leaf bool) string {
		e := eng.New(P)
		var o F
		r := e.Run(func(api frontend.API) error {
			if leaf {
				res := lc.CheckLeaf(api, e.Val(t.klen), vals(e, t.key), vals(e, t.ref), vals(e, t.node), e.Val(t.plen))
				cr := res.GetResult()
				o = cr.GetOutput()
			} else {
				res := xc.CheckExtension(api, e.Val(t.klen), vals(e, t.key), e.Val(t.rlen), vals(e, t.ref), vals(e, t.node), e.Val(t.plen))
				o = res.GetOutput()
			}
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if r.Panic != "" {
			return r.String()
		}
		acc := r.OK && e.Big(o).Cmp(big.NewInt(4)) == 0
		w := right(t, leaf)
		if t.honest && !w {
			return "reference refuses its own node"
		}
		if acc && !w {
			return "accepted a wrong claim"
		}
		if t.honest && !acc {
			return fmt.Sprintf("genuine node refused: %v", r)
		}
		if w && r.OK && !acc {
			return "right claim refused"
		}
		return ""
	}
	c.Each("leaf", len(leaves), func(i int) string { return leaves[i].name }, func(i int) string { return judge(leaves[i], true) })
	c.Each("extension", len(exts), func(i int) string { return exts[i].name }, func(i int) string { return judge(exts[i], false) })

	// branches
	type br struct {
		name string
		node []int
		idx  int
		ref  []int
		rlen int
	}
	type shape struct {
		n  string
		ch [17][]byte
	}
	var shapes []shape
	sh := func(n string, f func(i int) []byte) {
		s := shape{n: n}
		for i := range s.ch {
			if i < 16 {
				s.ch[i] = f(i)
			}
		}
		shapes = append(shapes, s)
	}
	sh("full", func(i int) []byte { return seq(32, i) })
	sh("even", func(i int) []byte {
		if i%2 == 0 {
			return seq(32, i)
		}
		return nil
	})
	sh("odd", func(i int) []byte {
		if i%2 == 1 {
			return seq(32, i)
		}
		return nil
	})
	for k := 0; k < 16; k++ {
		k := k
		if !c.Thorough() && k%5 != 0 {
			continue
		}
		sh(fmt.Sprintf("ends%d", k), func(i int) []byte {
			if i == k || i == (k+7)%16 {
				return seq(32, i+3)
			}
			return nil
		})
		sh(fmt.Sprintf("allbut%d", k), func(i int) []byte {
			if i != k {
				return seq(32, i+1)
			}
			return nil
		})
	}
	sh("equal", func(i int) []byte { return seq(32, 5) })
	var brs []br
	for _, s := range shapes {
		var items [][]byte
		for _, x := range s.ch {
			items = append(items, trie.RLPStr(x))
		}
		node := pad(nib(trie.RLPList(items...)), mpt.MaxBranchNodeRlpHexLen, 0)
		for i := 0; i < 16; i++ {
			if !c.Thorough() && i%3 == 1 && s.n != "full" {
				continue
			}
			add := func(n string, nd []int, idx int, ref []byte, rlen int) {
				brs = append(brs, br{s.n + " " + n, nd, idx, pad(nib(ref), 64, 0), rlen})
			}
			add(fmt.Sprintf("child %d", i), node, i, s.ch[i], 2*len(s.ch[i]))
			add(fmt.Sprintf("child %d as next", i), node, i, s.ch[(i+1)%16], 2*len(s.ch[(i+1)%16]))
			if len(s.ch[i]) > 0 {
				for _, b := range []int{0, 15, 31} {
					x := append([]byte{}, s.ch[i]...)
					x[b] ^= 1
					add(fmt.Sprintf("child %d byte %d", i, b), node, i, x, 64)
				}
				add(fmt.Sprintf("child %d short", i), node, i, s.ch[i], 62)
				add(fmt.Sprintf("child %d as empty", i), node, i, nil, 0)
			}
			if i%5 == 0 {
				for _, p := range []int{0, 1, 2, 5, 6, 7} {
					x := append([]int{}, node...)
					x[p] = (x[p] + 1) % 16
					add(fmt.Sprintf("child %d node[%d]", i, p), x, i, s.ch[i], 2*len(s.ch[i]))
				}
			}
		}
		brs = append(brs, br{s.n + " child 16", node, 16, pad(nil, 64, 0), 0}, br{s.n + " child 17", node, 17, pad(nil, 64, 0), 0})
	}
	bc := mpt.NewMPTBranchCheck(64)
	c.Each("branch", len(brs), func(i int) string { return brs[i].name }, func(i int) string {
		t := brs[i]
		d := rlpref.Parse(bytesOf(t.node), 17, false)
		w := d.OK && t.idx < 16 && eq(nib(d.F[t.idx%17].Content), t.ref) && len(d.F[t.idx%17].Content)*2 == t.rlen
		e := eng.New(P)
		var o F
		r := e.Run(func(api frontend.API) error {
			res := bc.CheckBranch(api, e.Val(t.idx), e.Val(t.rlen), vals(e, t.ref), vals(e, t.node))
			o = res.GetOutput()
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if r.Panic != "" {
			return r.String()
		}
		acc := r.OK && e.Big(o).Cmp(big.NewInt(4)) == 0
		if acc != w {
			return fmt.Sprintf("claim right=%v accepted=%v %v", w, acc, r)
		}
		if t.idx > 15 {
			return ""
		}
		// exclusion at a branch
		e = eng.New(P)
		r = e.Run(func(api frontend.API) error {
			o = bc.CheckBranchForNonExistence(api, e.Val(t.idx), vals(e, t.node))
			return nil
		})
		c.State(1)
		c.Trans(int(e.Ops))
		if r.Panic != "" {
			return r.String()
		}
		acc = r.OK && e.Big(o).Cmp(big.NewInt(1)) == 0
		if w := d.OK && len(d.F[t.idx].Content) == 0; acc != w {
			return fmt.Sprintf("exclusion: child empty=%v accepted=%v %v", w, acc, r)
		}
		return ""
	})
	// conformance on gnark
	gl := gk.New(P, lMax+kMax+vMax+2, 1, func(api frontend.API, in []F) []F {
		l := mpt.NewMPTLeafCheck(kMax, vMax)
		r := l.CheckLeaf(api, in[0], in[2:2+kMax], in[2+kMax:2+kMax+vMax], in[2+kMax+vMax:], in[1])
		x := r.GetResult()
		return []F{x.GetOutput()}
	})
	var tr []two
	for i := 0; i < len(leaves); i += len(leaves)/40 + 1 {
		tr = append(tr, leaves[i])
	}
	c.Each("bn254 conformance", len(tr), func(i int) string { return tr[i].name }, func(i int) string {
		t := tr[i]
		in := gk.Ints(int64(t.klen), int64(t.plen))
		for _, d := range [][]int{t.key, t.ref, t.node} {
			for _, x := range d {
				in = append(in, big.NewInt(int64(x)))
			}
		}
		if t.klen < 0 {
			in[0].Mod(in[0], P)
		}
		out, r, e := gl.Eng(in)
		c.State(1)
		c.Trans(int(e.Ops))
		if m := gl.Agree(in, out, r.OK, 0, 1, 2); m != "" {
			return m
		}
		c.Trace(3)
		return ""
	})
}
