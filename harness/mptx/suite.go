package mptx

import (
	"fmt"

	"verif/harness/mc"
	"verif/harness/trie"
)

// Shapes under exploration.
func Shapes(thorough bool, maxVal int) []Shape {
	k, v := Key, Val
	s := []Shape{
		{Name: "L", KVs: []trie.KV{{k(1, 1), v(1, 3)}}, Keys: [][]byte{k(2, 3), k(1, 2)}, Depth: 3, UpTo: 2},
		{Name: "BL", KVs: []trie.KV{{k(1, 1), v(1, 3)}, {k(2, 2), v(2, maxVal)}}, Keys: [][]byte{k(3, 3), k(4, 1)}, Depth: 3, UpTo: 3},
		{Name: "EBL", KVs: []trie.KV{{k(1, 5, 6, 1), v(1, 3)}, {k(2, 5, 6, 2), v(2, 32)}}, Keys: [][]byte{k(3, 5, 6, 3), k(4, 5, 6, 1), k(5, 7), k(9, 5, 7)}, Depth: 3, UpTo: 3},
		{Name: "BBL", KVs: []trie.KV{{k(1, 5, 1), v(1, 3)}, {k(2, 5, 2), v(2, 1)}, {k(3, 6), v(3, 4)}}, Keys: [][]byte{k(4, 5, 3), k(5, 5, 1), k(6, 7)}, Depth: 4, UpTo: 3},
		{Name: "E1BL", KVs: []trie.KV{{k(1, 5, 1), v(1, 3)}, {k(2, 5, 2), v(2, 1)}}, Keys: [][]byte{k(4, 5, 3), k(6, 7)}, Depth: 3, UpTo: 2},
		{Name: "BEBL", KVs: []trie.KV{{k(1, 3, 5, 6, 7, 1), v(1, 3)}, {k(2, 3, 5, 6, 7, 2), v(2, 1)}, {k(3, 4), v(4, 2)}}, Keys: [][]byte{k(4, 3, 5, 6, 7, 9), k(5, 3, 5, 6, 8), k(6, 3, 1)}, Depth: 4, UpTo: 1},
	}
	// two extensions whose fragments still fit when one is claimed longer and the other shorter
	rest := k(1)[:58]
	pre := func(p ...byte) []byte { return append(append(p, rest...), 9, 9)[:64] }
	ee := Shape{Name: "EBEBL", KVs: []trie.KV{{pre(5, 5, 5, 5, 5, 5), v(1, 3)}, {k(2, 5, 5, 5, 5, 5, 6), v(2, 1)}, {k(3, 5, 5, 7), v(4, 2)}}, Depth: 5, UpTo: 7, Frags: 2}
	for i := 0; i < 6; i++ {
		p := []byte{5, 5, 5, 5, 5, 5}
		p[i] = 9
		ee.Keys = append(ee.Keys, pre(p...))
	}
	ee.Keys = append(ee.Keys, pre(5, 5, 9, 5, 5, 5, 5), pre(5, 5, 5, 5, 5, 9, 5), pre(5, 5, 5, 5, 5))
	s = append(s, ee)
	// a long shared prefix
	a, b := k(1, 1), k(1, 1)
	b[62] ^= 1
	d, e := k(1, 1), k(1, 1)
	d[62] ^= 2
	e[40] ^= 1
	s = append(s, Shape{Name: "E62BL", KVs: []trie.KV{{a, v(1, 32)}, {b, v(2, 32)}}, Keys: [][]byte{d, e}, Depth: 3, UpTo: 0})
	// a deep trie that fills every level
	var kv []trie.KV
	p := []byte{}
	for i := 0; i < 6; i++ {
		kv = append(kv, trie.KV{K: k(20+i, append(append([]byte{}, p...), byte(i+1))...), V: v(byte(i), i+1)})
		p = append(p, byte(9+i))
	}
	kv = append(kv, trie.KV{K: k(30, p...), V: v(9, 9)})
	s = append(s, Shape{Name: "B6L", KVs: kv, Keys: [][]byte{k(31, append(append([]byte{}, p[:5]...), 0)...)}, Depth: 7, UpTo: -1})
	return s
}

// Claims about a trie: true and false ones.
func Claims(s Shape, root *trie.Node, zero bool) []Claim {
	var cls []Claim
	add := func(key, val []byte) {
		cls = append(cls, Claim{Key: key, Value: val, True: Truth(root, key, val)})
	}
	for i, kv := range s.KVs {
		if zero {
			add(kv.K, Zero)
			continue
		}
		add(kv.K, kv.V)
		if len(s.KVs) > 1 {
			add(kv.K, s.KVs[(i+1)%len(s.KVs)].V)
		}
		add(kv.K, Val(99, 3))
	}
	for _, key := range s.Keys {
		if zero {
			add(key, Zero)
			continue
		}
		add(key, Val(7, 5))
		add(key, s.KVs[0].V)
	}
	return cls
}

// Judge runs one witness and decides.
func Judge(c *mc.Ctx, f Found) string {
	o := Run(f.W)
	c.Trans(int(o.Ops))
	if f.Exp && !o.Accept() {
		return "genuine proof not accepted: " + o.String()
	}
	if f.Exp && len(f.W.Last) > 0 && f.WantLen >= 0 && o.ValueLen != int64(f.WantLen) {
		return fmt.Sprintf("value length %d reported, the leaf holds %d: %s", o.ValueLen, f.WantLen, o)
	}
	if !f.Claim.True && o.Accept() {
		return "false claim accepted: " + o.String()
	}
	if o.R.Panic != "" {
		return o.String()
	}
	return ""
}

// Deviations lists all witnesses that differ from w in one integer input.
func Deviations(w W) (out []W, desc []string) {
	add := func(d string, f func(*W)) {
		x := w.Clone()
		f(&x)
		out = append(out, x)
		desc = append(desc, d)
	}
	for d := 0; d <= w.MaxDepth+1; d++ {
		if d != w.Depth {
			add(fmt.Sprintf("depth=%d", d), func(x *W) { x.Depth = d })
		}
	}
	for r := 0; r <= 2; r++ {
		if r != w.LastRound {
			add(fmt.Sprintf("lastRound=%d", r), func(x *W) { x.LastRound = r })
		}
	}
	for p := 0; p <= 3; p++ {
		if p != w.LastPrefix {
			add(fmt.Sprintf("lastPrefix=%d", p), func(x *W) { x.LastPrefix = p })
		}
	}
	for i := range w.Types {
		for t := 0; t <= 2; t++ {
			if t != w.Types[i] {
				add(fmt.Sprintf("type%d=%d", i, t), func(x *W) { x.Types[i] = t })
			}
		}
		for p := 0; p <= 3; p++ {
			if p != w.Prefix[i] {
				add(fmt.Sprintf("prefix%d=%d", i, p), func(x *W) { x.Prefix[i] = p })
			}
		}
		for r := 0; r <= 2; r++ {
			if r != w.Rounds[i] {
				add(fmt.Sprintf("round%d=%d", i, r), func(x *W) { x.Rounds[i] = r })
			}
		}
	}
	for i := range w.Starts {
		for _, st := range []int{0, 1, 2, 3, 62, 63, 64, 65} {
			if st != w.Starts[i] {
				add(fmt.Sprintf("start%d=%d", i, st), func(x *W) { x.Starts[i] = st })
			}
		}
	}
	return
}
