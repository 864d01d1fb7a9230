// C25: query identifiers.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/iden3/go-iden3-crypto/poseidon"

	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C25",
		Rule:        "for every kind of query and every number of log fields: a base query and every query that differs from it in one packed field, for every single bit of that field and its boundary values, and every exchange of two log fields; and every way for the log fields to repeat one another; the identifier must equal Poseidon over an independently built packing, and no two of all the queries explored of one kind may share one; values one bit too wide, negative or not a number, and too many log fields must be refused",
		Assumptions: []string{"iden3's Poseidon is the reference hash", "fields the packing leaves out (chain id, transaction hash, topic bytes after the sixth, ...) are not part of the identifier"},
	}, run)
}

// pk packs little-endian bit fields
type pk struct{ bits []byte }

func (p *pk) put(x *big.Int, n int) {
	if x.BitLen() > n {
		panic("harness: too wide")
	}
	for i := 0; i < n; i++ {
		p.bits = append(p.bits, byte(x.Bit(i)))
	}
}

func (p *pk) id() ([]byte, error) {
	var ws []*big.Int
	for i := 0; i < len(p.bits); i += 253 {
		x := new(big.Int)
		for k := 0; k < 253 && i+k < len(p.bits); k++ {
			x.SetBit(x, k, uint(p.bits[i+k]))
		}
		ws = append(ws, x)
	}
	h, err := poseidon.Hash(ws)
	if err != nil {
		return nil, err
	}
	return h.Bytes(), nil
}

// field of a query: width in bits
type field struct {
	name string
	w    int
}

// query kinds
type kind struct {
	name   string
	fields func(n int) []field
	call   func(v []*big.Int, n int) ([]byte, error)
}

func hex(x *big.Int, n int) string { return fmt.Sprintf("0x%0*x", 2*n, x) }

var kinds = []kind{
	{"receipt", func(n int) []field {
		f := []field{{"block", 32}, {"fee", 128}, {"key", 32}}
		for i := 0; i < n; i++ {
			for _, g := range []field{{"contract", 160}, {"log index", 16}, {"topic", 48}, {"flag", 1}, {"value index", 7}, {"value", 256}} {
				f = append(f, field{fmt.Sprintf("%s %d", g.name, i), g.w})
			}
		}
		return append(f, field{"time", 64})
	}, func(v []*big.Int, n int) ([]byte, error) {
		q := &proof.SDKQueryProvingInfoForReceipt{BlockNumber: v[0].Uint64(), BlockBaseFee: v[1].String(), MPTKey: hex(v[2], 4), BlockTime: v[len(v)-1].Uint64()}
		for i := 0; i < n; i++ {
			o := v[3+6*i:]
			// equal fields are equal in every letter, and half of the time the same object
			l := &proof.SDKQueryLogExtractInfo{ContractAddress: hex(o[0], 20), LogIndex: o[1].Uint64(), LogTopic0: hex(o[2], 6) + "ddccbbaa" + fmt.Sprintf("%044x", new(big.Int).Rsh(o[5], 80)), ValueFromTopic: o[3].Sign() > 0, ValueIndex: o[4].Uint64(), Value: hex(o[5], 32)}
			for _, e := range q.LogExtractInfos {
				if *e == *l && v[0].Bit(0) == 1 {
					l = e
				}
			}
			q.LogExtractInfos = append(q.LogExtractInfos, l)
		}
		return proof.MiMCHashReceiptCustomInputs(q)
	}},
	{"storage", func(n int) []field {
		return []field{{"block", 32}, {"fee", 128}, {"account", 160}, {"slot", 256}, {"value", 256}, {"time", 64}}
	}, func(v []*big.Int, n int) ([]byte, error) {
		return proof.MiMCHashStorageCustomInputs(&proof.SDKQueryProvingInfoForStorageSlot{BlockNumber: v[0].Uint64(), BlockBaseFee: hex(v[1], 16), AccountAddress: hex(v[2], 20), Slot: fmt.Sprintf("0x%x", v[3]), SlotValue: v[4].String(), BlockTime: v[5].Uint64()})
	}},
	{"transaction", func(n int) []field {
		return []field{{"block", 32}, {"fee", 128}, {"key", 32}, {"leaf", 256}, {"time", 64}}
	}, func(v []*big.Int, n int) ([]byte, error) {
		return proof.MiMCHashTxCustomInputs(&proof.SDKQueryProvingInfoForTransaction{BlockNumber: v[0].Uint64(), BlockBaseFee: v[1].String(), MPTKey: hex(v[2], 2), LeafHash: hex(v[3], 32), BlockTime: v[4].Uint64()})
	}},
}

type cas struct {
	k, n int
	name string
	v    []*big.Int
}

func base(k kind, n, salt int) (v []*big.Int) {
	for i, f := range k.fields(n) {
		x := new(big.Int)
		for b := 0; b < f.w; b++ {
			x.SetBit(x, b, uint((b*b+b/3+i*7+salt)>>1)&1)
		}
		v = append(v, x)
	}
	return
}

func call(k kind, v []*big.Int, n int) (id []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return k.call(v, n)
}

func run(c *mc.Ctx) {
	var cs []cas
	for ki, k := range kinds {
		maxN := 0
		if k.name == "receipt" {
			maxN = 7
		}
		for n := 0; n <= maxN; n++ {
			fs := k.fields(n)
			b := base(k, n, 0)
			cs = append(cs, cas{ki, n, "base", b})
			zero := make([]*big.Int, len(b))
			ones := make([]*big.Int, len(b))
			for i := range zero {
				zero[i] = new(big.Int)
				ones[i] = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(fs[i].w)), big.NewInt(1))
			}
			cs = append(cs, cas{ki, n, "zero", zero}, cas{ki, n, "ones", ones})
			for i, f := range fs {
				set := func(what string, x *big.Int) {
					if x.Cmp(b[i]) == 0 {
						return
					}
					v := append([]*big.Int{}, b...)
					v[i] = x
					cs = append(cs, cas{ki, n, f.name + " " + what, v})
				}
				step := 1
				if n > 1 && !c.Thorough() {
					step = 5
				}
				for bit := 0; bit < f.w; bit += step {
					x := new(big.Int).Set(b[i])
					set(fmt.Sprintf("bit %d", bit), x.SetBit(x, bit, x.Bit(bit)^1))
				}
				if f.w > 8 {
					set("zero", new(big.Int))
					set("all ones", ones[i])
					set("high byte cleared", new(big.Int).And(b[i], new(big.Int).Rsh(ones[i], 8)))
					set("one", big.NewInt(2))
				}
			}
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					v := append([]*big.Int{}, b...)
					for x := 0; x < 6; x++ {
						v[3+6*i+x], v[3+6*j+x] = v[3+6*j+x], v[3+6*i+x]
					}
					cs = append(cs, cas{ki, n, fmt.Sprintf("log fields %d and %d exchanged", j, i), v})
				}
			}
		}
	}
	// every way for log fields to repeat one another
	for n := 2; n <= mc.Pick(c, 6, 7); n++ {
		cls := make([]int, n)
		for {
			for odd := int64(0); odd < 2; odd++ {
				v := append([]*big.Int{}, base(kinds[0], n, 1)...)
				v[0] = big.NewInt(77000 + odd)
				for i := range cls {
					copy(v[3+6*i:9+6*i], v[3+6*cls[i]:9+6*cls[i]])
				}
				cs = append(cs, cas{0, n, fmt.Sprintf("log fields like %v, %d", cls, odd), v})
			}
			// the next restricted growth string
			i := n - 1
			for ; i > 0; i-- {
				m := 0
				for _, x := range cls[:i] {
					m = max(m, x)
				}
				if cls[i] <= m {
					break
				}
			}
			if i == 0 {
				break
			}
			cls[i]++
			for j := i + 1; j < n; j++ {
				cls[j] = 0
			}
		}
	}
	var mu sync.Mutex
	seen := map[string]string{}
	name := func(i int) string { return fmt.Sprintf("%s with %d: %s", kinds[cs[i].k].name, cs[i].n, cs[i].name) }
	full := func(i int) string { return fmt.Sprint(cs[i].k, cs[i].n, cs[i].v) }
	c.Each("identifiers", len(cs), name, func(i int) string {
		k := kinds[cs[i].k]
		c.State(1)
		c.Trace(1)
		c.Trans(len(cs[i].v))
		id, err := call(k, cs[i].v, cs[i].n)
		if err != nil {
			return err.Error()
		}
		var p pk
		for j, f := range k.fields(cs[i].n) {
			p.put(cs[i].v[j], f.w)
		}
		want, err := p.id()
		if err != nil {
			panic(err)
		}
		if !bytes.Equal(id, want) {
			return fmt.Sprintf("identifier %x, packing hashes to %x", id, want)
		}
		mu.Lock()
		key := k.name + string(id)
		o, dup := seen[key]
		if !dup {
			seen[key] = full(i)
		}
		mu.Unlock()
		if dup && o != full(i) {
			return "the same identifier as another query"
		}
		id2, err := call(k, cs[i].v, cs[i].n)
		if err != nil || !bytes.Equal(id, id2) {
			return "the same query gives another identifier"
		}
		return ""
	})
	// refused
	type bad struct {
		name string
		f    func() ([]byte, error)
	}
	var bads []bad
	add := func(name string, f func() ([]byte, error)) { bads = append(bads, bad{name, f}) }
	over := func(w int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }
	for ki, k := range kinds {
		k := k
		_ = ki
		n := 0
		if k.name == "receipt" {
			n = 2
		}
		for i, f := range k.fields(n) {
			if f.w == 1 || f.w == 64 {
				continue
			}
			for _, d := range []int64{0, 1} {
				if f.w >= 256 && strings.HasPrefix(f.name, "value") && k.name != "storage" || f.w == 48 {
					continue // given as hex: the wider string is made below
				}
				v := base(k, n, 0)
				v[i] = new(big.Int).Add(over(f.w), big.NewInt(d))
				add(fmt.Sprintf("%s %s 2^%d+%d", k.name, f.name, f.w, d), func() ([]byte, error) { return k.call(v, n) })
			}
		}
	}
	rc := func() *proof.SDKQueryProvingInfoForReceipt {
		return &proof.SDKQueryProvingInfoForReceipt{BlockBaseFee: "1", MPTKey: "0x80", LogExtractInfos: []*proof.SDKQueryLogExtractInfo{{ContractAddress: hex(big.NewInt(1), 20), LogTopic0: hex(big.NewInt(1), 32), Value: "0x01"}}}
	}
	st := func() *proof.SDKQueryProvingInfoForStorageSlot {
		return &proof.SDKQueryProvingInfoForStorageSlot{BlockBaseFee: "1", AccountAddress: hex(big.NewInt(1), 20), Slot: "0x1", SlotValue: "7"}
	}
	tr := func() *proof.SDKQueryProvingInfoForTransaction {
		return &proof.SDKQueryProvingInfoForTransaction{BlockBaseFee: "1", MPTKey: "0x80", LeafHash: hex(big.NewInt(1), 32)}
	}
	for _, fee := range []string{"-1", "-5", "-340282366920938463463374607431768211455", "x", "", "1.5", "0x"} {
		fee := fee
		add("receipt fee "+fee, func() ([]byte, error) { q := rc(); q.BlockBaseFee = fee; return proof.MiMCHashReceiptCustomInputs(q) })
		add("storage fee "+fee, func() ([]byte, error) { q := st(); q.BlockBaseFee = fee; return proof.MiMCHashStorageCustomInputs(q) })
		add("transaction fee "+fee, func() ([]byte, error) { q := tr(); q.BlockBaseFee = fee; return proof.MiMCHashTxCustomInputs(q) })
		add("receipt key "+fee, func() ([]byte, error) { q := rc(); q.MPTKey = fee; return proof.MiMCHashReceiptCustomInputs(q) })
		add("transaction key "+fee, func() ([]byte, error) { q := tr(); q.MPTKey = fee; return proof.MiMCHashTxCustomInputs(q) })
		add("storage account "+fee, func() ([]byte, error) { q := st(); q.AccountAddress = fee; return proof.MiMCHashStorageCustomInputs(q) })
	}
	for _, v := range []string{"-1", "-7", "x", "", "0x7", "1.5", "7 ", over(256).String()} {
		v := v
		add("slot value "+v, func() ([]byte, error) { q := st(); q.SlotValue = v; return proof.MiMCHashStorageCustomInputs(q) })
	}
	for _, v := range []string{hex(over(256), 33), "0x00" + fmt.Sprintf("%064x", 1), "0x1g", "12", ""} {
		v := v
		if v != "0x1g" && v != "12" && v != "" {
			add("slot "+v, func() ([]byte, error) { q := st(); q.Slot = v; return proof.MiMCHashStorageCustomInputs(q) })
			add("leaf "+v, func() ([]byte, error) { q := tr(); q.LeafHash = v; return proof.MiMCHashTxCustomInputs(q) })
		}
		add("log value "+v, func() ([]byte, error) {
			q := rc()
			q.LogExtractInfos[0].Value = v
			return proof.MiMCHashReceiptCustomInputs(q)
		})
		add("contract "+v, func() ([]byte, error) {
			q := rc()
			q.LogExtractInfos[0].ContractAddress = v
			if v == "0x00"+fmt.Sprintf("%064x", 1) {
				q.LogExtractInfos[0].ContractAddress = hex(over(160), 21)
			}
			return proof.MiMCHashReceiptCustomInputs(q)
		})
	}
	for _, v := range []string{"", "0x", "0x0102030405", "zz"} {
		v := v
		add("topic "+v, func() ([]byte, error) {
			q := rc()
			q.LogExtractInfos[0].LogTopic0 = v
			return proof.MiMCHashReceiptCustomInputs(q)
		})
	}
	for _, v := range []uint64{1 << 32, 1<<32 + 1, 1 << 63, 1<<64 - 1} {
		v := v
		add(fmt.Sprint("receipt block ", v), func() ([]byte, error) { q := rc(); q.BlockNumber = v; return proof.MiMCHashReceiptCustomInputs(q) })
		add(fmt.Sprint("storage block ", v), func() ([]byte, error) { q := st(); q.BlockNumber = v; return proof.MiMCHashStorageCustomInputs(q) })
		add(fmt.Sprint("transaction block ", v), func() ([]byte, error) { q := tr(); q.BlockNumber = v; return proof.MiMCHashTxCustomInputs(q) })
		add(fmt.Sprint("log index ", v), func() ([]byte, error) {
			q := rc()
			q.LogExtractInfos[0].LogIndex = v
			return proof.MiMCHashReceiptCustomInputs(q)
		})
		add(fmt.Sprint("value index ", v), func() ([]byte, error) {
			q := rc()
			q.LogExtractInfos[0].ValueIndex = v
			return proof.MiMCHashReceiptCustomInputs(q)
		})
	}
	for n := 8; n < 20; n++ {
		n := n
		add(fmt.Sprintf("%d log fields", n), func() ([]byte, error) { return kinds[0].call(base(kinds[0], n, 0), n) })
	}
	c.Each("refused", len(bads), func(i int) string { return bads[i].name }, func(i int) (m string) {
		c.State(1)
		defer func() {
			if recover() != nil {
				m = "" // refused
			}
		}()
		id, err := bads[i].f()
		if err == nil {
			return fmt.Sprintf("got identifier %x", id)
		}
		return ""
	})
	// the plain queries above are accepted
	c.One("refused", "well-formed", func() string {
		if _, err := proof.MiMCHashReceiptCustomInputs(rc()); err != nil {
			return err.Error()
		}
		if _, err := proof.MiMCHashStorageCustomInputs(st()); err != nil {
			return err.Error()
		}
		if _, err := proof.MiMCHashTxCustomInputs(tr()); err != nil {
			return err.Error()
		}
		return ""
	})
}
