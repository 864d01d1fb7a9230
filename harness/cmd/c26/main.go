// C26: proof payloads and their encodings.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	groth16_bn254 "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C26",
		Rule:        "chunk proofs with every field and every pair of fields at every boundary value and hex form, encoded and compared with the eighteen words built independently; Groth16 proofs and their big-integer, contract and comma-list exports at every coordinate; every payload type through JSON with each field set in turn; every ABI type shape of the codec with every array length up to the bound against an independent encoder, both ways, and every truncation of the data; overlong and malformed hex must be refused",
		Assumptions: []string{"an empty hex string stands for zero (unset field)", "codec arguments lie in the range of their ABI type"},
	}, run)
}

type hv struct {
	name, s string
	v       *big.Int
	bad     bool
}

func ones(n int) string { return strings.Repeat("f", n) }

var p254, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)

func values() (r []hv) {
	add := func(n, s string) {
		b := strings.TrimPrefix(strings.TrimPrefix(s, "0x"), "0X")
		v, ok := new(big.Int).SetString("0"+b, 16)
		if !ok {
			panic(s)
		}
		r = append(r, hv{n, s, v, false})
	}
	add("empty", "")
	add("0x", "0x")
	add("0x0", "0x0")
	add("odd", "0x1")
	add("odd long", "0x"+"5"+strings.Repeat("a7", 31))
	add("no prefix", strings.Repeat("9c", 32))
	add("upper prefix", "0X"+strings.Repeat("AB", 32))
	add("16 bytes", "0x"+strings.Repeat("e1", 16))
	add("17 bytes", "0x01"+strings.Repeat("00", 16))
	add("31 bytes", "0x"+ones(62))
	add("leading zeros", "0x"+strings.Repeat("00", 31)+"80")
	add("max", "0x"+ones(64))
	add("p-1", "0x"+new(big.Int).Sub(p254, big.NewInt(1)).Text(16))
	add("low half", "0x"+strings.Repeat("00", 16)+strings.Repeat("d3", 16))
	add("high half", "0x"+strings.Repeat("d3", 16)+strings.Repeat("00", 16))
	return
}
func bads() (r []hv) {
	for _, s := range []string{"0x01" + strings.Repeat("00", 32), "0x" + ones(66), "0x1" + ones(64), ones(128), "zz", "0xzz", "0x1g", "0x12 ", " 0x12", "0x12,34", "0x" + ones(62) + "xy", "0x0x12"} {
		r = append(r, hv{"bad " + s, s, nil, true})
	}
	return
}

var nums = []uint64{0, 1, 127, 128, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}

const nHex = 11 // eight proof words and three hashes
func fields(p *proof.ChunkProof) []*string {
	return []*string{&p.Proof.A[0], &p.Proof.A[1], &p.Proof.B[0][0], &p.Proof.B[0][1], &p.Proof.B[1][0], &p.Proof.B[1][1], &p.Proof.C[0], &p.Proof.C[1], &p.ChunkRoot, &p.PrevHash, &p.EndHash}
}

type edit struct {
	f int
	v hv
	n uint64
}

func (e edit) String() string {
	if e.f >= nHex {
		return fmt.Sprintf("number %d = %d", e.f-nHex, e.n)
	}
	return fmt.Sprintf("field %d = %s", e.f, e.v.name)
}
func chunk(es ...edit) (p *proof.ChunkProof, want []byte) {
	p = &proof.ChunkProof{StartBlockNum: 256, EndBlockNum: 383}
	var vs []*big.Int
	for i, f := range fields(p) {
		h := crypto.Keccak256([]byte{byte(i)})
		*f = "0x" + hex.EncodeToString(h)
		vs = append(vs, new(big.Int).SetBytes(h))
	}
	for _, e := range es {
		switch {
		case e.f < nHex:
			*fields(p)[e.f] = e.v.s
			vs[e.f] = e.v.v
		case e.f == nHex:
			p.StartBlockNum = e.n
		default:
			p.EndBlockNum = e.n
		}
	}
	for _, e := range es {
		if e.v.bad {
			return p, nil
		}
	}
	word := func(x *big.Int) { want = append(want, x.FillBytes(make([]byte, 32))...) }
	for i := 0; i < 8; i++ {
		word(vs[i])
	}
	word(new(big.Int))
	word(new(big.Int))
	for i := 8; i < nHex; i++ {
		word(new(big.Int).Rsh(vs[i], 128))
		word(new(big.Int).And(vs[i], new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1))))
	}
	word(new(big.Int).SetUint64(p.StartBlockNum))
	word(new(big.Int).SetUint64(p.EndBlockNum))
	return
}

func try(f func()) (e string) {
	defer func() {
		if r := recover(); r != nil {
			e = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return
}

func run(c *mc.Ctx) {
	var es []edit
	for f := 0; f < nHex; f++ {
		for _, v := range values() {
			es = append(es, edit{f: f, v: v})
		}
	}
	for f := nHex; f < nHex+2; f++ {
		for _, n := range nums {
			es = append(es, edit{f: f, n: n})
		}
	}
	type pr struct{ a, b int }
	var prs []pr
	for a := range es {
		prs = append(prs, pr{a, a})
		for b := a + 1; b < len(es); b++ {
			if es[a].f != es[b].f {
				prs = append(prs, pr{a, b})
			}
		}
	}
	c.Each("chunk proofs", len(prs), func(i int) string { return fmt.Sprint(es[prs[i].a], "; ", es[prs[i].b]) }, func(i int) string {
		p, want := chunk(es[prs[i].a], es[prs[i].b])
		was := *p
		c.State(1)
		c.Trans(18)
		c.Trace(1)
		var got []byte
		if m := try(func() { got = p.EncodeABI() }); m != "" {
			return m
		}
		if !bytes.Equal(got, want) {
			return fmt.Sprintf("encoded %x, want %x", got, want)
		}
		if *p != was {
			return "the proof was changed"
		}
		for j := range got {
			got[j] ^= 0xff
		}
		if again := p.EncodeABI(); !bytes.Equal(again, want) {
			return "a second encoding differs"
		}
		return ""
	})
	bd := bads()
	c.Each("chunk proofs refused", nHex*len(bd), func(i int) string { return edit{f: i / len(bd), v: bd[i%len(bd)]}.String() }, func(i int) string {
		p, _ := chunk(edit{f: i / len(bd), v: bd[i%len(bd)]})
		c.State(1)
		var got []byte
		if m := try(func() { got = p.EncodeABI() }); m == "" {
			return fmt.Sprintf("encoded as %x", got)
		}
		return ""
	})
	groth(c)
	payloads(c)
	codec(c)
}

func groth(c *mc.Ctx) {
	vs := values()
	at := func(p *proof.Groth16Proof, i int) *string {
		return []*string{&p.A[0], &p.A[1], &p.B[0][0], &p.B[0][1], &p.B[1][0], &p.B[1][1], &p.C[0], &p.C[1], &p.Commitment[0], &p.Commitment[1], &p.CommitmentPok[0], &p.CommitmentPok[1]}[i]
	}
	mk := func() (p proof.Groth16Proof, want []*big.Int) {
		for i := 0; i < 12; i++ {
			h := crypto.Keccak256([]byte{77, byte(i)})
			*at(&p, i) = "0x" + hex.EncodeToString(h)
			want = append(want, new(big.Int).SetBytes(h))
		}
		return
	}
	same := func(got []*big.Int, want []*big.Int) string {
		for i := range got {
			if got[i] == nil || got[i].Cmp(want[i]) != 0 {
				return fmt.Sprintf("integer %d is %v, want %v", i, got[i], want[i])
			}
		}
		return ""
	}
	flat := func(a [2]*big.Int, b [2][2]*big.Int, cc, m [2]*big.Int) []*big.Int {
		return []*big.Int{a[0], a[1], b[0][0], b[0][1], b[1][0], b[1][1], cc[0], cc[1], m[0], m[1]}
	}
	flatp := func(q eth.IBeaconVerifierProof) []*big.Int { return flat(q.A, q.B, q.C, q.Commitment) }
	c.Each("groth16 integers", 12*len(vs), func(i int) string { return fmt.Sprintf("field %d = %s", i/len(vs), vs[i%len(vs)].name) }, func(i int) string {
		p, want := mk()
		*at(&p, i/len(vs)) = vs[i%len(vs)].s
		want[i/len(vs)] = vs[i%len(vs)].v
		c.State(1)
		c.Trans(12)
		c.Trace(4)
		a, b, cc, m, k := p.AsBigInts()
		if e := same(append(flat(a, b, cc, m), k[0], k[1]), want); e != "" {
			return e
		}
		if e := same(flatp(p.OnChainProof()), want); e != "" {
			return "on-chain proof: " + e
		}
		if e := same(flatp(p.BeaconProof()), want); e != "" {
			return "beacon proof: " + e
		}
		s := &proof.CommitteeSszMappingProof{Proof: p}
		if e := same(flatp(s.GetProof()), want); e != "" {
			return "committee proof: " + e
		}
		return ""
	})
	c.One("groth16 integers", "no committee proof", func() string {
		var s *proof.CommitteeSszMappingProof
		z := new(big.Int)
		return same(flatp(s.GetProof()), []*big.Int{z, z, z, z, z, z, z, z, z, z})
	})
	// hashes of the other payloads
	c.Each("hashes", len(vs), func(i int) string { return vs[i].name }, func(i int) string {
		w := vs[i].v.FillBytes(make([]byte, 32))
		other := "0x" + ones(64)
		c.State(7)
		sp := &proof.SMTUpdateProof{OldSmtRoot: other, NewSmtRoot: other, EndBlockHash: other, NextChunkMerkleRoot: other, CommitmentPub: other}
		g := []struct {
			f   *string
			get func() [32]byte
		}{{&sp.OldSmtRoot, sp.GetOldSmtRoot}, {&sp.NewSmtRoot, sp.GetNewSmtRoot}, {&sp.EndBlockHash, sp.GetEndBlockHash}, {&sp.NextChunkMerkleRoot, sp.GetNextChunkMerkleRoot}, {&sp.CommitmentPub, sp.GetCommitmentPub}}
		for j := range g {
			*g[j].f = vs[i].s
			for k := range g {
				x := g[k].get()
				if j == k && !bytes.Equal(x[:], w) || j != k && x != common.HexToHash(other) {
					return fmt.Sprintf("hash %d reads %x with hash %d set", k, x, j)
				}
			}
			*g[j].f = other
		}
		sg := &proof.SigProof{CommitmentPub: vs[i].s, PoseidonRoot: other}
		if sg.GetCommitment().Cmp(vs[i].v) != 0 || sg.GetPoseidonRoot() != common.HexToHash(other) {
			return "signature proof commitment"
		}
		sg = &proof.SigProof{CommitmentPub: "0x", PoseidonRoot: vs[i].s}
		if r := sg.GetPoseidonRoot(); !bytes.Equal(r[:], w) || sg.GetCommitment().Sign() != 0 {
			return "signature proof root"
		}
		return ""
	})
	// exports of real proof objects
	co := []*big.Int{new(big.Int), big.NewInt(1), big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(big.NewInt(1), 248), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 248), big.NewInt(1)), new(big.Int).Lsh(big.NewInt(1), 253), new(big.Int).Sub(p254, big.NewInt(1))}
	c.Each("exports", 12*len(co), func(i int) string { return fmt.Sprintf("coordinate %d = %v", i/len(co), co[i%len(co)]) }, func(i int) string {
		want := make([]*big.Int, 12)
		var el [12]fp.Element
		for j := range want {
			want[j] = new(big.Int).Mod(new(big.Int).SetBytes(crypto.Keccak256([]byte{5, byte(j)})), p254)
			if j == i/len(co) {
				want[j] = co[i%len(co)]
			}
			el[j].SetBigInt(want[j])
		}
		g := &groth16_bn254.Proof{Commitments: make([]bn254.G1Affine, 1)}
		g.Ar.X, g.Ar.Y = el[0], el[1]
		// the contracts take the second coordinate of the extension first
		g.Bs.X.A1, g.Bs.X.A0, g.Bs.Y.A1, g.Bs.Y.A0 = el[2], el[3], el[4], el[5]
		g.Krs.X, g.Krs.Y = el[6], el[7]
		g.Commitments[0].X, g.Commitments[0].Y = el[8], el[9]
		g.CommitmentPok.X, g.CommitmentPok.Y = el[10], el[11]
		c.State(1)
		c.Trans(12)
		c.Trace(2)
		a, b, cc, m, k := utils.ExportProof(g)
		if e := same(append(flat(a, b, cc, m), k[0], k[1]), want); e != "" {
			return e
		}
		pub := &proof.ZKSDKAggPubInputs{AggVkHash: "aggvk", SMTRoot: [2]string{"smt0", "smt1"}, AppVkHash: "appvk", OutputCommit: [2]string{"out0", "out1"}, QueryId: "query"}
		ss := strings.Split(pub.GenerateBatchProofAndPublicInputs(g), ",")
		tail := []string{"query", "smt0", "smt1", "aggvk", "out0", "out1", "appvk", ""}
		if len(ss) != 12+len(tail) || !reflect.DeepEqual(ss[12:], tail) {
			return fmt.Sprintf("list ends %q", ss[12:])
		}
		var q proof.Groth16Proof
		for j := 0; j < 12; j++ {
			*at(&q, j) = ss[j]
			if !strings.HasPrefix(ss[j], "0x") {
				return "no hex prefix in " + ss[j]
			}
		}
		a, b, cc, m, k = q.AsBigInts()
		if e := same(append(flat(a, b, cc, m), k[0], k[1]), want); e != "" {
			return "list: " + e
		}
		return ""
	})
}

// leaves calls f for every settable leaf under v with its path.
func leaves(v reflect.Value, path string, f func(string, reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.Type() == reflect.TypeOf(&big.Int{}) {
			f(path, v)
			return
		}
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		leaves(v.Elem(), path, f)
	case reflect.Struct:
		if v.Type().PkgPath() != "github.com/brevis-network/zk-utils/common/proof" {
			if h, ok := v.Addr().Interface().(*types.Header); ok { // go-ethereum's own type
				h.Difficulty, h.Number, h.Extra, h.BaseFee = big.NewInt(3), big.NewInt(int64(len(path))), []byte{1}, big.NewInt(7)
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), path+"."+v.Type().Field(i).Name, f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			f(path, v)
			return
		}
		if v.Len() == 0 {
			v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		}
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	default:
		f(path, v)
	}
}

func payloads(c *mc.Ctx) {
	mks := []func() any{
		func() any { return new(proof.ChunkUpdate) }, func() any { return new(proof.StorageProvingInfo) }, func() any { return new(proof.TransactionProvingInfo) },
		func() any { return new(proof.ReceiptProvingInfo) }, func() any { return new(proof.UniswapSumProvingInfo) }, func() any { return new(proof.AggregateProvingInfo) },
		func() any { return new(proof.UpdateProof) }, func() any { return new(proof.SMTUpdateAssignmentData) }, func() any { return new(proof.SDKQueryProvingInfo) },
		func() any { return new(proof.SubProveRequest) }, func() any { return new(proof.SDKQueryProvingInfoForAppCircuit) },
	}
	type cse struct{ t, leaf int }
	var cs []cse
	var names []string
	fill := func(p any, only int) (n int, name string) {
		// every leaf gets a value of its own; leaf `only` is set to the zero value
		leaves(reflect.ValueOf(p).Elem(), "", func(path string, v reflect.Value) {
			if n == only {
				name = path
				v.Set(reflect.Zero(v.Type()))
				n++
				return
			}
			switch v.Kind() {
			case reflect.String:
				v.SetString(fmt.Sprintf("0x%04x\"\\<&\u2028é", n+1))
			case reflect.Bool:
				v.SetBool(true)
			case reflect.Uint64:
				v.SetUint(1<<64 - 1 - uint64(n))
			case reflect.Uint8:
				v.SetUint(uint64(255 - n%200))
			case reflect.Int:
				v.SetInt(-1<<63 + int64(n))
			case reflect.Slice:
				v.SetBytes([]byte{byte(n), 0, 255})
			default:
				panic("harness: " + v.Kind().String() + path)
			}
			n++
		})
		return
	}
	for t, mk := range mks {
		n, _ := fill(mk(), -1)
		for l := -1; l < n; l++ {
			cs = append(cs, cse{t, l})
			p := mk()
			_, nm := fill(p, l)
			names = append(names, fmt.Sprintf("%T%s", p, nm))
		}
	}
	c.Each("json", len(cs), func(i int) string { return fmt.Sprint(i, " ", names[i]) }, func(i int) string {
		p, q := mks[cs[i].t](), mks[cs[i].t]()
		fill(p, cs[i].leaf)
		c.State(1)
		c.Trans(2)
		c.Trace(1)
		b, err := json.Marshal(p)
		if err != nil {
			return err.Error()
		}
		if err = json.Unmarshal(b, q); err != nil {
			return err.Error()
		}
		if !reflect.DeepEqual(p, q) {
			// nil and empty byte strings are the same value
			b2, _ := json.Marshal(q)
			if !bytes.Equal(b, b2) || !strings.Contains(names[i], "Path") && !strings.Contains(names[i], "Root") && !strings.Contains(names[i], "Hash") {
				return fmt.Sprintf("%+v read back from %s", q, b)
			}
		}
		return ""
	})
	c.One("sub-proof paths", "order", func() string {
		q := &proof.SDKQueryProvingInfo{}
		var want []string
		for k := 0; k <= 3; k++ {
			for l := 0; l <= 3; l++ {
				for m := 0; m <= 3; m++ {
					q.ReceiptInfos, q.StorageSlotInfos, q.TransactionInfos, want = nil, nil, nil, nil
					for i := 0; i < k; i++ {
						q.ReceiptInfos = append(q.ReceiptInfos, &proof.SDKQueryProvingInfoForReceipt{TransactionHash: fmt.Sprint("r", i)})
						want = append(want, fmt.Sprint("r", i))
					}
					for i := 0; i < l; i++ {
						q.StorageSlotInfos = append(q.StorageSlotInfos, &proof.SDKQueryProvingInfoForStorageSlot{StorageHash: fmt.Sprint("s", i)})
						want = append(want, fmt.Sprint("s", i))
					}
					for i := 0; i < m; i++ {
						q.TransactionInfos = append(q.TransactionInfos, &proof.SDKQueryProvingInfoForTransaction{TransactionHash: fmt.Sprint("t", i)})
						want = append(want, fmt.Sprint("t", i))
					}
					c.State(1)
					if got := q.GetSubProofS3Path(); len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
						return fmt.Sprintf("%d,%d,%d: %v", k, l, m, got)
					}
				}
			}
		}
		return ""
	})
}
