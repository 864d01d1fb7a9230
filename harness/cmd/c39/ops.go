package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/big"
	"reflect"
	"strings"
	"time"

	cc "github.com/brevis-network/zk-utils/common/circuits"
	"github.com/brevis-network/zk-utils/common/proof"
	"github.com/brevis-network/zk-utils/common/s3api"
	"github.com/brevis-network/zk-utils/common/utils"

	fsmt "github.com/brevis-network/zk-utils/circuits/fabric/smt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/conv"
	gemu "github.com/brevis-network/zk-utils/circuits/gadgets/emulated"
	"github.com/brevis-network/zk-utils/circuits/gadgets/index-proof/core"
	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
	"github.com/brevis-network/zk-utils/circuits/gadgets/limbs"
	"github.com/brevis-network/zk-utils/circuits/gadgets/merkle"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mpt"
	"github.com/brevis-network/zk-utils/circuits/gadgets/mux"
	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
	"github.com/brevis-network/zk-utils/circuits/gadgets/sha256"
	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
	gsmt "github.com/brevis-network/zk-utils/circuits/gadgets/smt"
	gutils "github.com/brevis-network/zk-utils/circuits/gadgets/utils"

	edw "github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/std/hash/mimc"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	ethrlp "github.com/ethereum/go-ethereum/rlp"
	gotrie "github.com/ethereum/go-ethereum/trie"

	"verif/harness/eng"
	"verif/harness/gk"
	"verif/harness/mptx"
	"verif/harness/trie"
)

type F = frontend.Variable

// sl is a slice with spare capacity that a careless append would write to.
func sl[T any](spare T, xs ...T) []T {
	r := make([]T, len(xs), len(xs)+70)
	copy(r, xs)
	for i := len(xs); i < cap(r); i++ {
		r[:cap(r)][i] = spare
	}
	return r
}

func bs(n int, seed byte) []byte {
	x := make([]byte, n)
	for i := range x {
		x[i] = seed + byte(i*37)
	}
	return sl[byte](0xa5, x...)
}

func bits(n int) []uint {
	x := make([]uint, n)
	for i := range x {
		x[i] = uint(i*i/3) & 1
	}
	return sl[uint](7, x...)
}

// vs is a slice of circuit variables.
func vs(n int, f func(i int) int) []F {
	x := make([]F, n)
	for i := range x {
		x[i] = eng.V(f(i))
	}
	return sl[F](F(eng.V(0xdead)), x...)
}

func conv2(x []F) []F { return sl[F](F(eng.V(0xdead)), x...) }

func bit(i int) int { return (i*i/3 + i) & 1 }
func nib(i int) int { return (i*7 + 3) & 15 }
func id(i int) int  { return i + 1 }

// host is an operation on host data.
func host(name string, mk func() ([]any, func() any)) op {
	return op{name, func() call {
		in, f := mk()
		return call{in, f}
	}}
}

// gad is a gadget evaluated on the exploration engine.
func gad(name string, mk func(e *eng.Engine) ([]any, func(api frontend.API) any)) op {
	return op{name, func() call {
		e := eng.New(gk.BN254)
		e.FastKeccak = true
		in, f := mk(e)
		return call{in, func() any {
			// every run on an engine of its own
			e2 := eng.New(gk.BN254)
			e2.FastKeccak = true
			var out any
			r := e2.Run(func(api frontend.API) error {
				out = f(api)
				return nil
			})
			return []any{out, r.String()}
		}}
	}}
}

// circuit is a gadget to compile.
type circuit struct {
	In   []F
	Name string `gnark:"-"`
}

// written while the alphabet is built, read only after that
var circuits = map[string]func(api frontend.API, v []F) any{}

func (c *circuit) Define(api frontend.API) error {
	// results are tied to the inputs so that the compiler keeps them
	var sum F = 0
	var walk func(x any)
	walk = func(x any) {
		switch v := x.(type) {
		case []any:
			for _, y := range v {
				walk(y)
			}
		case limbs.Limb:
			sum = api.Add(sum, v.Val)
		default:
			r := reflect.ValueOf(x)
			if k := r.Kind(); (k == reflect.Slice || k == reflect.Array) && !strings.Contains(r.Type().String(), "expr.") {
				for i := 0; i < r.Len(); i++ {
					walk(r.Index(i).Interface())
				}
				return
			}
			sum = api.Add(sum, x)
		}
	}
	walk(circuits[c.Name](api, c.In))
	api.AssertIsEqual(api.Mul(sum, sum), c.In[0])
	return nil
}

// compileOp compiles a gadget to both kinds of constraint system.
func compileOp(name string, n int, run func(api frontend.API, v []F) any) op {
	circuits[name] = run
	return op{"compile " + name, func() call {
		return call{nil, func() any {
			var out []any
			for _, nb := range []frontend.NewBuilder{r1cs.NewBuilder, scs.NewBuilder} {
				ccs, err := frontend.Compile(gk.BN254, nb, &circuit{In: make([]F, n), Name: name})
				if err != nil {
					panic(err)
				}
				h := fnv.New128a()
				if _, err := ccs.WriteTo(h); err != nil {
					panic(err)
				}
				out = append(out, ccs.GetNbConstraints(), h.Sum(nil))
			}
			return out
		}}
	}}
}

type elT = emulated.Element[emulated.BLS12377Fr]

func el(x int64) *elT {
	v := emulated.ValueOf[emulated.BLS12377Fr](big.NewInt(x))
	for i, l := range v.Limbs {
		v.Limbs[i] = eng.V(l.(*big.Int).Int64())
	}
	return &v
}

// elVal is an element as an input: its limbs.
func elVal(xs ...*elT) func() string {
	return func() string {
		var s []any
		for _, x := range xs {
			s = append(s, x.Limbs)
		}
		return fmt.Sprint(s...)
	}
}

func rlpOf(x ...any) func() string {
	return func() string {
		var o bytes.Buffer
		for _, y := range x {
			b, err := ethrlp.EncodeToBytes(y)
			fmt.Fprintf(&o, "%x %v;", b, err)
		}
		return o.String()
	}
}

func header(i int) types.Header {
	h := types.Header{ParentHash: common.Hash{byte(i)}, Root: common.Hash{9, byte(i)}, Number: big.NewInt(int64(100 + i)), Difficulty: new(big.Int), GasLimit: 30, GasUsed: 2, Time: uint64(1000 + i),
		Extra: bs(5, byte(i)), BaseFee: big.NewInt(7)}
	return h
}

func txs(n int) (l types.Transactions) {
	to := common.Address{5}
	for i := 0; i < n; i++ {
		l = append(l, types.NewTx(&types.DynamicFeeTx{ChainID: big.NewInt(1), Nonce: uint64(i), GasTipCap: big.NewInt(1), GasFeeCap: big.NewInt(2), Gas: 21000, To: &to, Value: big.NewInt(int64(i)), Data: bs(40, byte(i)),
			V: big.NewInt(1), R: big.NewInt(12345 + int64(i)), S: big.NewInt(6789)}))
	}
	return
}

func rcs(n int) (l types.Receipts) {
	for i := 0; i < n; i++ {
		l = append(l, &types.Receipt{Type: 2, Status: 1, CumulativeGasUsed: uint64(i + 1), TransactionIndex: uint(i)})
	}
	return
}

const abiS = `[{"name":"f","type":"function","inputs":[{"name":"a","type":"uint256"},{"name":"b","type":"bytes"}],"outputs":[{"name":"c","type":"address"},{"name":"d","type":"uint64[]"}]}]`

func alphabet(heavy bool) (l []op) {
	add := func(o ...op) { l = append(l, o...) }
	b1 := func(name string, n int, f func(b []byte) any) {
		add(host(name, func() ([]any, func() any) {
			b := bs(n, 0x41)
			return []any{b}, func() any { return f(b) }
		}))
	}
	s1 := func(name, s string, f func(s string) any) {
		add(host(name, func() ([]any, func() any) { return nil, func() any { return f(s) } }))
	}

	// hex, byte and bit helpers
	b1("Bytes2Hex", 9, func(b []byte) any { return utils.Bytes2Hex(b) })
	b1("Bytes2Hash", 20, func(b []byte) any { return utils.Bytes2Hash(b) })
	b1("Bytes2Addr", 20, func(b []byte) any { return utils.Bytes2Addr(b) })
	b1("Pad20Bytes", 7, func(b []byte) any { return utils.Pad20Bytes(b) })
	b1("Pad32Bytes", 7, func(b []byte) any { return utils.Pad32Bytes(b) })
	b1("Pad32Bytes full", 32, func(b []byte) any { return utils.Pad32Bytes(b) })
	s1("Hex2Bytes", "0xabc", func(s string) any { return utils.Hex2Bytes(s) })
	s1("Hex2Hash", "0x1234", func(s string) any { return utils.Hex2Hash(s) })
	s1("Hex2BigInt", "0x1234567890123456789012", func(s string) any { return utils.Hex2BigInt(s) })
	s1("Str2BigInt", "123456789012345678901234567890", func(s string) any { return utils.Str2BigInt(s) })
	s1("IsValidTxHash", "0x12", func(s string) any { return utils.IsValidTxHash(s) })
	s1("FormatAddrHex", "0xAB", func(s string) any { return utils.FormatAddrHex(s) })
	s1("ObjectKey", "p", func(s string) any { return s3api.ObjectKey(s, 7) })
	add(host("ArrayHex2Hash", func() ([]any, func() any) {
		x := sl("zz", "0x1", "22", "0x333")
		return []any{x}, func() any { return []any{utils.ArrayHex2Hash(x), utils.Strings2bytes(x)} }
	}), host("ArrayBytes2Hex0x", func() ([]any, func() any) {
		x := sl(bs(1, 9), bs(3, 1), bs(0, 2))
		return []any{x}, func() any { return []any{utils.ArrayBytes2Hex0x(x), utils.Convert2DimensionalByteArrayToString(x)} }
	}), host("Contains/Partition", func() ([]any, func() any) {
		x := sl("zz", "a", "b", "ab")
		k := sl(9, 1, 2)
		return []any{x, k}, func() any {
			return []any{utils.Contains(x, "b"), utils.Partition(x, k, func(n int, s string) bool { return len(s) == n })}
		}
	}), host("DecomposeBits", func() ([]any, func() any) {
		x := big.NewInt(0x123456789)
		return []any{x}, func() any { return utils.DecomposeBits(x, 40) }
	}), host("Var2BigInt", func() ([]any, func() any) {
		x := big.NewInt(77)
		return []any{x}, func() any { return []any{utils.Var2BigInt(x), utils.Var2BigInt(uint64(5)), utils.Var2BigInt("0x9")} }
	}), host("PackBitsToInt", func() ([]any, func() any) {
		x := bits(505)
		return []any{x}, func() any { return utils.PackBitsToInt(x) }
	}), host("PackBitsToInt whole words", func() ([]any, func() any) {
		x := bits(248)
		return []any{x}, func() any { return utils.PackBitsToInt(x) }
	}), host("Byte32ToFrBits", func() ([]any, func() any) {
		x := [2]*big.Int{big.NewInt(1 << 40), big.NewInt(9)}
		return []any{x}, func() any { return utils.Byte32ToFrBits(x, 248) }
	}), host("BitsToFrBigInt", func() ([]any, func() any) {
		x, m := bits(256), new(big.Int).Set(gk.BN254)
		return []any{x, m}, func() any { return utils.BitsToFrBigInt(x, m) }
	}), host("Flip/FlipByGroups", func() ([]any, func() any) {
		x := sl(9, 1, 2, 3, 4, 5, 6)
		return []any{x}, func() any { return [][]int{utils.Flip(x), utils.FlipByGroups(x, 2)} }
	}), host("DecodeByteToBinary", func() ([]any, func() any) {
		return nil, func() any { return utils.DecodeByteToBinary(0x5a) }
	}), host("GetStartBlockInfo", func() ([]any, func() any) {
		return nil, func() any { return []any{utils.GetStartBlockInfo(10), utils.GetStartBlockInfo(1)} }
	}), host("time", func() ([]any, func() any) {
		t := time.Unix(1700000000, 5e6)
		return nil, func() any {
			return []any{utils.TsMilli(t), utils.TsMilliToTime(1700000000005).UnixNano(), utils.TsSecToTime(77).Unix()}
		}
	}), host("ChunkIndexFound", func() ([]any, func() any) {
		x := sl[uint64](5, 1, 2)
		return []any{x}, func() any { return []bool{cc.ChunkIndexFound(2, x), cc.ChunkIndexFound(5, x)} }
	}))
	b1("ParseBytes32", 32, func(b []byte) any { return utils.ParseBytes32(b, 248) })
	b1("MiMCBlockPad0", 40, func(b []byte) any { return utils.MiMCBlockPad0(b, 48) })
	b1("GenerateBls12377Hash", 64, func(b []byte) any { return utils.GenerateBls12377Hash(b) })
	b1("CalculateAppVkHashFrom761To254", 48, func(b []byte) any { return utils.CalculateAppVkHashFrom761To254(b) })
	add(host("Poseidon", func() ([]any, func() any) {
		x := sl(big.NewInt(99), big.NewInt(1), big.NewInt(2), big.NewInt(3))
		return []any{x}, func() any {
			h := utils.NewPoseidonBn254()
			for _, y := range x {
				h.Write(y)
			}
			r, err := h.Sum()
			return []any{r, fmt.Sprint(err)}
		}
	}))

	add(storeOps()...)

	// keccak helpers of both packages
	b1("keccak.Pad101", 140, func(b []byte) any { return keccak.Pad101(b) })
	b1("keccak.Pad101Bytes", 140, func(b []byte) any { return keccak.Pad101Bytes(b) })
	b1("keccak.Pad101Bytes full", 135, func(b []byte) any { return keccak.Pad101Bytes(b) })
	b1("keccak.Bytes2BlockBits", 136, func(b []byte) any { return keccak.Bytes2BlockBits(b) })
	b1("keccak.Bytes2Bits", 24, func(b []byte) any { return keccak.Bytes2Bits(b) })
	b1("keccak.Bytes2Uint64s", 24, func(b []byte) any { return keccak.Bytes2Uint64s(b) })
	b1("circuits.Pad101", 140, func(b []byte) any { return cc.Pad101(b) })
	b1("circuits.Pad101Bytes", 140, func(b []byte) any { return cc.Pad101Bytes(b) })
	b1("circuits.Bytes2BlockBits", 136, func(b []byte) any { return cc.Bytes2BlockBits(b) })
	b1("circuits.Bytes2Bits", 24, func(b []byte) any { return cc.Bytes2Bits(b) })
	b1("circuits.Bytes2Uint64s", 24, func(b []byte) any { return cc.Bytes2Uint64s(b) })

	// header chains
	hs := func() []types.Header {
		return sl(header(9), header(1), header(2), header(3), header(4))
	}
	add(host("EncodeHeaders", func() ([]any, func() any) {
		h := hs()
		return []any{h}, func() any {
			a, b, err := fsmt.EncodeHeaders(h)
			return []any{a, b, fmt.Sprint(err)}
		}
	}), host("MimcRoot", func() ([]any, func() any) {
		x := sl(bs(32, 0), bs(32, 1), bs(32, 2), bs(32, 3), bs(32, 4))
		for i := range x[:cap(x)] {
			x[:cap(x)][i][0] = 0
		}
		return []any{x}, func() any { return fsmt.MimcRoot(x) }
	}), host("GenHeaders", func() ([]any, func() any) {
		return nil, func() any { return len(fsmt.GenHeaders(3, 5, [32]byte{1})) }
	}), host("NewHash/EmptyHash", func() ([]any, func() any) {
		b := bs(32, 3)
		return []any{b}, func() any { return []any{fsmt.NewHash(b), fsmt.EmptyHash()} }
	}))
	b1("MimcHashBytes32", 32, func(b []byte) any { return fsmt.MimcHashBytes32(b) })

	// proofs and query ids
	blk := func(n int) (*types.Block, types.Receipts) {
		r := rcs(n)
		return types.NewBlock(&types.Header{Number: big.NewInt(1), Difficulty: new(big.Int)}, &types.Body{Transactions: txs(n)}, r, gotrie.NewStackTrie(nil)), r
	}
	add(host("GetTransactionProof", func() ([]any, func() any) {
		b, _ := blk(5)
		return []any{rlpOf(b)}, func() any {
			n, k, p, err := proof.GetTransactionProof(b, 2)
			return []any{n, k, p, fmt.Sprint(err)}
		}
	}), host("GetReceiptProof", func() ([]any, func() any) {
		b, r := blk(5)
		return []any{rlpOf(b), rlpOf(r)}, func() any {
			n, k, p, err := proof.GetReceiptProof(b, r, 3)
			return []any{n, k, p, fmt.Sprint(err)}
		}
	}), host("GetReceiptRaw", func() ([]any, func() any) {
		r := rcs(3)
		return []any{rlpOf(r)}, func() any {
			b, err := proof.GetReceiptRaw(r[2])
			return []any{b, fmt.Sprint(err)}
		}
	}), host("PrepareUnsignedTransactionRlp", func() ([]any, func() any) {
		t := txs(1)
		return []any{rlpOf(t)}, func() any {
			b, err := proof.PrepareUnsignedTransactionRlp(t[0])
			return []any{b, fmt.Sprint(err)}
		}
	}), host("RecoverTransactionSignerAddress", func() ([]any, func() any) {
		k, _ := crypto.ToECDSA(bytes.Repeat([]byte{7}, 32))
		t, err := types.SignTx(txs(1)[0], types.NewLondonSigner(big.NewInt(1)), k)
		if err != nil {
			panic(err)
		}
		return []any{rlpOf(t)}, func() any {
			b, err := proof.RecoverTransactionSignerAddress(t)
			return []any{b, fmt.Sprint(err)}
		}
	}), host("MiMCHashReceiptCustomInputs", func() ([]any, func() any) {
		x := &proof.SDKQueryProvingInfoForReceipt{BlockNumber: 7, BlockBaseFee: "0x9", MPTKey: "0x80", LogExtractInfos: sl(nil,
			&proof.SDKQueryLogExtractInfo{ContractAddress: "0x00000000000000000000000000000000000000aa", LogTopic0: "0x" + fmt.Sprintf("%064x", 5), Value: "0x77", LogIndex: 1})}
		return []any{x}, func() any {
			b, err := proof.MiMCHashReceiptCustomInputs(x)
			return []any{b, fmt.Sprint(err)}
		}
	}), host("MiMCHashStorageCustomInputs", func() ([]any, func() any) {
		x := &proof.SDKQueryProvingInfoForStorageSlot{BlockNumber: 7, BlockBaseFee: "0x9", AccountAddress: "0xaa", Slot: "0x5", SlotValue: "77"}
		return []any{x}, func() any {
			b, err := proof.MiMCHashStorageCustomInputs(x)
			return []any{b, fmt.Sprint(err)}
		}
	}), host("MiMCHashTxCustomInputs", func() ([]any, func() any) {
		x := &proof.SDKQueryProvingInfoForTransaction{BlockNumber: 7, BlockBaseFee: "0x9", MPTKey: "0x80", LeafHash: "0x" + fmt.Sprintf("%064x", 5)}
		return []any{x}, func() any {
			b, err := proof.MiMCHashTxCustomInputs(x)
			return []any{b, fmt.Sprint(err)}
		}
	}), host("GetSubProofS3Path", func() ([]any, func() any) {
		x := &proof.SDKQueryProvingInfo{ReceiptInfos: sl(nil, &proof.SDKQueryProvingInfoForReceipt{TransactionHash: "a"}),
			StorageSlotInfos: sl(nil, &proof.SDKQueryProvingInfoForStorageSlot{StorageHash: "b"}),
			TransactionInfos: sl(nil, &proof.SDKQueryProvingInfoForTransaction{TransactionHash: "c"})}
		return []any{x}, func() any { return x.GetSubProofS3Path() }
	}), host("Groth16Proof", func() ([]any, func() any) {
		x := &proof.CommitteeSszMappingProof{Proof: proof.Groth16Proof{A: [2]string{"0x1", "0x2"}, B: [2][2]string{{"0x3", "0x4"}, {"0x5", "0x6"}}, C: [2]string{"0x7", "0x8"}, Commitment: [2]string{"0x9", "0xa"}, CommitmentPok: [2]string{"0xb", "0xc"}}}
		return []any{x}, func() any {
			return []any{x.GetProof(), (*proof.CommitteeSszMappingProof)(nil).GetProof(), x.Proof.OnChainProof()}
		}
	}), host("ChunkProof.EncodeABI", func() ([]any, func() any) {
		h := "0x" + fmt.Sprintf("%064x", 5)
		x := &proof.ChunkProof{ChunkRoot: h, PrevHash: h, EndHash: h, StartBlockNum: 1, EndBlockNum: 2, Proof: proof.Groth16Proof{A: [2]string{"0x1", "0x2"}, B: [2][2]string{{"0x3", "0x4"}, {"0x5", "0x6"}}, C: [2]string{"0x7", "0x8"}, Commitment: [2]string{"0x9", "0xa"}, CommitmentPok: [2]string{"0xb", "0xc"}}}
		return []any{x}, func() any { return x.EncodeABI() }
	}), host("ContractCodec", func() ([]any, func() any) {
		n, b := big.NewInt(500), bs(40, 1)
		ret, _ := utils.NewContractCodec(abiS).EncodeReturnData("f", common.Address{7}, []uint64{1, 2})
		ret = sl[byte](0xa5, ret...)
		return []any{n, b, ret}, func() any {
			c := utils.NewContractCodec(abiS)
			d, err := c.EncodeCalldata("f", n, b)
			var gn *big.Int
			var gb []byte
			err2 := c.DecodeCalldata("f", d, &gn, &gb)
			var a common.Address
			var u []uint64
			err3 := c.DecodeReturnData("f", ret, &a, &u)
			return []any{d, fmt.Sprint(err, err2, err3), gn, gb, a, u, c.Selector("f")}
		}
	}))

	// edwards25519 on the host
	sc := func(b byte) *edw.Scalar {
		s, err := edw.NewScalar().SetCanonicalBytes(append(bs(31, b), 0))
		if err != nil {
			panic(err)
		}
		return s
	}
	pt := func(b byte) *edw.Point { return new(edw.Point).ScalarBaseMult(sc(b)) }
	add(host("Scalar arithmetic", func() ([]any, func() any) {
		a, b, c := sc(1), sc(2), sc(3)
		return []any{a, b, c}, func() any {
			return [][]byte{edw.NewScalar().MultiplyAdd(a, b, c).Bytes(), edw.NewScalar().Add(a, b).Bytes(), edw.NewScalar().Subtract(a, b).Bytes(), edw.NewScalar().Negate(a).Bytes(), edw.NewScalar().Multiply(a, b).Bytes()}
		}
	}), host("ScalarBaseMult", func() ([]any, func() any) {
		a := sc(4)
		return []any{a}, func() any { return new(edw.Point).ScalarBaseMult(a).Bytes() }
	}), host("ScalarMult", func() ([]any, func() any) {
		a, p := sc(4), pt(5)
		return []any{a, p}, func() any { return new(edw.Point).ScalarMult(a, p).Bytes() }
	}), host("VarTimeDoubleScalarBaseMult", func() ([]any, func() any) {
		a, p, b := sc(4), pt(5), sc(6)
		return []any{a, p, b}, func() any { return new(edw.Point).VarTimeDoubleScalarBaseMult(a, p, b).Bytes() }
	}), host("Point arithmetic", func() ([]any, func() any) {
		p, q := pt(5), pt(6)
		return []any{p, q}, func() any {
			return []any{new(edw.Point).Add(p, q).Bytes(), new(edw.Point).Subtract(p, q).Bytes(), new(edw.Point).Negate(p).Bytes(), p.Equal(q), p.Bytes(), edw.NewIdentityPoint().Bytes(), edw.NewGeneratorPoint().Bytes()}
		}
	}), host("Point.SetBytes", func() ([]any, func() any) {
		b := sl[byte](0xa5, pt(7).Bytes()...)
		return []any{b}, func() any {
			p, err := new(edw.Point).SetBytes(b)
			return []any{p.Bytes(), fmt.Sprint(err)}
		}
	}))

	gadgets(add, heavy)
	return
}

func gadgets(add func(...op), heavy bool) {
	compiled := map[string]bool{"conv.Bits2Bytes": true, "utils.PackBitsToFr": true, "rlp.ShiftLeft": true,
		"utils.Recompose32ByteToNibbles": true, "limbs": true, "emulated": true}
	g1 := func(name string, n int, f func(i int) int, run func(api frontend.API, v []F) any) {
		if compiled[name] {
			add(compileOp(name, n, run))
		}
		if f == nil {
			return
		}
		add(gad(name, func(e *eng.Engine) ([]any, func(api frontend.API) any) {
			v := vs(n, f)
			return []any{v}, func(api frontend.API) any { return run(api, v) }
		}))
	}
	matrix := func(r, n int, f func(i int) int) [][]F {
		x := make([][]F, r)
		for i := range x {
			x[i] = vs(n, func(j int) int { return f(i*n + j) })
		}
		return sl(vs(1, id), x...)
	}
	g1("conv.Bits2Bytes", 64, bit, func(api frontend.API, v []F) any { return []any{conv.Bits2Bytes(api, v), conv.Bits2Bytes2(api, v)} })
	g1("conv.Bits2BytesArray", 64, bit, func(api frontend.API, v []F) any { return conv.Bits2BytesArray(api, v) })
	g1("conv.Bits2Nibbles", 64, bit, func(api frontend.API, v []F) any { return conv.Bits2Nibbles(api, v) })
	g1("conv.Bits2Uint128s", 256, bit, func(api frontend.API, v []F) any { return conv.Bits2Uint128s(api, [256]F(v)) })
	g1("gutils.Flip", 32, id, func(api frontend.API, v []F) any {
		return []any{gutils.Flip(v), gutils.FlipSubSlice(v, 8), gutils.Slice2FVs(v)}
	})
	g1("gutils.FlipKeccakFvBits", 1, func(int) int { return 0x1234 }, func(api frontend.API, v []F) any { return gutils.FlipKeccakFvBits(api, v[0], 16) })
	g1("utils.PackBitsToFr", 300, bit, func(api frontend.API, v []F) any { return utils.PackBitsToFr(api, v) })
	g1("utils.PackBitsToFr whole words", 248, bit, func(api frontend.API, v []F) any { return utils.PackBitsToFr(api, v) })
	g1("utils.Byte32", 2, func(int) int { return 0x71 }, func(api frontend.API, v []F) any {
		b := utils.Bytes32{Val: [2]F(v)}
		return []any{utils.Byte32ToBits(api, b, 248), utils.RecomposeSDKByte32ToNibble(api, b), utils.RecomposeSDKByte32To2Fr(api, b)}
	})
	g1("utils.Recompose32ByteToNibbles", 2, func(int) int { return 0x7123 }, func(api frontend.API, v []F) any {
		return []any{utils.Recompose32ByteToNibbles(api, v), utils.Recompose6BytesToNibbles(api, v[0])}
	})
	add(gad("mux.Multiplex", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		m := matrix(2, 3, id)
		return []any{m}, func(api frontend.API) any {
			return []any{mux.Multiplex(api, eng.V(1), 2, 3, m), rlp.Multiplexer(api, eng.V(2), 2, 3, m)}
		}
	}), gad("rlp.ArrayEqual", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		a, b := vs(6, id), vs(6, id)
		return []any{a, b}, func(api frontend.API) any {
			return []any{rlp.ArrayEqual(api, a, b, 6, eng.V(4)), rlp.EscalarProduct(api, 6, a, b)}
		}
	}))
	g1("rlp.ShiftLeft", 8, id, func(api frontend.API, v []F) any { return rlp.ShiftLeft(api, 8, 0, 5, v, eng.V(3)) })
	g1("rlp.ShiftRight", 8, id, func(api frontend.API, v []F) any { return rlp.ShiftRight(api, 8, 3, v, eng.V(3)) })
	g1("rlp.SubArray", 8, id, func(api frontend.API, v []F) any {
		o, n := rlp.NewSubArray(8, 6, 4).SubArray(api, v, eng.V(2), eng.V(5))
		return []any{o, n}
	})
	g1("rlp.HexToDecimal", 64, nib, func(api frontend.API, v []F) any {
		return []any{rlp.HexToDecimal(api, v, 8, eng.V(5)), rlp.Hex64To2Fr(api, v, eng.V(64))}
	})
	g1("rlp.FieldPrefix", 2, func(int) int { return 8 }, func(api frontend.API, v []F) any {
		a, b, c, d, m, n, o := rlp.RlpFieldPrefix(api, [2]F(v))
		x, y, z := rlp.RlpArrayPrefix(api, [2]F{eng.V(12), eng.V(5)})
		return []any{a, b, c, d, m, n, o, x, y, z}
	})
	g1("core.CalTxOrReceiptIndexRlp", 1, func(int) int { return 300 }, func(api frontend.API, v []F) any { return core.CalTxOrReceiptIndexRlp(api, v[0]) })
	g1("core.SumNibble", 6, nib, func(api frontend.API, v []F) any { return core.SumNibble(api, v) })
	list := trie.RLPList(trie.RLPStr([]byte{1, 2, 3}), trie.RLPStr([]byte{5}))
	arr := func() (*rlp.ArrayCheck, []F) {
		a := &rlp.ArrayCheck{MaxHexLen: 20, MaxFields: 2, ArrayPrefixMaxHexLen: 2, FieldMinHexLen: sl(9, 0, 0), FieldMaxHexLen: sl(9, 8, 4)}
		v := make([]F, a.ArrayPrefixMaxHexLen+30)
		for i := range v {
			v[i] = eng.V(0)
		}
		for i, x := range trie.Nibbles(list) {
			v[i] = eng.V(x)
		}
		return a, conv2(v)
	}
	add(gad("rlp.RlpArrayCheck", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		a, v := arr()
		return []any{a, v}, func(api frontend.API) any {
			o, n, fl, f := a.RlpArrayCheck(api, v)
			return []any{o, n, fl, f}
		}
	}), gad("rlp.RlpNestArrayCheck", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		a, v := arr()
		return []any{a, v}, func(api frontend.API) any {
			o, n, fl, f := a.RlpNestArrayCheck(api, v)
			return []any{o, n, fl, f}
		}
	}))

	// keccak
	g1("keccak.Pad101Bits", 1088, bit, func(api frontend.API, v []F) any { return keccak.Pad101Bits(api, 1, 0, 1088, v, eng.V(800)) })
	g1("keccak.PadBits101", 800, bit, func(api frontend.API, v []F) any { return keccak.PadBits101(api, v, 1) })
	g1("keccak.NibblesToU64Array", 272, nib, func(api frontend.API, v []F) any { return keccak.RecomposeHexToKeccakU64s(api, v, 1) })

	// merkle trees
	mh := func(api frontend.API) mimc.MiMC {
		h, err := mimc.NewMiMC(api)
		if err != nil {
			panic(err)
		}
		return h
	}
	add(gad("merkle.MerkleRootBasedOnMiMCHash", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		ix, br := vs(2, bit), vs(2, id)
		return []any{ix, br}, func(api frontend.API) any {
			return []any{merkle.MerkleRootBasedOnMiMCHash(api, mh(api), eng.V(5), ix, br), merkle.MerkleRootWithLeaveHash(api, mh(api), eng.V(5), ix, br)}
		}
	}), gad("smt.CheckSMTInclusion", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		lt, lx, ix, br := vs(2, id), vs(1, bit), vs(2, bit), vs(2, id)
		return []any{lt, lx, ix, br}, func(api frontend.API) any { return gsmt.CheckSMTInclusion(api, mh(api), 2, lt, lx, ix, br, eng.V(77)) }
	}))

	g1("limbs", 4, nil, func(api frontend.API, v []F) any {
		a := limbs.NewAPI(api)
		x := limbs.NewLimbs(v, 16)
		return []any{a.Resplit(x, 8), a.Lrot(x, 5, 16), a.LrotMerge(x, 9)}
	})
	g1("mimc", 4, nil, func(api frontend.API, v []F) any {
		return merkle.MerkleRootBasedOnMiMCHash(api, mh(api), v[0], v[1:2], v[2:3])
	})
	g1("emulated", 8, nil, func(api frontend.API, v []F) any {
		return gemu.FromElement(api, gemu.ToElement[emulated.BLS12377Fr](api, v, 32), 64)
	})

	// limbs and emulated elements
	mkl := func() limbs.Limbs {
		l := limbs.NewLimbs(vs(4, id), 16)
		return sl(limbs.Limb{Val: eng.V(3), Size: 2}, l...)
	}
	add(gad("limbs.Split/Merge", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		x := mkl()
		return []any{x}, func(api frontend.API) any {
			a := limbs.NewAPI(api)
			return []any{a.Merge(x), a.Split(x[1], 4), a.Split(x[1], 5, 2)}
		}
	}), gad("limbs.Resplit/Lrot", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		x := mkl()
		return []any{x}, func(api frontend.API) any {
			a := limbs.NewAPI(api)
			return []any{a.Resplit(x, 8), a.Lrot(x, 5, 16), a.LrotMerge(x, 9)}
		}
	}), gad("emulated.ToElement", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		v := vs(8, id)
		return []any{v}, func(api frontend.API) any {
			return []any{gemu.ToElement[emulated.BLS12377Fr](api, v, 32).Limbs}
		}
	}), gad("emulated.FromElement", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		x := el(12345)
		return []any{elVal(x)}, func(api frontend.API) any { return gemu.FromElement(api, x, 64) }
	}))

	// trie nodes and a whole proof
	var kvs []trie.KV
	for i := 0; i < 3; i++ {
		kvs = append(kvs, trie.KV{K: mptx.Key(i, byte(i)), V: mptx.Val(byte(i), 20)})
	}
	root := trie.Build(kvs)
	node := func() []F {
		n, _ := mptx.Buf(root.RLP, mpt.BranchNodeMaxBlockSize)
		return conv2(n)
	}
	add(gad("mpt.CheckBranch", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		n, refs := node(), vs(64, nib)
		return []any{n, refs}, func(api frontend.API) any {
			b := mpt.NewMPTBranchCheck(64)
			r := b.CheckBranch(api, eng.V(1), eng.V(64), refs, n)
			return r.GetOutput()
		}
	}), gad("mpt.CheckLeaf", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		n, _ := mptx.Buf(trie.RLPList(trie.RLPStr([]byte{0x20, 0x12}), trie.RLPStr([]byte{1, 2, 3, 4})), mpt.BranchNodeMaxBlockSize)
		n = conv2(n)
		k, v := vs(64, nib), vs(66, nib)
		return []any{n, k, v}, func(api frontend.API) any {
			b := mpt.NewMPTLeafCheck(64, 66)
			r := b.CheckLeaf(api, eng.V(2), k, v, n, eng.V(2))
			x := r.GetResult()
			return x.GetOutput()
		}
	}), gad("mpt.CheckExtension", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		n, _ := mptx.Buf(trie.RLPList(trie.RLPStr([]byte{0x00, 0x12}), trie.RLPStr(make([]byte, 32))), mpt.BranchNodeMaxBlockSize)
		n = conv2(n)
		k, v := vs(64, nib), vs(64, nib)
		return []any{n, k, v}, func(api frontend.API) any {
			b := mpt.NewMPTExtensionCheck(64, 64)
			r := b.CheckExtension(api, eng.V(2), k, eng.V(64), v, n, eng.V(2))
			return r.GetOutput()
		}
	}))

	add(gad("sha256.PutUint", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		v := vs(3, func(i int) int { return 200 + i })
		return []any{v}, func(api frontend.API) any {
			a := sha256.NewUint8API(api)
			return a.FromUint8(a.Xor(a.AsUint8(v[0]), a.AsUint8(v[1]), a.AsUint8(v[2])))
		}
	}))
	if !heavy {
		return
	}
	g1("sha256", 60, func(i int) int { return 3 * i }, func(api frontend.API, v []F) any {
		h := sha256.New(api)
		n, err := h.Write(v)
		a := h.Sum()
		return []any{n, fmt.Sprint(err), a, h.Sum()}
	})
	g1("sha512", 120, func(i int) int { return 2 * i }, func(api frontend.API, v []F) any {
		h := sha512.New(api)
		n, err := h.Write(v)
		a := h.Sum()
		return []any{n, fmt.Sprint(err), a, h.Sum()}
	})
	g1("keccak.Keccak256Bits", 1088, bit, func(api frontend.API, v []F) any {
		return []any{keccak.Keccak256Bits(api, 1, eng.V(0), v), keccak.Keccak256BitsOptimized(api, 1, 1, eng.V(0), v)}
	})
	add(gad("emulated mimc root", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		x := sl(el(9), el(1), el(2))
		return []any{elVal(x...), len(x)}, func(api frontend.API) any {
			return merkle.NewMimcRootAPI[emulated.BLS12377Fr](api, ecc.BLS12_377).MimcRoot(x).Limbs
		}
	}), gad("merkle.KeccakMerkleRoot", func(e *eng.Engine) ([]any, func(api frontend.API) any) {
		x := sl([256]F(vs(256, bit)), [256]F(vs(256, bit)), [256]F(vs(256, func(i int) int { return bit(i + 1) })))
		return []any{x}, func(api frontend.API) any { return merkle.KeccakMerkleRoot(api, x) }
	}))
}
