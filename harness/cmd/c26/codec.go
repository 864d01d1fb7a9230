package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"verif/harness/mc"
)

// ty is an ABI type, with how to make a Go value of it and its encoding.
type ty struct {
	name string
	comp string // tuple components, JSON
	dyn  bool
	mk   func(n, salt int) (goVal any, enc []byte) // enc: the value's own encoding (tail if dynamic)
	zero func() any                                // pointer to decode into
}

func w(x *big.Int) []byte {
	m := new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), 256))
	return m.FillBytes(make([]byte, 32))
}
func wi(i int) []byte { return w(big.NewInt(int64(i))) }
func rpad(b []byte) []byte {
	return append(append([]byte{}, b...), make([]byte, (32-len(b)%32)%32)...)
}
func fill(n, salt int) []byte {
	var b []byte
	for i := 0; len(b) < n; i++ {
		b = append(b, crypto.Keccak256([]byte{byte(salt), byte(i)})...)
	}
	return b[:n]
}

// tup encodes a sequence of values.
func tup(dyn []bool, enc [][]byte) []byte {
	head := 0
	for i := range enc {
		if dyn[i] {
			head += 32
		} else {
			head += len(enc[i])
		}
	}
	var h, t []byte
	for i := range enc {
		if dyn[i] {
			h = append(h, wi(head+len(t))...)
			t = append(t, enc[i]...)
		} else {
			h = append(h, enc[i]...)
		}
	}
	return append(h, t...)
}

var abiTypes = []ty{
	{"uint256", "", false, func(n, s int) (any, []byte) {
		x := new(big.Int).Rsh(new(big.Int).SetBytes(fill(32, s)), uint(n*31))
		if n == 0 {
			x.Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		}
		return x, w(x)
	}, func() any { return new(big.Int) }},
	{"int256", "", false, func(n, s int) (any, []byte) {
		x := new(big.Int).Rsh(new(big.Int).SetBytes(fill(32, s)), uint(1+n*31))
		if n%2 == 0 {
			x.Neg(x)
		}
		if n == 1 {
			x.Neg(new(big.Int).Lsh(big.NewInt(1), 255))
		}
		return x, w(x)
	}, func() any { return new(big.Int) }},
	{"uint64", "", false, func(n, s int) (any, []byte) {
		x := uint64(1<<64-1)>>uint(n*7) - uint64(s)
		return x, w(new(big.Int).SetUint64(x))
	}, func() any { return new(uint64) }},
	{"uint8", "", false, func(n, s int) (any, []byte) { x := uint8(255>>uint(n)) ^ uint8(s&1); return x, wi(int(x)) }, func() any { return new(uint8) }},
	{"bool", "", false, func(n, s int) (any, []byte) { x := (n+s)%2 == 0; return x, wi((n + s + 1) % 2) }, func() any { return new(bool) }},
	{"address", "", false, func(n, s int) (any, []byte) {
		a := common.BytesToAddress(fill(20, s+n))
		return a, append(make([]byte, 12), a[:]...)
	}, func() any { return new(common.Address) }},
	{"bytes32", "", false, func(n, s int) (any, []byte) { var a [32]byte; copy(a[:], fill(32, s+n)); return a, a[:] }, func() any { return new([32]byte) }},
	{"bytes4", "", false, func(n, s int) (any, []byte) { var a [4]byte; copy(a[:], fill(4, s+n)); return a, rpad(a[:]) }, func() any { return new([4]byte) }},
	{"bytes", "", true, func(n, s int) (any, []byte) {
		b := fill([]int{0, 1, 31, 32, 33, 63, 64, 65, 96}[n%9], s)
		return b, append(wi(len(b)), rpad(b)...)
	}, func() any { return new([]byte) }},
	{"string", "", true, func(n, s int) (any, []byte) {
		b := fmt.Sprintf("%x", fill([]int{0, 8, 15, 16, 17, 32, 33, 48, 1}[n%9], s))
		return b, append(wi(len(b)), rpad([]byte(b))...)
	}, func() any { return new(string) }},
	{"uint256[]", "", true, func(n, s int) (any, []byte) {
		x := []*big.Int{}
		e := wi(n)
		for i := 0; i < n; i++ {
			v := new(big.Int).SetBytes(fill(32, s+i))
			x = append(x, v)
			e = append(e, w(v)...)
		}
		return x, e
	}, func() any { return new([]*big.Int) }},
	{"uint256[2][2]", "", false, func(n, s int) (any, []byte) {
		var x [2][2]*big.Int
		var e []byte
		for i := 0; i < 4; i++ {
			v := new(big.Int).SetBytes(fill(32, s+i+n))
			x[i/2][i%2] = v
			e = append(e, w(v)...)
		}
		return x, e
	}, func() any { return new([2][2]*big.Int) }},
	{"bytes[]", "", true, func(n, s int) (any, []byte) {
		x := [][]byte{}
		var d []bool
		var es [][]byte
		for i := 0; i < n; i++ {
			b := fill(i*11, s+i)
			x = append(x, b)
			d = append(d, true)
			es = append(es, append(wi(len(b)), rpad(b)...))
		}
		return x, append(wi(n), tup(d, es)...)
	}, func() any { return new([][]byte) }},
	{"bytes32[]", "", true, func(n, s int) (any, []byte) {
		x := [][32]byte{}
		e := wi(n)
		for i := 0; i < n; i++ {
			var a [32]byte
			copy(a[:], fill(32, s+i))
			x = append(x, a)
			e = append(e, a[:]...)
		}
		return x, e
	}, func() any { return new([][32]byte) }},
}

func abiJSON(ins, outs []int) string {
	arg := func(is []int) string {
		var r []string
		for k, i := range is {
			r = append(r, fmt.Sprintf(`{"name":"a%d","type":"%s"}`, k, abiTypes[i].name))
		}
		return strings.Join(r, ",")
	}
	return fmt.Sprintf(`[{"type":"function","name":"f","stateMutability":"view","inputs":[%s],"outputs":[%s]},{"type":"function","name":"none","stateMutability":"view","inputs":[],"outputs":[]},{"type":"function","name":"other","stateMutability":"view","inputs":[{"name":"x","type":"bytes7"}],"outputs":[]}]`, arg(ins), arg(outs))
}
func sel(sig string) []byte { return crypto.Keccak256([]byte(sig))[:4] }

func ints(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

func codec(c *mc.Ctx) {
	maxN := mc.Pick(c, 5, 8)
	type cse struct {
		ins []int
		n   int
	}
	var cs []cse
	cs = append(cs, cse{nil, 0})
	for _, n := range append(ints(maxN+1), 9) { // 9: the numbers are zero
		for a := range abiTypes {
			cs = append(cs, cse{[]int{a}, n})
			for b := range abiTypes {
				cs = append(cs, cse{[]int{a, b}, n})
				if n == 2 || c.Thorough() && n == 3 {
					for d := range abiTypes {
						cs = append(cs, cse{[]int{a, b, d}, n})
					}
				}
			}
		}
	}
	sig := func(x cse) string {
		var r []string
		for _, i := range x.ins {
			r = append(r, abiTypes[i].name)
		}
		return "f(" + strings.Join(r, ",") + ")"
	}
	c.Each("codec", len(cs), func(i int) string { return fmt.Sprint(sig(cs[i]), " ", cs[i].n) }, func(i int) string {
		x := cs[i]
		// the outputs are of other types than the inputs
		var outs []int
		for _, t := range x.ins {
			outs = append(outs, (t+1)%len(abiTypes))
		}
		cd := utils.NewContractCodec(abiJSON(x.ins, outs))
		values := func(ts []int) (args []any, body []byte) {
			var dyn []bool
			var encs [][]byte
			for k, t := range ts {
				v, e := abiTypes[t].mk(x.n+k, 3*k+x.n)
				args, dyn, encs = append(args, v), append(dyn, abiTypes[t].dyn), append(encs, e)
			}
			return args, tup(dyn, encs)
		}
		args, body := values(x.ins)
		rets, retBody := values(outs)
		want := append(append([]byte{}, sel(sig(x))...), body...)
		c.State(1)
		c.Trans(4)
		c.Trace(2)
		if !bytes.Equal(cd.Selector("f"), sel(sig(x))) || !bytes.Equal(cd.Selector("none"), sel("none()")) {
			return "selector"
		}
		for round := 0; round < 2; round++ {
			got, err := cd.EncodeCalldata("f", args...)
			if err != nil {
				return err.Error()
			}
			if !bytes.Equal(got, want) {
				return fmt.Sprintf("round %d: encoded %x, want %x", round, got, want)
			}
			for j := range got {
				got[j] ^= 0x5a
			}
			ret, err := cd.EncodeReturnData("f", rets...)
			if err != nil || !bytes.Equal(ret, retBody) {
				return fmt.Sprintf("return data %x (%v), want %x", ret, err, retBody)
			}
			for j := range ret {
				ret[j] ^= 0x5a
			}
			s := cd.Selector("f")
			for j := range s {
				s[j] ^= 0xff
			}
		}
		dec := func(what string, f func(string, []byte, ...any) error, ts []int, args []any, data []byte, full bool) string {
			var ptrs []any
			for _, t := range ts {
				// what the destination held before must not show through
				p := abiTypes[t].zero()
				old, _ := abiTypes[t].mk(4, 7)
				if v := reflect.ValueOf(old); v.Kind() == reflect.Ptr {
					reflect.ValueOf(p).Elem().Set(v.Elem())
				} else {
					reflect.ValueOf(p).Elem().Set(v)
				}
				ptrs = append(ptrs, p)
			}
			var err error
			if m := try(func() { err = f("f", data, ptrs...) }); m != "" {
				return what + ": " + m
			}
			if err != nil {
				if full {
					return what + ": " + err.Error()
				}
				return ""
			}
			for k := range args {
				g := reflect.ValueOf(ptrs[k]).Elem().Interface()
				if b, ok := g.(big.Int); ok {
					if b.Cmp(args[k].(*big.Int)) != 0 {
						return fmt.Sprintf("%s: argument %d decoded as %v, want %v", what, k, &b, args[k])
					}
				} else if fmt.Sprintf("%x", g) != fmt.Sprintf("%x", args[k]) {
					return fmt.Sprintf("%s: argument %d decoded as %x, want %x", what, k, g, args[k])
				}
			}
			return ""
		}
		if m := dec("calldata", cd.DecodeCalldata, x.ins, args, body, true); m != "" {
			return m
		}
		if m := dec("return data", cd.DecodeReturnData, outs, rets, retBody, true); m != "" {
			return m
		}
		if len(x.ins) <= 2 {
			step := 1
			if len(x.ins) == 2 && !c.Thorough() {
				step = 8
			}
			for l := 0; l < len(body); l += step {
				c.State(1)
				if m := dec(fmt.Sprintf("calldata cut to %d", l), cd.DecodeCalldata, x.ins, args, body[:l:l], false); m != "" {
					return m
				}
			}
			for l := 0; l < len(retBody); l += step {
				c.State(1)
				if m := dec(fmt.Sprintf("return data cut to %d", l), cd.DecodeReturnData, outs, rets, retBody[:l:l], false); m != "" {
					return m
				}
			}
		}
		// refused
		for _, no := range []string{"g", "", "F", "f()"} {
			if _, err := cd.EncodeCalldata(no, args...); err == nil {
				return "unknown method encoded"
			}
			if _, err := cd.EncodeReturnData(no, rets...); err == nil {
				return "return data of an unknown method encoded"
			}
			if cd.DecodeCalldata(no, body) == nil || cd.DecodeReturnData(no, body) == nil {
				return "unknown method decoded"
			}
		}
		if _, err := cd.EncodeCalldata("f", append(args[:len(args):len(args)], true)...); err == nil {
			return "one argument too many encoded"
		}
		var ptrs []any
		for _, t := range x.ins {
			ptrs = append(ptrs, abiTypes[t].zero())
		}
		if cd.DecodeCalldata("f", body, append(ptrs[:len(ptrs):len(ptrs)], new(bool))...) == nil {
			return "decoded into one pointer too many"
		}
		if len(args) > 0 {
			if _, err := cd.EncodeCalldata("f", args[:len(args)-1]...); err == nil {
				return "one argument too few encoded"
			}
			if cd.DecodeCalldata("f", body, ptrs[:len(ptrs)-1]...) == nil {
				return "decoded into one pointer too few"
			}
			ptrs[len(ptrs)-1] = true
			var err error
			if m := try(func() { err = cd.DecodeCalldata("f", body, ptrs...) }); m == "" && err == nil {
				return "decoded into a non-pointer"
			}
			if _, err := cd.EncodeCalldata("other", args...); err == nil {
				return "arguments of another type encoded"
			}
		}
		// the same signature from a second call, after results were written to
		if g, err := cd.EncodeCalldata("none"); err != nil || !bytes.Equal(g, sel("none()")) {
			return fmt.Sprintf("no-argument call %x, %v", g, err)
		} else {
			_ = append(g[:0], 1, 2, 3, 4)
		}
		if g, _ := cd.EncodeCalldata("none"); !bytes.Equal(g, sel("none()")) {
			return fmt.Sprintf("no-argument call changed to %x by its caller", g)
		}
		return ""
	})
}
