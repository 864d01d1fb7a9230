package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// A second reading of the ABI: types, signatures and encoding, independent of go-ethereum's.

type param struct {
	Name       string
	Type       string
	Indexed    bool
	Components []param
	t          *typ
}

type item struct {
	Type            string
	Name            string
	Inputs, Outputs []param
	StateMutability string
	Anonymous       bool
	goName          string
}

type typ struct {
	kind  string // uint int bool address fixed bytes string list array tuple
	n     int    // bits, bytes or elements
	elem  *typ
	comps []param
	canon string
}

var arr = regexp.MustCompile(`^(.*)\[(\d*)\]$`)

func parse(p *param) *typ { return parseT(p.Type, p.Components) }
func parseT(s string, comps []param) *typ {
	if m := arr.FindStringSubmatch(s); m != nil {
		e := parseT(m[1], comps)
		t := &typ{kind: "list", elem: e, canon: e.canon + "[" + m[2] + "]"}
		if m[2] != "" {
			t.kind = "array"
			t.n, _ = strconv.Atoi(m[2])
		}
		return t
	}
	if s == "tuple" {
		t := &typ{kind: "tuple"}
		var cs []string
		for i := range comps {
			comps[i].t = parse(&comps[i])
			cs = append(cs, comps[i].t.canon)
		}
		t.comps, t.canon = comps, "("+strings.Join(cs, ",")+")"
		return t
	}
	t := &typ{canon: s}
	switch {
	case s == "bool", s == "address", s == "string", s == "bytes":
		t.kind = s
	case strings.HasPrefix(s, "uint"), strings.HasPrefix(s, "int"):
		t.kind = strings.TrimRight(s, "0123456789")
		t.n, _ = strconv.Atoi(s[len(t.kind):])
	case strings.HasPrefix(s, "bytes"):
		t.kind = "fixed"
		t.n, _ = strconv.Atoi(s[5:])
	default:
		panic("unknown type " + s)
	}
	return t
}

func (t *typ) dyn() bool {
	switch t.kind {
	case "string", "bytes", "list":
		return true
	case "array":
		return t.elem.dyn()
	case "tuple":
		for _, c := range t.comps {
			if c.t.dyn() {
				return true
			}
		}
	}
	return false
}

func word(x *big.Int) []byte {
	return new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), 256)).FillBytes(make([]byte, 32))
}
func num(i int) []byte { return word(big.NewInt(int64(i))) }
func rpad(b []byte) []byte {
	return append(append([]byte{}, b...), make([]byte, (32-len(b)%32)%32)...)
}

func seq(ts []*typ, encs [][]byte) []byte {
	head := 0
	for i := range ts {
		if ts[i].dyn() {
			head += 32
		} else {
			head += len(encs[i])
		}
	}
	var h, t []byte
	for i := range ts {
		if ts[i].dyn() {
			h = append(h, num(head+len(t))...)
			t = append(t, encs[i]...)
		} else {
			h = append(h, encs[i]...)
		}
	}
	return append(h, t...)
}

func pseudo(seed string, n int) []byte {
	var b []byte
	for i := 0; len(b) < n; i++ {
		b = append(b, crypto.Keccak256([]byte(seed), []byte{byte(i)})...)
	}
	return b[:n]
}

const modes = 4 // two dense fillings, the greatest value, zero and empty

// value makes a value of the type in the form of the Go type, with its encoding.
func value(t *typ, g reflect.Type, seed string, mode int) (v reflect.Value, enc []byte, err error) {
	bad := func() (reflect.Value, []byte, error) {
		return reflect.Value{}, nil, fmt.Errorf("%s is %v in Go", t.canon, g)
	}
	v = reflect.New(g).Elem()
	filling := pseudo(fmt.Sprint(seed, mode), 40)
	length := []int{2, 3, 1, 0}[mode]
	switch t.kind {
	case "uint", "int":
		x := new(big.Int)
		bits := t.n
		if t.kind == "int" {
			bits--
		}
		switch mode {
		case 0, 1:
			x.SetBytes(filling[:t.n/8])
			if t.kind == "int" {
				x.Rsh(x, 1)
				if mode == 1 {
					x.Neg(x)
				}
			}
		case 2:
			x.Sub(x.Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
		}
		enc = word(x)
		if t.n == 8 || t.n == 16 || t.n == 32 || t.n == 64 {
			if g.Kind().String() != t.canon {
				return bad()
			}
			if t.kind == "int" {
				v.SetInt(x.Int64())
			} else {
				v.SetUint(x.Uint64())
			}
			return
		}
		if g != reflect.TypeOf(x) {
			return bad()
		}
		v.Set(reflect.ValueOf(x))
	case "bool":
		if g.Kind() != reflect.Bool {
			return bad()
		}
		b := mode == 0 || mode == 2
		v.SetBool(b)
		enc = make([]byte, 32)
		if b {
			enc[31] = 1
		}
	case "address", "fixed":
		n := t.n
		if t.kind == "address" {
			n = 20
		}
		if g.Kind() != reflect.Array || g.Len() != n || g.Elem().Kind() != reflect.Uint8 || t.kind == "address" && g != reflect.TypeOf(common.Address{}) {
			return bad()
		}
		b := filling[:n]
		switch mode {
		case 2:
			b = bytes.Repeat([]byte{0xff}, n)
		case 3:
			b = make([]byte, n)
		}
		reflect.Copy(v, reflect.ValueOf(b))
		enc = rpad(b)
		if t.kind == "address" {
			enc = append(make([]byte, 12), b...)
		}
	case "bytes", "string":
		b := filling[:[]int{33, 32, 1, 0}[mode]]
		if t.kind == "string" {
			b = []byte(fmt.Sprintf("%x", b))[:len(b)]
			if g.Kind() != reflect.String {
				return bad()
			}
			v.SetString(string(b))
		} else {
			if g != reflect.TypeOf(b) {
				return bad()
			}
			v.SetBytes(append([]byte{}, b...))
		}
		enc = append(num(len(b)), rpad(b)...)
	case "list", "array":
		if t.kind == "list" && g.Kind() != reflect.Slice || t.kind == "array" && (g.Kind() != reflect.Array || g.Len() != t.n) {
			return bad()
		}
		if t.kind == "array" {
			length = t.n
		} else {
			v.Set(reflect.MakeSlice(g, length, length))
			enc = num(length)
		}
		var ts []*typ
		var es [][]byte
		for i := 0; i < length; i++ {
			x, e, err := value(t.elem, g.Elem(), fmt.Sprint(seed, "/", i), mode)
			if err != nil {
				return v, nil, err
			}
			v.Index(i).Set(x)
			ts, es = append(ts, t.elem), append(es, e)
		}
		enc = append(enc, seq(ts, es)...)
	case "tuple":
		if g.Kind() != reflect.Struct || g.NumField() != len(t.comps) {
			return bad()
		}
		var ts []*typ
		var es [][]byte
		for i, c := range t.comps {
			if g.Field(i).Name != camel(c.Name) {
				return v, nil, fmt.Errorf("component %d of %s is %s in Go and %s in the ABI", i, g, g.Field(i).Name, c.Name)
			}
			x, e, err := value(c.t, g.Field(i).Type, fmt.Sprint(seed, ".", i), mode)
			if err != nil {
				return v, nil, err
			}
			v.Field(i).Set(x)
			ts, es = append(ts, c.t), append(es, e)
		}
		enc = seq(ts, es)
	}
	return
}

// same compares two values, numbers by value, an empty list equal to none.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if x, ok := a.Interface().(*big.Int); ok {
		y := b.Interface().(*big.Int)
		return x == nil && y == nil || x != nil && y != nil && x.Cmp(y) == 0
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func camel(s string) string {
	ps := strings.Split(s, "_")
	for i, p := range ps {
		if p != "" {
			ps[i] = strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return strings.Join(ps, "")
}

func (it *item) sig() string {
	var ts []string
	for _, p := range it.Inputs {
		ts = append(ts, p.t.canon)
	}
	return it.Name + "(" + strings.Join(ts, ",") + ")"
}
func (it *item) id() []byte { return crypto.Keccak256([]byte(it.sig())) }

// line is the item as interfaces.txt records it.
func (it *item) line() string {
	list := func(ps []param) string {
		var ts []string
		for _, p := range ps {
			s := p.t.canon
			if p.Indexed {
				s += " indexed"
			}
			ts = append(ts, s)
		}
		return "(" + strings.Join(ts, ",") + ")"
	}
	l := it.Type + " " + it.Name + list(it.Inputs)
	switch it.Type {
	case "function":
		l += " returns " + list(it.Outputs) + " " + it.StateMutability
	case "constructor", "fallback", "receive":
		l += " " + it.StateMutability
	}
	if it.Anonymous {
		l += " anonymous"
	}
	return l
}

func readABI(s string) ([]*item, error) {
	var items []*item
	if err := json.Unmarshal([]byte(s), &items); err != nil {
		return nil, err
	}
	seen := map[string]int{}
	for _, it := range items {
		for i := range it.Inputs {
			it.Inputs[i].t = parse(&it.Inputs[i])
		}
		for i := range it.Outputs {
			it.Outputs[i].t = parse(&it.Outputs[i])
		}
		n := it.Name
		// of functions that share a name, the later ones are numbered
		k := it.Type + " " + n
		if seen[k] > 0 {
			n = fmt.Sprint(n, seen[k]-1)
		}
		seen[k]++
		it.goName = camel(n)
	}
	return items, nil
}
