// C40: host conversions, lookups, formatting and failure helpers against their definitions.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"time"

	cc "github.com/brevis-network/zk-utils/common/circuits"
	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/brevis-network/zk-utils/common/s3api"
	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/ethereum/go-ethereum/common"

	"verif/harness/mc"
)

func main() {
	if op := os.Getenv("C40_HELPER"); op != "" {
		helper(op)
		os.Exit(0)
	}
	mc.Main(mc.Meta{Prop: "C40",
		Rule:        "decimal text: every string up to a length over an alphabet of digits, signs and other characters, and every boundary number in every written form; times: every boundary millisecond and second with every sub-millisecond part in several zones; addresses: every byte-slice length and every one-bit change; lookups: every list up to a length over a small alphabet; keys of slots: all pairs; text of updates and events: every single-field change; opening a file: every state of the path; failure helpers: every outcome in a process of its own",
		Assumptions: []string{"the time zone of a returned time is not part of the property, only the instant"},
	}, run)
}

func run(c *mc.Ctx) {
	texts(c)
	times(c)
	addresses(c)
	lookups(c)
	keys(c)
	shown(c)
	files(c)
	checks(c)
}

func try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = "panic: " + fmt.Sprint(r)
		}
	}()
	f()
	return
}

// words are all strings up to length n over the alphabet.
func words(alphabet []string, n int) []string {
	all, last := []string{""}, []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alphabet {
				next = append(next, w+a)
			}
		}
		all, last = append(all, next...), next
	}
	return all
}

var decimal = regexp.MustCompile(`^[+-]?[0-9]+$`)

func texts(c *mc.Ctx) {
	l := words([]string{"0", "1", "9", "+", "-", "_", " ", ".", "x", "e", "٣"}, mc.Pick(c, 3, 5))
	n := len(l)
	pow := func(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }
	for _, k := range []uint{0, 7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128, 254, 256, 512} {
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(pow(k), big.NewInt(d)).String()
			for _, s := range []string{x, "+" + x, "-" + x, "00" + x, x + "0", " " + x, x + " ", x + "x", "0x" + x, "--" + x, "+-" + x, x[:1] + "_" + x[1:], x + "\n", x + ".0"} {
				l = append(l, s)
			}
		}
	}
	c.Each("decimal text", len(l), func(i int) string { return fmt.Sprintf("%q", l[i]) }, func(i int) string {
		s := l[i]
		v := new(big.Int)
		if decimal.MatchString(s) {
			v.SetString(strings.TrimPrefix(s, "+"), 10)
		}
		wi, wu := 0, uint64(0)
		if v.IsInt64() && v.Int64() >= math.MinInt && v.Int64() <= math.MaxInt {
			wi = int(v.Int64())
		}
		if v.IsUint64() {
			wu = v.Uint64()
		}
		var m string
		p := try(func() {
			if g := utils.Str2BigInt(s); g == nil || g.Cmp(v) != 0 {
				m = fmt.Sprintf("Str2BigInt gives %v, want %v", g, v)
			}
			if g := utils.Str2Int(s); g != wi {
				m = fmt.Sprintf("Str2Int gives %d, want %d", g, wi)
			}
			if g := utils.Str2Uint64(s); g != wu {
				m = fmt.Sprintf("Str2Uint64 gives %d, want %d", g, wu)
			}
		})
		c.State(1)
		c.Trans(3)
		if p != "" {
			return p
		}
		return m
	})
	_ = n
}

func times(c *mc.Ctx) {
	var ms []uint64
	for _, b := range []uint64{0, 1, 999, 1000, 1001, 86400000, 1 << 31, 1 << 32, 1 << 41, 1700000000123, 4294967295999, 4294967296000, 9223372036854, 9223372036855, 9223372036856, 18446744073709, 18446744073710, 253402300799999} {
		for d := uint64(0); d < uint64(mc.Pick(c, 2, 20)); d++ {
			ms = append(ms, b+d)
		}
	}
	subs := []time.Duration{0, 1, 499999, 500000, 999999}
	zones := []*time.Location{time.UTC, time.FixedZone("a", 14*3600), time.FixedZone("b", -12*3600)}
	epoch := time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC)
	at := func(ms uint64) time.Time { // by calendar, not by nanoseconds since 1970
		d := ms / 86400000
		r := time.Duration(ms%86400000) * time.Millisecond
		return epoch.AddDate(0, 0, int(d)).Add(r)
	}
	c.Each("times", len(ms)*len(subs)*len(zones), func(i int) string {
		return fmt.Sprintf("%d ms + %d ns zone %d", ms[i/len(subs)/len(zones)], subs[i/len(zones)%len(subs)], i%len(zones))
	}, func(i int) string {
		m, sub, z := ms[i/len(subs)/len(zones)], subs[i/len(zones)%len(subs)], zones[i%len(zones)]
		c.State(1)
		c.Trans(3)
		t := at(m)
		if g := utils.TsMilli(t.Add(sub).In(z)); g != m {
			return fmt.Sprintf("TsMilli gives %d", g)
		}
		if g := utils.TsMilliToTime(m); !g.Equal(t) {
			return fmt.Sprintf("TsMilliToTime gives %v, want %v", g.UTC(), t)
		}
		if g := utils.TsSecToTime(m / 1000); !g.Equal(at(m / 1000 * 1000)) {
			return fmt.Sprintf("TsSecToTime gives %v", g.UTC())
		}
		return ""
	})
}

func addresses(c *mc.Ctx) {
	const lens = 41
	c.Each("addresses", lens*21*8, func(i int) string { return fmt.Sprintf("%d bytes, change %d", i%lens, i/lens) }, func(i int) string {
		b := make([]byte, i%lens)
		for k := range b {
			b[k] = byte(k*37 + 11)
		}
		if k := i / lens; k/8 < len(b) && k > 0 {
			b[len(b)-1-k/8] ^= 1 << (k % 8)
		}
		var a common.Address // the last twenty bytes
		for k := 0; k < 20 && k < len(b); k++ {
			a[19-k] = b[len(b)-1-k]
		}
		w := ""
		for _, x := range a {
			w += string("0123456789abcdef"[x>>4]) + string("0123456789abcdef"[x&15])
		}
		c.State(1)
		c.Trans(7)
		for n, g := range map[string]string{"Addr2Hex": utils.Addr2Hex(a), "Addr2Hex0x": strings.Replace(utils.Addr2Hex0x(a), "0x", "", 1), "Bytes2AddrHex": utils.Bytes2AddrHex(b), "Bytes2AddrHex0x": strings.Replace(utils.Bytes2AddrHex0x(b), "0x", "", 1)} {
			if g != w {
				return fmt.Sprintf("%s gives %s, want %s", n, g, w)
			}
		}
		if !strings.HasPrefix(utils.Addr2Hex0x(a), "0x") || !strings.HasPrefix(utils.Bytes2AddrHex0x(b), "0x") {
			return "0x is missing"
		}
		if utils.Bytes2Addr(b) != a || utils.Hex2Addr(w) != a || utils.Hex2Addr("0x"+w) != a {
			return "another address"
		}
		return ""
	})
}

func lookups(c *mc.Ctx) {
	lists := words([]string{"0", "1", "2", "3"}, mc.Pick(c, 4, 6))
	vals := []uint64{0, 1, 128, math.MaxUint64}
	strs := []string{"", "a", "ab", "A"}
	c.Each("membership", len(lists)*4, func(i int) string { return fmt.Sprintf("%s among %q", strs[i%4], lists[i/4]) }, func(i int) string {
		var s []string
		var u []uint64
		want := false
		for _, k := range lists[i/4] {
			s, u = append(s, strs[k-'0']), append(u, vals[k-'0'])
			want = want || int(k-'0') == i%4
		}
		c.State(1)
		c.Trans(2)
		if utils.Contains(s, strs[i%4]) != want || cc.ChunkIndexFound(vals[i%4], u) != want {
			return fmt.Sprintf("want %v", want)
		}
		return ""
	})
	c.Each("partition", len(lists)*16, func(i int) string { return fmt.Sprintf("%q keys %b", lists[i/16], i%16) }, func(i int) string {
		// values: position and residue; keys: a set of residues; a value may belong to its residue and to its double
		type val struct {
			pos int
			r   byte
		}
		var vs []val
		for k := range lists[i/16] {
			vs = append(vs, val{k, lists[i/16][k] - '0'})
		}
		var ks []byte
		for k := byte(0); k < 4; k++ {
			if i%16>>k&1 == 1 {
				ks = append(ks, k)
			}
		}
		f := func(k byte, v val) bool { return v.r == k || v.r*2%4 == k }
		got := utils.Partition(vs, ks, f)
		c.State(1)
		c.Trans(1)
		for k := byte(0); k < 5; k++ {
			var w []val
			if bytes.IndexByte(ks, k) >= 0 {
				for _, v := range vs {
					if f(k, v) {
						w = append(w, v)
					}
				}
			}
			if g := got[k]; len(g) != len(w) || len(w) > 0 && !reflect.DeepEqual(g, w) {
				return fmt.Sprintf("key %d has %v, want %v", k, g, w)
			}
		}
		return ""
	})
	known := map[uint64]uint64{42161: 185536768, 10: 119300224, 97: 41759160, 56: 40077400}
	ids := []uint64{0, 1, 5, 9, 10, 11, 55, 56, 57, 96, 97, 98, 137, 42160, 42161, 42162, 1 << 32, 1<<32 + 10, math.MaxUint64}
	c.Each("start blocks", len(ids), func(i int) string { return fmt.Sprint(ids[i]) }, func(i int) string {
		g, w := utils.GetStartBlockInfo(ids[i]), known[ids[i]]
		c.State(1)
		if g.ChainId != ids[i] || g.BlockNumber != w || g.InitialIndex != w/cc.HeaderSizePerChunk {
			return fmt.Sprint(g)
		}
		return ""
	})
	c.One("constants", "chunks", func() string {
		if cc.HeaderSizePerChunk != 1<<cc.ChunkDepth || cc.ChunkSizePerSMT != 1<<cc.SMTDepth {
			return "the sizes of chunks or of the tree differ from their depths"
		}
		return ""
	})
}

func keys(c *mc.Ctx) {
	pre := []string{"", "a", "a/b", "a/1", "1", "a/1.json", "/"}
	slots := []uint64{0, 1, 9, 10, 11, 1 << 32, math.MaxUint64 - 1, math.MaxUint64}
	n := len(pre) * len(slots)
	key := func(i int) string { return s3api.ObjectKey(pre[i/len(slots)], slots[i%len(slots)]) }
	c.Each("keys of slots", n*n, func(i int) string { return fmt.Sprintf("%q %q", key(i/n), key(i%n)) }, func(i int) string {
		a, b := key(i/n), key(i%n)
		c.State(1)
		if (a == b) != (i/n == i%n) {
			return "two slots share a key"
		}
		if w := pre[i/n/len(slots)] + "/" + new(big.Int).SetUint64(slots[i/n%len(slots)]).String() + ".json"; a != w {
			return "want " + w
		}
		return ""
	})
}

// leaves are the settable scalars, arrays of bytes and big integers of a value.
func leaves(v reflect.Value, path string, f func(path string, v reflect.Value)) {
	switch {
	case v.Type() == reflect.TypeOf((*big.Int)(nil)), v.Kind() == reflect.Uint64, v.Kind() == reflect.Array && v.Type().Elem().Kind() == reflect.Uint8:
		f(path, v)
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), path+"."+v.Type().Field(i).Name, f)
		}
	case v.Kind() == reflect.Array || v.Kind() == reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			leaves(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	default:
		panic("harness: " + path + " " + v.Type().String())
	}
}

// fill gives every slice two elements and every big integer a value.
func fill(v reflect.Value) {
	switch {
	case v.Type() == reflect.TypeOf((*big.Int)(nil)):
		v.Set(reflect.ValueOf(big.NewInt(7)))
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i))
		}
	case v.Kind() == reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
		fallthrough
	case v.Kind() == reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i))
		}
	}
}

func shown(c *mc.Ctx) {
	vals := []func() reflect.Value{}
	for _, x := range []fmt.Stringer{eth.LightClientUpdate{}, eth.HeaderWithExecution{}, eth.ExecutionPayload{}, eth.LeafWithBranch{}, eth.BeaconBlockHeader{}, eth.SyncAggregate{}, eth.ISMTSmtUpdate{}, eth.IBeaconVerifierProof{}} {
		t := reflect.TypeOf(x)
		vals = append(vals, func() reflect.Value {
			v := reflect.New(t).Elem()
			fill(v)
			return v
		})
	}
	text := func(v reflect.Value) string { return v.Interface().(fmt.Stringer).String() }
	type job struct {
		t    int
		path string
		n    int
	}
	var jobs []job
	for t := range vals {
		leaves(vals[t](), "", func(p string, v reflect.Value) {
			k := 3
			if v.Kind() == reflect.Array {
				k = v.Len() * 2
			}
			for i := 0; i < k; i++ {
				jobs = append(jobs, job{t, p, i})
			}
		})
	}
	c.Each("text of updates", len(jobs), func(i int) string { return fmt.Sprintf("%d%s %d", jobs[i].t, jobs[i].path, jobs[i].n) }, func(i int) string {
		j := jobs[i]
		a, b := vals[j.t](), vals[j.t]()
		var m string
		leaves(b, "", func(p string, v reflect.Value) {
			if p != j.path {
				return
			}
			switch {
			case v.Kind() == reflect.Uint64:
				v.SetUint([]uint64{1, 1 << 40, math.MaxUint64}[j.n])
			case v.Kind() == reflect.Array:
				v.Index(j.n / 2).SetUint([]uint64{1, 0x80}[j.n%2])
			default:
				v.Set(reflect.ValueOf([]*big.Int{new(big.Int), big.NewInt(8), new(big.Int).Lsh(big.NewInt(1), 255)}[j.n]))
			}
		})
		c.State(1)
		c.Trans(2)
		if p := try(func() {
			x, y := text(a), text(b)
			if x == y {
				m = "the change does not show"
			}
			if strings.Contains(x+y, "%!") {
				m = "format error"
			}
		}); p != "" {
			return p
		}
		return m
	})
	// events: every id with its nonce, also when the lists differ in length
	const n = 4
	c.Each("text of events", n*n*3, func(i int) string { return fmt.Sprintf("%d ids, %d nonces, kind %d", i/3/n, i/3%n, i%3) }, func(i int) string {
		ids, nonces := i/3/n, i/3%n
		var e eth.BrevisRequestOpRequestsFulfilled
		var want []string
		for k := 0; k < ids; k++ {
			id := [32]byte{byte(k + 1), 31: byte(k + 100)}
			e.ProofIds = append(e.ProofIds, id)
			w := fmt.Sprintf("%x", id)
			if k < nonces {
				w += fmt.Sprintf(" nonce %d>", math.MaxUint64-uint64(k))
			}
			want = append(want, w)
		}
		for k := 0; k < nonces; k++ {
			e.Nonces = append(e.Nonces, math.MaxUint64-uint64(k))
		}
		c.State(1)
		c.Trans(1)
		var s string
		p := try(func() {
			switch i % 3 {
			case 0:
				s = e.String()
			case 1:
				s = e.PrettyLog(77)
				want = append(want, "77")
			default:
				o := &eth.BrevisRequestRequestSent{ProofId: [32]byte{byte(ids), 31: 9}, Nonce: uint64(nonces) << 60}
				s = o.PrettyLog(78) + o.String()
				want = []string{"78", fmt.Sprintf("%x nonce %d>", o.ProofId, o.Nonce)}
			}
		})
		if p != "" {
			return p
		}
		for _, w := range want {
			if !strings.Contains(s, w) {
				return fmt.Sprintf("%q does not show %q", s, w)
			}
		}
		return ""
	})
}

func files(c *mc.Ctx) {
	kinds := []string{"missing", "empty", "one byte", "large", "read only", "directory", "missing directory", "file as directory", "link", "dangling link"}
	large := bytes.Repeat([]byte("abc"), 1<<17)
	c.Each("open or create", len(kinds), func(i int) string { return kinds[i] }, func(i int) (m string) {
		d, err := os.MkdirTemp("", "c40")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		p := filepath.Join(d, "f")
		var want []byte
		ok := true
		switch kinds[i] {
		case "empty":
			os.WriteFile(p, nil, 0o600)
		case "one byte":
			want = []byte{9}
			os.WriteFile(p, want, 0o600)
		case "large":
			want = large
			os.WriteFile(p, want, 0o600)
		case "read only":
			want = []byte("ro")
			os.WriteFile(p, want, 0o400)
		case "directory":
			os.Mkdir(p, 0o700)
		case "missing directory":
			p, ok = filepath.Join(d, "x", "f"), false
		case "file as directory":
			os.WriteFile(p, []byte("x"), 0o600)
			p, ok = filepath.Join(p, "f"), false
		case "link":
			want = []byte("linked")
			os.WriteFile(p+"2", want, 0o600)
			os.Symlink(p+"2", p)
		case "dangling link":
			os.Symlink(p+"2", p)
		}
		c.State(1)
		c.Trans(2)
		for k := 0; k < 2; k++ {
			f, err := utils.CreateOrOpenFile(p)
			if kinds[i] == "directory" { // may be opened, but nothing else
				if f != nil {
					f.Close()
				}
				continue
			}
			if (err == nil) != ok || (f == nil) == ok {
				return fmt.Sprintf("call %d: %v", k, err)
			}
			if !ok {
				continue
			}
			var b bytes.Buffer
			_, err = b.ReadFrom(f)
			f.Close()
			if err != nil || !bytes.Equal(b.Bytes(), want) {
				return fmt.Sprintf("call %d reads %d bytes: %v", k, b.Len(), err)
			}
			if g, err := os.ReadFile(p); err != nil || !bytes.Equal(g, want) {
				return fmt.Sprintf("call %d changed the file", k)
			}
		}
		return ""
	})
}

var helpers = []string{"err nil", "err set", "ok true", "ok false", "errf nil", "errf set", "okf true", "okf false"}

func helper(op string) {
	e := errors.New("the cause")
	switch op {
	case "err nil":
		utils.CheckErr(nil, "while testing")
	case "err set":
		utils.CheckErr(e, "while testing")
	case "ok true":
		utils.CheckOk(true, "while testing")
	case "ok false":
		utils.CheckOk(false, "while testing")
	case "errf nil":
		utils.CheckErrf(nil, "while %s", "testing")
	case "errf set":
		utils.CheckErrf(e, "while %s", "testing")
	case "okf true":
		utils.CheckOkf(true, "while %s", "testing")
	case "okf false":
		utils.CheckOkf(false, "while %s", "testing")
	}
	fmt.Print("went on")
}

func checks(c *mc.Ctx) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c.Each("failure helpers", len(helpers), func(i int) string { return helpers[i] }, func(i int) string {
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "C40_HELPER="+helpers[i])
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		err := cmd.Run()
		c.State(1)
		c.Trans(1)
		failed := i%2 == 1
		if failed != (err != nil) || failed == (out.String() == "went on") {
			return fmt.Sprintf("%v, output %q", err, out.String())
		}
		if failed && !strings.Contains(errs.String(), "while testing") {
			return fmt.Sprintf("the message is missing: %q", errs.String())
		}
		if failed && strings.Contains(helpers[i], "err") && !strings.Contains(errs.String(), "the cause") {
			return fmt.Sprintf("the cause is missing: %q", errs.String())
		}
		return ""
	})
}
