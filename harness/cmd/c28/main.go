// C28: the beacon client against every response.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/brevis-network/zk-utils/common/eth"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/ethclient/gethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"verif/harness/mc"
)

func main() {
	mc.Main(mc.Meta{Prop: "C28",
		Rule:        "the client runs against a transport that plays every response of the space: every status with a valid body, every transport error, the body breaking off after every byte, every truncation, every single-byte change from a set, and the valid documents with every node removed or replaced by every value of a set (also two nodes at once), for every supported and unsupported chain; a second parser decides what the response contains; every answered body must be closed",
		Assumptions: []string{"requests go through http.DefaultTransport", "an error is the zero answer (0, false)", "keys are compared case-sensitively, so bodies do not contain case variants of the keys", "a server that never answers is not explored"},
	}, run)
}

// response is what the transport plays for one request.
type response struct {
	name   string
	status int
	header http.Header
	body   string
	fail   error // instead of a response
	brk    int   // body fails after brk bytes, if > 0 (brk-1 bytes)
}

type body struct {
	r      io.Reader
	brk    bool
	closed *bool
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.brk {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (b *body) Close() error { *b.closed = true; return nil }

type transport struct {
	mu   sync.Mutex
	play map[string]response // by path with host
	seen map[string][]*bool
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	u := r.URL.Scheme + "://" + r.URL.Host + r.URL.Path
	t.mu.Lock()
	defer t.mu.Unlock()
	p, ok := t.play[u]
	if r.Method != "GET" || !ok {
		t.seen["unexpected"] = append(t.seen["unexpected"], nil)
		return nil, errors.New("unexpected request " + r.Method + " " + u)
	}
	closed := new(bool)
	t.seen[u] = append(t.seen[u], closed)
	if p.fail != nil {
		*closed = true
		return nil, p.fail
	}
	b := p.body
	if p.brk > 0 {
		b = b[:p.brk-1]
	}
	h := p.header
	if h == nil {
		h = http.Header{"Content-Type": {"application/json"}}
	}
	return &http.Response{StatusCode: p.status, Status: fmt.Sprint(p.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, ContentLength: -1, Request: r,
		Body: &body{strings.NewReader(b), p.brk > 0, closed}}, nil
}

var tr = &transport{play: map[string]response{}, seen: map[string][]*bool{}}

const (
	slotDoc  = `{"status":"OK","data":[{"blockHash":"0xab","blockNumber":17,"posConsensus":{"executionBlockNumber":3,"proposerIndex":4,"slot":6,"epoch":5,"finalized":true},"x":[1,{"slot":9}]},{"posConsensus":{"slot":8,"finalized":false}}]}`
	blockDoc = `{"status":"OK","data":{"slot":5,"exec_block_number":7,"exec_block_hash":"0xcd","votes":[{"exec_block_number":9}],"graffiti":null}}`
)

// what a document contains, by a parser of its own
func parse(b string) (any, bool) {
	d := json.NewDecoder(strings.NewReader(b))
	d.UseNumber()
	var v any
	if d.Decode(&v) != nil {
		return nil, false
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, false
	}
	return v, true
}
func dig(v any, path ...any) any {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, _ := v.(map[string]any)
			v = m[k]
		case int:
			a, _ := v.([]any)
			if k >= len(a) {
				return nil
			}
			v = a[k]
		}
	}
	return v
}

// number: (value, is an integer in range, is written as plain digits)
func number(v any) (uint64, bool, bool) {
	n, ok := v.(json.Number)
	if !ok {
		return 0, false, false
	}
	if u, err := strconv.ParseUint(string(n), 10, 64); err == nil {
		return u, true, true
	}
	r, ok := new(big.Rat).SetString(string(n))
	if !ok || !r.IsInt() || !r.Num().IsUint64() {
		return 0, false, false
	}
	return r.Num().Uint64(), true, false
}

type answer struct {
	n  uint64
	ok bool
}

// allowed answers, and whether only the first is
func slotAnswers(b string) []answer {
	v, ok := parse(b)
	e := answer{}
	if !ok {
		return []answer{e}
	}
	n, ok, plain := number(dig(v, "data", 0, "posConsensus", "slot"))
	f, isb := dig(v, "data", 0, "posConsensus", "finalized").(bool)
	if !ok || !isb {
		return []answer{e}
	}
	if plain && wellFormed(v, true) {
		return []answer{{n, f}}
	}
	return []answer{e, {n, f}}
}
func blockAnswers(b string) []answer {
	v, ok := parse(b)
	if !ok {
		return []answer{{}}
	}
	n, ok, plain := number(dig(v, "data", "exec_block_number"))
	if !ok {
		return []answer{{}}
	}
	if plain && wellFormed(v, false) {
		return []answer{{n, false}}
	}
	return []answer{{}, {n, false}}
}

// wellFormed: everything in its documented shape, so an answer is due.
func wellFormed(v any, slot bool) bool {
	doc := blockDoc
	if slot {
		doc = slotDoc
	}
	w, _ := parse(doc)
	return shape(v, w)
}
func shape(v, w any) bool {
	switch y := w.(type) {
	case map[string]any:
		x, ok := v.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range y {
			if z, ok := x[k]; !ok || !shape(z, y[k]) {
				return false
			}
		}
		return true
	case []any:
		x, ok := v.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range y {
			if !shape(x[i], y[i]) {
				return false
			}
		}
		return true
	case json.Number:
		_, _, plain := number(v)
		return plain
	}
	return reflect.TypeOf(v) == reflect.TypeOf(w)
}

// tree edits
type raw string

func clone(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, y := range x {
			m[k] = clone(y)
		}
		return m
	case []any:
		a := []any{}
		for _, y := range x {
			a = append(a, clone(y))
		}
		return a
	}
	return v
}
func text(v any) string {
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var r []string
		for _, k := range ks {
			r = append(r, fmt.Sprintf("%q:%s", k, text(x[k])))
		}
		return "{" + strings.Join(r, ",") + "}"
	case []any:
		var r []string
		for _, y := range x {
			r = append(r, text(y))
		}
		return "[" + strings.Join(r, ",") + "]"
	case raw:
		return string(x)
	}
	b, _ := json.Marshal(v)
	return string(b)
}
func paths(v any, at []any) (r [][]any) {
	r = append(r, append([]any{}, at...))
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r = append(r, paths(x[k], append(at[:len(at):len(at)], k))...)
		}
	case []any:
		for i := range x {
			r = append(r, paths(x[i], append(at[:len(at):len(at)], i))...)
		}
	}
	return
}

type gone struct{}

func set(v any, path []any, to any) any {
	if len(path) == 0 {
		if _, del := to.(gone); del {
			return raw("")
		}
		return to
	}
	switch k := path[0].(type) {
	case string:
		m, ok := v.(map[string]any)
		if !ok {
			return v
		}
		if _, del := to.(gone); del && len(path) == 1 {
			delete(m, k)
		} else if _, ok := m[k]; ok {
			m[k] = set(m[k], path[1:], to)
		}
		return m
	case int:
		a, ok := v.([]any)
		if !ok || k >= len(a) {
			return v
		}
		if _, del := to.(gone); del && len(path) == 1 {
			return append(a[:k:k], a[k+1:]...)
		}
		a[k] = set(a[k], path[1:], to)
		return a
	}
	panic("harness")
}

var subs = []any{gone{}, raw("null"), raw("true"), raw("false"), raw("0"), raw(`""`), raw(`"6"`), raw("[]"), raw("{}"), raw("[null]"), raw("[{}]"), raw("-1"), raw("6.0"), raw("6.5"), raw("1e3"), raw("1e-3"), raw("1e400"), raw("9007199254740993"), raw("9223372036854775808"), raw("18446744073709551615"), raw("18446744073709551616"), raw("-0"), raw("06"), raw("NaN"), raw(`{"slot":11,"finalized":true,"exec_block_number":11,"posConsensus":{"slot":11,"finalized":true}}`), raw(`[{"posConsensus":{"slot":12,"finalized":true}}]`)}

func responses(c *mc.Ctx, doc string, deep bool) (rs []response) {
	add := func(r response) {
		if r.status == 0 {
			r.status = 200
		}
		rs = append(rs, r)
	}
	for s := 200; s <= 599; s++ {
		add(response{name: fmt.Sprint("status ", s), status: s, body: doc})
	}
	for _, s := range []int{301, 302, 303, 307, 308} {
		add(response{name: fmt.Sprint("redirect ", s), status: s, body: doc, header: http.Header{"Location": {"https://elsewhere.invalid/x"}}})
		add(response{name: fmt.Sprint("bad redirect ", s), status: s, body: doc, header: http.Header{"Location": {"://"}}})
	}
	for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, errors.New("connection refused"), context.DeadlineExceeded, context.Canceled} {
		add(response{name: "transport error " + e.Error(), fail: e})
	}
	for n := 0; n < len(doc); n++ {
		add(response{name: fmt.Sprint("cut to ", n), body: doc[:n]})
	}
	for n := 0; n <= len(doc); n++ {
		add(response{name: fmt.Sprint("broken off after ", n), body: doc, brk: n + 1})
	}
	for n := 0; n < len(doc); n++ {
		for _, b := range []byte("\x00 \"{}[]:,0-.en9\\\xff") {
			if doc[n] != b {
				add(response{name: fmt.Sprintf("byte %d is %q", n, b), body: doc[:n] + string([]byte{b}) + doc[n+1:]})
			}
		}
	}
	for _, b := range []string{"", " ", "null", "true", "1", `"x"`, "[]", "{}", "<html>", doc + doc, doc + "x", " \n" + doc + " \n", "\xef\xbb\xbf" + doc, strings.Repeat("[", 20000), `{"data":` + strings.Repeat("[", 20000), strings.Repeat(`{"data":`, 5000)} {
		n := b
		if len(n) > 60 {
			n = fmt.Sprintf("%s.. %d", n[:20], len(b))
		}
		add(response{name: "body " + n, body: b})
	}
	root, _ := parse(doc)
	ps := paths(root, nil)
	for i, p := range ps {
		for _, s := range subs {
			one := set(clone(root), p, s)
			add(response{name: fmt.Sprintf("%v=%v", p, s), body: text(one)})
			if !deep {
				continue
			}
			for _, q := range ps[i+1:] {
				for _, t := range subs {
					add(response{name: fmt.Sprintf("%v=%v %v=%v", p, s, q, t), body: text(set(clone(one), q, t))})
				}
			}
		}
	}
	return
}

func run(c *mc.Ctx) {
	http.DefaultTransport = tr
	type q struct {
		slot  bool
		chain uint64
		r     response
	}
	var qs []q
	for _, chain := range []uint64{1, 5} {
		deep := chain == 1 || c.Thorough()
		for _, r := range responses(c, slotDoc, deep) {
			qs = append(qs, q{true, chain, r})
		}
		for _, r := range responses(c, blockDoc, deep) {
			qs = append(qs, q{false, chain, r})
		}
	}
	host := func(chain uint64) string {
		if chain == 5 {
			return "https://goerli.beaconcha.in"
		}
		return "https://beaconcha.in"
	}
	kind := func(slot bool) string {
		if slot {
			return "GetSlot"
		}
		return "GetBlock"
	}
	call := func(slot bool, chain, n uint64) (a answer, crash string) {
		defer func() {
			if r := recover(); r != nil {
				crash = fmt.Sprint("panic: ", r)
			}
		}()
		cl := &eth.Client{ChainId: chain}
		if slot {
			a.n, a.ok = cl.GetSlot(n)
		} else {
			a.n = cl.GetBlock(n)
		}
		return
	}
	c.Each("responses", len(qs), func(i int) string { return fmt.Sprintf("%s chain %d: %s", kind(qs[i].slot), qs[i].chain, qs[i].r.name) }, func(i int) string {
		x := qs[i]
		n := uint64(i) + 1000
		if i%5 == 4 {
			n = 1<<64 - 1 - uint64(i)
		}
		url := fmt.Sprintf("%s/api/v1/execution/block/%d", host(x.chain), n)
		want := []answer{{}}
		if !x.slot {
			url = fmt.Sprintf("%s/api/v1/slot/%d", host(x.chain), n)
		}
		if x.r.status == 200 && x.r.fail == nil {
			if x.slot {
				want = slotAnswers(x.r.body)
			} else {
				want = blockAnswers(x.r.body)
			}
			if x.r.brk > 0 {
				want = append(want, answer{})
				if x.r.brk <= len(x.r.body) {
					want = want[len(want)-1:]
				}
			}
		}
		tr.mu.Lock()
		tr.play[url] = x.r
		tr.mu.Unlock()
		c.State(1)
		c.Trans(1)
		c.Trace(1)
		got, crash := call(x.slot, x.chain, n)
		tr.mu.Lock()
		defer tr.mu.Unlock()
		sent := tr.seen[url]
		delete(tr.play, url)
		delete(tr.seen, url)
		if crash != "" {
			return crash
		}
		if len(sent) == 0 {
			return "no request was made for " + url
		}
		okay := false
		for _, w := range want {
			okay = okay || got == w
		}
		if !okay {
			return fmt.Sprintf("answer %v, the response allows %v", got, want)
		}
		for _, cl := range sent {
			if !*cl {
				return "the response was never closed"
			}
		}
		return ""
	})
	// chains
	chains := []uint64{0, 2, 3, 4, 6, 10, 55, 56, 57, 96, 97, 98, 137, 42161, 1<<64 - 1, 1<<32 + 1}
	nums := []uint64{0, 1, 17, 1<<32 - 1, 1 << 53, 1<<53 + 1, 1<<64 - 1}
	c.Each("chains", 2*len(chains)*len(nums), func(i int) string {
		return fmt.Sprintf("%s chain %d of %d", kind(i%2 == 0), chains[i/2/len(nums)], nums[i/2%len(nums)])
	}, func(i int) string {
		chain, n := chains[i/2/len(nums)], nums[i/2%len(nums)]
		want := answer{}
		if i%2 == 1 && (chain == 56 || chain == 97) {
			want.n = n
		}
		c.State(1)
		got, crash := call(i%2 == 0, chain, n)
		if crash != "" || got != want {
			return fmt.Sprint(crash, got, " want ", want)
		}
		return ""
	})
	// exact numbers in both calls
	c.Each("numbers", 64*3*2*2, func(i int) string { return fmt.Sprint(i) }, func(i int) string {
		v := uint64(1)<<(i/12) + uint64(i/4%3) - 1
		fin := i/2%2 == 0
		slot := i%2 == 0
		n := uint64(1)<<40 + uint64(i)
		url := fmt.Sprintf("https://beaconcha.in/api/v1/execution/block/%d", n)
		r := response{status: 200, body: fmt.Sprintf(`{"data":[{"posConsensus":{"slot":%d,"finalized":%v}}]}`, v, fin)}
		want := answer{v, fin}
		if !slot {
			url = fmt.Sprintf("https://beaconcha.in/api/v1/slot/%d", n)
			r.body = fmt.Sprintf(`{"data":{"exec_block_number":%d}}`, v)
			want.ok = false
		}
		tr.mu.Lock()
		tr.play[url] = r
		tr.mu.Unlock()
		c.State(1)
		got, crash := call(slot, 1, n)
		if crash != "" || got != want {
			return fmt.Sprint(crash, got, " want ", want)
		}
		return ""
	})
	c.One("requests", "unexpected", func() string {
		tr.mu.Lock()
		defer tr.mu.Unlock()
		// redirects lead elsewhere on purpose: 5 codes in both calls and chains
		if n := len(tr.seen["unexpected"]); n != 20 && !c.Replaying() {
			return fmt.Sprintf("%d requests to other addresses", n)
		}
		return ""
	})
	proofs(c)
}

// account proofs are passed through the node's RPC
type svc struct{ got []any }

func (s *svc) GetProof(a common.Address, keys []string, blk rpc.BlockNumberOrHash) (map[string]any, error) {
	s.got = []any{a, keys, blk.String()}
	var st []map[string]any
	for i, k := range keys {
		st = append(st, map[string]any{"key": k, "value": hexutil.EncodeBig(big.NewInt(int64(i) + 5)), "proof": []string{"0x0" + fmt.Sprint(i)}})
	}
	return map[string]any{"address": a, "accountProof": []string{"0xaa", "0xbb"}, "balance": "0x7", "codeHash": common.Hash{1}, "nonce": "0x3", "storageHash": common.Hash{2}, "storageProof": st}, nil
}

func proofs(c *mc.Ctx) {
	blocks := []*big.Int{nil, new(big.Int), big.NewInt(1), big.NewInt(1 << 40), big.NewInt(-2)}
	c.Each("account proofs", 4*len(blocks), func(i int) string { return fmt.Sprintf("%d keys at %v", i%4, blocks[i/4]) }, func(i int) string {
		s := &svc{}
		srv := rpc.NewServer()
		if err := srv.RegisterName("eth", s); err != nil {
			panic(err)
		}
		rc := rpc.DialInProc(srv)
		defer rc.Close()
		cl := &eth.Client{GethClient: gethclient.New(rc), ChainId: 1}
		var keys []string
		for k := 0; k < i%4; k++ {
			keys = append(keys, fmt.Sprintf("0x%064x", k+1))
		}
		a := common.Address{9, byte(i)}
		c.State(1)
		r, err := cl.GetProof(context.Background(), a, keys, blocks[i/4])
		if err != nil {
			return err.Error()
		}
		want := "latest"
		if b := blocks[i/4]; b != nil {
			var n rpc.BlockNumber
			n = rpc.BlockNumber(b.Int64())
			want = n.String()
		}
		if s.got[0] != a || fmt.Sprint(s.got[1]) != fmt.Sprint(keys) || !strings.Contains(norm(s.got[2].(string)), norm(want)) {
			return fmt.Sprintf("asked for %v, want block %s", s.got, want)
		}
		if r.Address != a || len(r.StorageProof) != len(keys) || r.Balance.Int64() != 7 || r.Nonce != 3 || r.CodeHash != (common.Hash{1}) || r.StorageHash != (common.Hash{2}) || !reflect.DeepEqual(r.AccountProof, []string{"0xaa", "0xbb"}) {
			return fmt.Sprintf("answer %+v", r)
		}
		for k, p := range r.StorageProof {
			if p.Key != keys[k] || p.Value.Int64() != int64(k)+5 || len(p.Proof) != 1 {
				return fmt.Sprintf("storage answer %+v", p)
			}
		}
		return ""
	})
}
func norm(s string) string {
	if n, err := strconv.ParseInt(s, 0, 64); err == nil {
		return fmt.Sprint(n)
	}
	return s
}
