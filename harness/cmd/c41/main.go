// C41: contract bindings call, decode and watch exactly what the interface names.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	_ "embed"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	ethereum "github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/event"

	"verif/harness/mc"
)

//go:embed interfaces.txt
var recorded string

type entry struct {
	name                                       string
	md                                         *bind.MetaData
	abi                                        *string
	new, newCaller, newTransactor, newFilterer any
	deploy                                     any
	sessions                                   func(any, bind.CallOpts, bind.TransactOpts) []any
	raws                                       func(any) []any
}

func main() {
	mc.Main(mc.Meta{Prop: "C41",
		Rule:        "every function, event and constructor of every bound contract, through every form the binding offers it in (instance, caller, transactor, filterer, sessions, raw), on a simulated node: each parameter in turn, and all together, at several boundary and dense values, every call option, every failure of the node, replies cut short; every combination of event filters with no, one and two values per indexed parameter, logs in sequence with a broken one at every place, closing early; calldata, topics and logs built by an independent encoder from the recorded interface",
		Assumptions: []string{"the interfaces recorded in interfaces.txt are those of the deployed contracts"},
	}, run)
}

// node is the simulated chain: it records what it is asked and plays what it is told.
type node struct {
	sync.Mutex
	call    *ethereum.CallMsg
	block   *big.Int
	how     string
	hash    common.Hash
	ctx     context.Context
	reply   []byte
	code    []byte
	err     error
	txs     []*types.Transaction
	query   *ethereum.FilterQuery
	logs    []types.Log
	logErr  error
	subErr  error
	stopped bool
}

func (n *node) do(ctx context.Context, how string, m ethereum.CallMsg, b *big.Int) ([]byte, error) {
	n.ctx, n.how, n.call, n.block = ctx, how, &m, b
	return append([]byte(nil), n.reply...), n.err
}
func (n *node) CallContract(ctx context.Context, m ethereum.CallMsg, b *big.Int) ([]byte, error) {
	return n.do(ctx, "latest", m, b)
}
func (n *node) CodeAt(context.Context, common.Address, *big.Int) ([]byte, error) { return n.code, nil }
func (n *node) PendingCodeAt(context.Context, common.Address) ([]byte, error)    { return n.code, nil }
func (n *node) PendingCallContract(ctx context.Context, m ethereum.CallMsg) ([]byte, error) {
	return n.do(ctx, "pending", m, nil)
}
func (n *node) CodeAtHash(context.Context, common.Address, common.Hash) ([]byte, error) {
	return n.code, nil
}
func (n *node) CallContractAtHash(ctx context.Context, m ethereum.CallMsg, h common.Hash) ([]byte, error) {
	n.hash = h
	return n.do(ctx, "hash", m, nil)
}
func (n *node) HeaderByNumber(context.Context, *big.Int) (*types.Header, error) {
	return &types.Header{BaseFee: big.NewInt(7), Number: big.NewInt(1)}, nil
}
func (n *node) PendingNonceAt(context.Context, common.Address) (uint64, error) { return 11, nil }
func (n *node) SuggestGasPrice(context.Context) (*big.Int, error)              { return big.NewInt(9), nil }
func (n *node) SuggestGasTipCap(context.Context) (*big.Int, error)             { return big.NewInt(2), nil }
func (n *node) EstimateGas(context.Context, ethereum.CallMsg) (uint64, error)  { return 54321, nil }
func (n *node) SendTransaction(ctx context.Context, t *types.Transaction) error {
	n.ctx = ctx
	n.txs = append(n.txs, t)
	return n.err
}
func (n *node) FilterLogs(ctx context.Context, q ethereum.FilterQuery) ([]types.Log, error) {
	n.ctx, n.query = ctx, &q
	return n.logs, n.logErr
}
func (n *node) SubscribeFilterLogs(ctx context.Context, q ethereum.FilterQuery, ch chan<- types.Log) (ethereum.Subscription, error) {
	n.ctx, n.query = ctx, &q
	if n.logErr != nil {
		return nil, n.logErr
	}
	return event.NewSubscription(func(quit <-chan struct{}) error {
		defer func() { n.Lock(); n.stopped = true; n.Unlock() }()
		for _, l := range n.logs {
			select {
			case ch <- l:
			case <-quit:
				return nil
			}
		}
		if n.subErr != nil {
			return n.subErr
		}
		<-quit
		return nil
	}), nil
}

var (
	addr  = common.HexToAddress("0x1234567890abcdef1234567890abcdef12345678")
	from  = common.HexToAddress("0xfeedfacefeedfacefeedfacefeedfacefeedface")
	wrong = errors.New("the node fails")
)

type ctxKey struct{}

func run(c *mc.Ctx) {
	lines := map[string][]string{}
	var order []string
	for _, l := range strings.Split(strings.TrimSpace(recorded), "\n") {
		if l[0] != '\t' {
			order = append(order, l)
		} else {
			lines[order[len(order)-1]] = append(lines[order[len(order)-1]], l[1:])
		}
	}
	type unit struct {
		e  *entry
		it *item
	}
	var units []unit
	abis := map[string][]*item{}
	for i := range table {
		e := &table[i]
		its, err := readABI(e.md.ABI)
		if err != nil {
			its = nil
		}
		abis[e.name] = its
		for _, it := range its {
			units = append(units, unit{e, it})
		}
	}
	c.Each("interfaces", len(table), func(i int) string { return table[i].name }, func(i int) string {
		return contract(c, &table[i], abis[table[i].name], lines[table[i].name])
	})
	c.Each("members", len(units), func(i int) string { return units[i].e.name + " " + units[i].it.sig() }, func(i int) (msg string) {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprint("panic: ", r)
			}
		}()
		u := units[i]
		switch u.it.Type {
		case "function":
			return function(c, u.e, u.it)
		case "event":
			return watch(c, u.e, u.it)
		case "constructor", "error":
			return "" // constructors are part of "interfaces"; nothing is bound for errors
		case "receive", "fallback":
			return receive(c, u.e, u.it)
		}
		return "member of kind " + u.it.Type
	})
}

func out1(vs []reflect.Value) (reflect.Value, error) {
	err, _ := vs[1].Interface().(error)
	return vs[0], err
}

// instances gives every way to get at the binding of the contract.
func instances(e *entry, n *node) (full, caller, transactor, filterer reflect.Value, err error) {
	var rs []reflect.Value
	for _, f := range []any{e.new, e.newCaller, e.newTransactor, e.newFilterer} {
		v, err := out1(reflect.ValueOf(f).Call([]reflect.Value{reflect.ValueOf(addr), reflect.ValueOf(n)}))
		if err != nil {
			return v, v, v, v, err
		}
		rs = append(rs, v)
	}
	return rs[0], rs[1], rs[2], rs[3], nil
}

func txOpts(signed *[]common.Address) *bind.TransactOpts {
	return &bind.TransactOpts{From: from, Nonce: big.NewInt(5), Value: big.NewInt(77), GasPrice: big.NewInt(3), GasLimit: 99999,
		Signer: func(a common.Address, t *types.Transaction) (*types.Transaction, error) {
			*signed = append(*signed, a)
			return t, nil
		}}
}

func contract(c *mc.Ctx, e *entry, its []*item, want []string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	c.State(1)
	if its == nil {
		return "the ABI cannot be read"
	}
	if *e.abi != e.md.ABI {
		return "the two copies of the ABI differ"
	}
	// the interface is the recorded one
	var got []string
	for _, it := range its {
		got = append(got, it.line())
	}
	if e.md.Bin != "" {
		got = append(got, fmt.Sprintf("code %x", sha256.Sum256([]byte(e.md.Bin))))
	}
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		for i := 0; i < len(got) || i < len(want); i++ {
			g, w := "", ""
			if i < len(got) {
				g = got[i]
			}
			if i < len(want) {
				w = want[i]
			}
			if g != w {
				return fmt.Sprintf("interface: %q, recorded %q", g, w)
			}
		}
	}
	n := &node{}
	full, caller, transactor, filterer, err := instances(e, n)
	if err != nil {
		return err.Error()
	}
	// each function has its selector, and the code knows it
	calls, sends, logs := map[string]bool{}, map[string]bool{}, map[string]bool{}
	sigs := 0
	for _, it := range its {
		switch it.Type {
		case "function":
			sel := fmt.Sprintf("%x", it.id()[:4])
			if e.md.Sigs != nil && e.md.Sigs[sel] != it.sig() {
				return fmt.Sprintf("selector %s stands for %q, not %q", sel, e.md.Sigs[sel], it.sig())
			}
			sigs++
			if e.md.Bin != "" && it.id()[0] != 0 && len(e.md.Bin) > 400 && !strings.Contains(e.md.Bin, "63"+sel) {
				return "the code does not know " + it.sig()
			}
			if it.StateMutability == "view" || it.StateMutability == "pure" {
				calls[it.goName] = true
			} else {
				sends[it.goName] = true
			}
		case "event":
			for _, p := range []string{"Filter", "Watch", "Parse"} {
				logs[p+it.goName] = true
			}
		case "receive", "fallback":
			sends[camel(it.Type)] = true
		}
	}
	if e.md.Sigs != nil && sigs != len(e.md.Sigs) {
		return fmt.Sprintf("%d selectors for %d functions", len(e.md.Sigs), sigs)
	}
	co, to := bind.CallOpts{}, bind.TransactOpts{}
	ss := e.sessions(full.Interface(), co, to)
	for _, x := range []struct {
		v    reflect.Value
		sets []map[string]bool
	}{{caller, []map[string]bool{calls}}, {transactor, []map[string]bool{sends}}, {filterer, []map[string]bool{logs}}, {full, []map[string]bool{calls, sends, logs}},
		{reflect.ValueOf(ss[0]), []map[string]bool{calls, sends}}, {reflect.ValueOf(ss[1]), []map[string]bool{calls}}, {reflect.ValueOf(ss[2]), []map[string]bool{sends}}} {
		k := 0
		for _, s := range x.sets {
			for m := range s {
				k++
				if !x.v.MethodByName(m).IsValid() {
					return fmt.Sprintf("%v has no %s", x.v.Type(), m)
				}
			}
		}
		if x.v.NumMethod() != k {
			return fmt.Sprintf("%v has %d methods, the interface %d members", x.v.Type(), x.v.NumMethod(), k)
		}
	}
	if m := raw(c, e, its, full, n, calls); m != "" {
		return m
	}
	return deploy(c, e, its)
}

// raw checks the untyped forms.
func raw(c *mc.Ctx, e *entry, its []*item, full reflect.Value, n *node, calls map[string]bool) string {
	for k, r := range e.raws(full.Interface()) {
		if x, ok := r.(interface {
			Transfer(*bind.TransactOpts) (*types.Transaction, error)
			Transact(*bind.TransactOpts, string, ...interface{}) (*types.Transaction, error)
		}); ok {
			hasReceive := false
			for _, it := range its {
				if it.Type == "receive" || it.Type == "fallback" {
					hasReceive = true
				}
				if it.Type != "function" {
					continue
				}
				if calls[it.goName] || len(it.Inputs) > 0 || it.Name != strings.ToLower(it.goName[:1])+it.goName[1:] {
					continue
				}
				var signed []common.Address
				n.txs = nil
				tx, err := x.Transact(txOpts(&signed), it.Name)
				c.Trans(1)
				if m := sent(n, tx, err, it.id()[:4], signed); m != "" {
					return fmt.Sprintf("raw %d %s: %s", k, it.Name, m)
				}
			}
			var signed []common.Address
			n.txs = nil
			tx, err := x.Transfer(txOpts(&signed))
			c.Trans(1)
			if m := sent(n, tx, err, nil, signed); m != "" {
				return fmt.Sprintf("raw %d transfer: %s", k, m)
			}
			_ = hasReceive
		} else if k != 1 {
			return fmt.Sprintf("raw form %d cannot transact", k)
		}
		x, ok := r.(interface {
			Call(*bind.CallOpts, *[]interface{}, string, ...interface{}) error
		})
		if !ok {
			if k != 2 {
				return fmt.Sprintf("raw form %d cannot call", k)
			}
			continue
		}
		for _, it := range its {
			if it.Type != "function" || !calls[it.goName] || len(it.Inputs) > 0 || it.Name != strings.ToLower(it.goName[:1])+it.goName[1:] {
				continue
			}
			n.reply = make([]byte, 320)
			n.reply[31] = 32
			var res []interface{}
			err := x.Call(&bind.CallOpts{From: from}, &res, it.Name)
			c.Trans(1)
			if m := called(n, "latest", it.id()[:4]); m != "" {
				return fmt.Sprintf("raw %d %s: %s", k, it.Name, m)
			}
			if err == nil && len(res) != len(it.Outputs) {
				return fmt.Sprintf("raw %d %s: %d results", k, it.Name, len(res))
			}
		}
	}
	return ""
}

func sent(n *node, tx *types.Transaction, err error, data []byte, signed []common.Address) string {
	if err != nil {
		return err.Error()
	}
	if len(n.txs) != 1 || tx == nil || n.txs[0].Hash() != tx.Hash() {
		return fmt.Sprintf("%d transactions sent", len(n.txs))
	}
	if tx.To() == nil || *tx.To() != addr {
		return fmt.Sprintf("sent to %v", tx.To())
	}
	if !bytes.Equal(tx.Data(), data) {
		return fmt.Sprintf("calldata %x, want %x", tx.Data(), data)
	}
	if tx.Value().Int64() != 77 || tx.Nonce() != 5 || tx.Gas() != 99999 || tx.GasPrice().Int64() != 3 {
		return "options ignored"
	}
	if len(signed) != 1 || signed[0] != from {
		return fmt.Sprintf("signed by %v", signed)
	}
	return ""
}

func called(n *node, how string, data []byte) string {
	m := n.call
	n.call = nil
	if m == nil {
		return "no call made"
	}
	if m.To == nil || *m.To != addr || m.From != from {
		return fmt.Sprintf("called %v from %v", m.To, m.From)
	}
	if n.how != how {
		return fmt.Sprintf("called on the %s state, want %s", n.how, how)
	}
	if !bytes.Equal(m.Data, data) {
		return fmt.Sprintf("calldata %x, want %x", m.Data, data)
	}
	return ""
}

func deploy(c *mc.Ctx, e *entry, its []*item) string {
	if e.deploy == nil {
		if e.md.Bin != "" {
			return "code but no way to deploy it"
		}
		return ""
	}
	var ctor *item = &item{}
	for _, it := range its {
		if it.Type == "constructor" {
			ctor = it
		}
	}
	f := reflect.ValueOf(e.deploy)
	if f.Type().NumIn() != 2+len(ctor.Inputs) {
		return fmt.Sprintf("deployment takes %d arguments, the constructor %d", f.Type().NumIn()-2, len(ctor.Inputs))
	}
	for _, ms := range mixes(len(ctor.Inputs)) {
		args, body, err := arguments(ctor.Inputs, f.Type(), 2, "ctor", ms)
		if err != nil {
			return "deployment: " + err.Error()
		}
		n := &node{}
		var signed []common.Address
		in := append([]reflect.Value{reflect.ValueOf(txOpts(&signed)), reflect.ValueOf(n)}, args...)
		rs := f.Call(in)
		c.State(1)
		c.Trans(1)
		if err, _ := rs[3].Interface().(error); err != nil {
			return "deployment: " + err.Error()
		}
		tx := rs[1].Interface().(*types.Transaction)
		if len(n.txs) != 1 || n.txs[0].Hash() != tx.Hash() || tx.To() != nil {
			return fmt.Sprintf("deployment: %d transactions", len(n.txs))
		}
		if want := append(common.FromHex(e.md.Bin), body...); !bytes.Equal(tx.Data(), want) {
			return fmt.Sprintf("deployment: data of %d bytes ends in %x, want %d bytes that end in %x", len(tx.Data()), tail(tx.Data()), len(want), tail(want))
		}
		at := rs[0].Interface().(common.Address)
		if at != crypto.CreateAddress(from, 5) {
			return fmt.Sprintf("deployed at %v", at)
		}
		// the returned binding is one of that address
		n.txs = nil
		x := e.raws(rs[2].Interface())
		for _, k := range []int{0, 2} {
			t, err := x[k].(interface {
				Transfer(*bind.TransactOpts) (*types.Transaction, error)
			}).Transfer(txOpts(&signed))
			if err != nil || *t.To() != at {
				return fmt.Sprintf("deployment: binding of %v (%v)", t.To(), err)
			}
		}
		// a node that refuses the transaction
		n.err = wrong
		if err, _ := f.Call(in)[3].Interface().(error); !errors.Is(err, wrong) {
			return fmt.Sprintf("deployment refused: %v", err)
		}
	}
	return ""
}

func tail(b []byte) []byte { return b[max(0, len(b)-64):] }

// mixes lists the value classes of k parameters: all of one class, and each in turn of another.
func mixes(k int) (r [][]int) {
	for m := 0; m < modes; m++ {
		ms := make([]int, k)
		for i := range ms {
			ms[i] = m
		}
		r = append(r, ms)
		if k == 0 {
			return
		}
	}
	for i := 0; i < k && k > 1; i++ {
		for m := 1; m < modes; m++ {
			ms := make([]int, k)
			ms[i] = m
			r = append(r, ms)
		}
	}
	return
}

// arguments makes values of the parameters for a function whose first ones are skipped.
func arguments(ps []param, f reflect.Type, skip int, seed string, ms []int) (vs []reflect.Value, enc []byte, err error) {
	var ts []*typ
	var es [][]byte
	for i, p := range ps {
		v, e, err := value(p.t, f.In(skip+i), fmt.Sprint(seed, " ", i), ms[i])
		if err != nil {
			return nil, nil, fmt.Errorf("parameter %d: %w", i, err)
		}
		vs, ts, es = append(vs, v), append(ts, p.t), append(es, e)
	}
	return vs, seq(ts, es), nil
}

func function(c *mc.Ctx, e *entry, it *item) string {
	n := &node{}
	full, caller, transactor, _, err := instances(e, n)
	if err != nil {
		return err.Error()
	}
	if it.StateMutability == "view" || it.StateMutability == "pure" {
		hash := common.HexToHash("0xabcdef")
		ctx := context.WithValue(context.Background(), ctxKey{}, 1)
		opts := []*bind.CallOpts{{From: from}, {From: from, BlockNumber: big.NewInt(1234), Context: ctx}, {From: from, Pending: true}, {From: from, BlockHash: hash}}
		for k, o := range opts {
			how := []string{"latest", "latest", "pending", "hash"}[k]
			ss := e.sessions(full.Interface(), *o, bind.TransactOpts{})
			for w, x := range []struct {
				v    reflect.Value
				opts bool
			}{{full, true}, {caller, true}, {reflect.ValueOf(ss[0]), false}, {reflect.ValueOf(ss[1]), false}} {
				if m := call(c, n, x.v.MethodByName(it.goName), it, o, x.opts, how); m != "" {
					return fmt.Sprintf("form %d, options %d: %s", w, k, m)
				}
			}
		}
		return ""
	}
	var signed []common.Address
	ss := e.sessions(full.Interface(), bind.CallOpts{}, *txOpts(&signed))
	for w, x := range []struct {
		v    reflect.Value
		opts bool
	}{{full, true}, {transactor, true}, {reflect.ValueOf(ss[0]), false}, {reflect.ValueOf(ss[2]), false}} {
		f := x.v.MethodByName(it.goName)
		if !f.IsValid() {
			return fmt.Sprintf("form %d: missing", w)
		}
		skip := 0
		if x.opts {
			skip = 1
		}
		if f.Type().NumIn() != skip+len(it.Inputs) {
			return fmt.Sprintf("form %d: %v", w, f.Type())
		}
		for _, ms := range mixes(len(it.Inputs)) {
			args, body, err := arguments(it.Inputs, f.Type(), skip, "in", ms)
			if err != nil {
				return err.Error()
			}
			n.txs, n.err, signed = nil, nil, nil
			in := args
			if x.opts {
				in = append([]reflect.Value{reflect.ValueOf(txOpts(&signed))}, args...)
			}
			c.State(1)
			c.Trans(2)
			rs := f.Call(in)
			rerr, _ := rs[1].Interface().(error)
			if m := sent(n, rs[0].Interface().(*types.Transaction), rerr, append(it.id()[:4:4], body...), signed); m != "" {
				return fmt.Sprintf("form %d, values %v: %s", w, ms, m)
			}
			n.err = wrong
			if rerr, _ := f.Call(in)[1].Interface().(error); !errors.Is(rerr, wrong) {
				return fmt.Sprintf("form %d: the node refuses the transaction, the answer is %v", w, rerr)
			}
		}
	}
	return ""
}

func call(c *mc.Ctx, n *node, f reflect.Value, it *item, o *bind.CallOpts, withOpts bool, how string) string {
	if !f.IsValid() {
		return "missing"
	}
	skip := 0
	if withOpts {
		skip = 1
	}
	ft := f.Type()
	if ft.NumIn() != skip+len(it.Inputs) {
		return ft.String()
	}
	// the results, one by one or as a structure
	var want func(k int) reflect.Type
	structured := ft.NumOut() != len(it.Outputs)+1
	if structured {
		if ft.NumOut() != 2 || ft.Out(0).Kind() != reflect.Struct || ft.Out(0).NumField() != len(it.Outputs) {
			return ft.String()
		}
		want = func(k int) reflect.Type { return ft.Out(0).Field(k).Type }
	} else {
		want = ft.Out
	}
	ins := mixes(len(it.Inputs))
	outs := mixes(len(it.Outputs))
	for r := 0; r < len(ins) || r < len(outs); r++ {
		ms, os := ins[r%len(ins)], outs[r%len(outs)]
		args, body, err := arguments(it.Inputs, ft, skip, "in", ms)
		if err != nil {
			return err.Error()
		}
		in := args
		if withOpts {
			in = append([]reflect.Value{reflect.ValueOf(o)}, args...)
		}
		var ts []*typ
		var es [][]byte
		var vs []reflect.Value
		for k, p := range it.Outputs {
			v, e, err := value(p.t, want(k), fmt.Sprint("out ", k), os[k])
			if err != nil {
				return fmt.Sprintf("result %d: %v", k, err)
			}
			vs, ts, es = append(vs, v), append(ts, p.t), append(es, e)
		}
		n.reply, n.err, n.code = seq(ts, es), nil, []byte{1}
		get := func() (rs []reflect.Value, err error) {
			rs = f.Call(in)
			err, _ = rs[len(rs)-1].Interface().(error)
			rs = rs[:len(rs)-1]
			if structured {
				var fs []reflect.Value
				for k := range it.Outputs {
					fs = append(fs, rs[0].Field(k))
				}
				rs = fs
			}
			return
		}
		c.State(1)
		c.Trans(1)
		rs, err := get()
		if m := called(n, how, append(it.id()[:4:4], body...)); m != "" {
			return fmt.Sprintf("values %v: %s", ms, m)
		}
		if o.BlockNumber != nil && (n.block == nil || n.block.Cmp(o.BlockNumber) != 0) || o.BlockNumber == nil && n.block != nil {
			return fmt.Sprintf("block %v asked", n.block)
		}
		if how == "hash" && n.hash != o.BlockHash || o.Context != nil && n.ctx.Value(ctxKey{}) == nil {
			return "options ignored"
		}
		if err != nil {
			return err.Error()
		}
		for k := range vs {
			if !same(rs[k], vs[k]) {
				return fmt.Sprintf("result %d is %v, the node answered %v", k, rs[k], vs[k])
			}
		}
		if r > 0 {
			continue
		}
		// failures
		reply := n.reply
		n.err = wrong
		if _, err := get(); !errors.Is(err, wrong) {
			return fmt.Sprintf("the node fails, the answer is %v", err)
		}
		n.err = nil
		for _, l := range []int{0, 1, len(reply) - 1} {
			if l >= len(reply) || l < 0 {
				continue
			}
			// cutting the padding of trailing bytes leaves the value
			n.reply = reply[:l]
			if _, err := get(); err == nil && (l <= 1 || !trailing(it.Outputs)) {
				return fmt.Sprintf("a reply cut to %d of %d bytes is accepted", l, len(reply))
			}
		}
		n.reply, n.code = nil, nil
		if _, err := get(); err == nil {
			return "no contract at the address, no error"
		}
	}
	return ""
}

// trailing tells whether the encoding may end in padding.
func trailing(ps []param) bool {
	for _, p := range ps {
		if p.t.dyn() {
			return true
		}
	}
	return false
}

func receive(c *mc.Ctx, e *entry, it *item) string {
	n := &node{}
	full, _, transactor, _, err := instances(e, n)
	if err != nil {
		return err.Error()
	}
	var signed []common.Address
	ss := e.sessions(full.Interface(), bind.CallOpts{}, *txOpts(&signed))
	datas := [][]byte{{}}
	if it.Type == "fallback" {
		datas = [][]byte{{}, {1}, {1, 2, 3, 4, 5}}
	}
	for w, x := range []reflect.Value{full, transactor, reflect.ValueOf(ss[0]), reflect.ValueOf(ss[2])} {
		f := x.MethodByName(camel(it.Type))
		if !f.IsValid() {
			return fmt.Sprintf("form %d: missing", w)
		}
		for _, d := range datas {
			n.txs, signed = nil, nil
			var in []reflect.Value
			if w < 2 {
				in = append(in, reflect.ValueOf(txOpts(&signed)))
			}
			if it.Type == "fallback" {
				in = append(in, reflect.ValueOf(d))
			}
			rs := f.Call(in)
			c.State(1)
			c.Trans(1)
			rerr, _ := rs[1].Interface().(error)
			if m := sent(n, rs[0].Interface().(*types.Transaction), rerr, d, signed); m != "" {
				return fmt.Sprintf("form %d: %s", w, m)
			}
		}
	}
	return ""
}

// watch checks the three forms of an event.
func watch(c *mc.Ctx, e *entry, it *item) string {
	n := &node{}
	full, _, _, filterer, err := instances(e, n)
	if err != nil {
		return err.Error()
	}
	var indexed []int
	for i, p := range it.Inputs {
		if p.Indexed {
			indexed = append(indexed, i)
			if p.t.kind == "list" || p.t.kind == "array" || p.t.kind == "tuple" {
				return "indexed parameter of type " + p.t.canon
			}
		}
	}
	for _, x := range []reflect.Value{full, filterer} {
		parse, filter, sub := x.MethodByName("Parse"+it.goName), x.MethodByName("Filter"+it.goName), x.MethodByName("Watch"+it.goName)
		if !parse.IsValid() || !filter.IsValid() || !sub.IsValid() {
			return "missing"
		}
		et := parse.Type().Out(0).Elem()
		if et.NumField() != len(it.Inputs)+1 || et.Field(len(it.Inputs)).Name != "Raw" {
			return fmt.Sprintf("event structure %v", et)
		}
		// logs
		mk := func(ms []int, no int) (types.Log, reflect.Value, error) {
			ev := reflect.New(et)
			l := types.Log{Address: addr, Topics: []common.Hash{common.BytesToHash(it.id())}, BlockNumber: uint64(1000 + no), TxHash: common.Hash{byte(no)}, Index: uint(no)}
			var ts []*typ
			var es [][]byte
			for i, p := range it.Inputs {
				seed := fmt.Sprint("log ", no, " ", i)
				gt := et.Field(i).Type
				if p.Indexed && (p.t.kind == "string" || p.t.kind == "bytes") {
					h := common.BytesToHash(pseudo(seed, 32))
					if gt != reflect.TypeOf(h) {
						return l, ev, fmt.Errorf("indexed %s is %v in Go", p.t.canon, gt)
					}
					ev.Elem().Field(i).Set(reflect.ValueOf(h))
					l.Topics = append(l.Topics, h)
					continue
				}
				v, enc, err := value(p.t, gt, seed, ms[i])
				if err != nil {
					return l, ev, fmt.Errorf("field %d: %w", i, err)
				}
				ev.Elem().Field(i).Set(v)
				if p.Indexed {
					l.Topics = append(l.Topics, common.BytesToHash(enc))
				} else {
					ts, es = append(ts, p.t), append(es, enc)
				}
			}
			l.Data = seq(ts, es)
			ev.Elem().Field(len(it.Inputs)).Set(reflect.ValueOf(l))
			return l, ev, nil
		}
		all := mixes(len(it.Inputs))
		for k, ms := range all {
			l, want, err := mk(ms, k)
			if err != nil {
				return err.Error()
			}
			c.State(1)
			c.Trans(1)
			v, err := out1(parse.Call([]reflect.Value{reflect.ValueOf(l)}))
			if err != nil {
				return fmt.Sprintf("Parse: values %v: %v", ms, err)
			}
			if !same(v.Elem(), want.Elem()) {
				return fmt.Sprintf("Parse: values %v: %v, the log says %v", ms, v.Elem(), want.Elem())
			}
		}
		good := func(no int) (types.Log, reflect.Value) {
			ms := make([]int, len(it.Inputs))
			for i := range ms {
				ms[i] = no % 2
			}
			l, v, _ := mk(ms, no)
			return l, v
		}
		// logs that are none of this event
		var bad []types.Log
		l, _ := good(0)
		b := l
		b.Topics = append([]common.Hash{{1}}, l.Topics[1:]...)
		bad = append(bad, b)
		b = l
		b.Topics = nil
		bad = append(bad, b)
		b = l
		b.Topics = append(append([]common.Hash{}, l.Topics...), common.Hash{})
		bad = append(bad, b)
		if len(indexed) > 0 {
			b = l
			b.Topics = l.Topics[:len(l.Topics)-1]
			bad = append(bad, b)
		}
		if len(l.Data) > 0 {
			b = l
			b.Data = l.Data[:1]
			bad = append(bad, b)
		}
		for k, b := range bad {
			c.State(1)
			c.Trans(1)
			if _, err := out1(parse.Call([]reflect.Value{reflect.ValueOf(b)})); err == nil {
				return fmt.Sprintf("Parse: log %d that is no such event is accepted", k)
			}
		}
		// filters: no value, one or two for each indexed parameter
		combos := 1
		for range indexed {
			combos *= 3
		}
		for cb := 0; cb < combos; cb++ {
			end := uint64(5000)
			fo := &bind.FilterOpts{Start: 1000, End: &end, Context: context.WithValue(context.Background(), ctxKey{}, 1)}
			if cb%2 == 1 {
				fo.End = nil
			}
			var rules []reflect.Value
			topics := [][]common.Hash{{common.BytesToHash(it.id())}}
			q := cb
			for k, i := range indexed {
				p := it.Inputs[i]
				gt := filter.Type().In(1 + k)
				if gt.Kind() != reflect.Slice || sub.Type().In(2+k) != gt {
					return fmt.Sprintf("Filter: rule %d is %v", k, gt)
				}
				r := reflect.New(gt).Elem()
				var hs []common.Hash
				for z := 0; z < q%3; z++ {
					v, enc, err := value(p.t, gt.Elem(), fmt.Sprint("rule ", k, z), z)
					if err != nil {
						return fmt.Sprintf("Filter: rule %d: %v", k, err)
					}
					r = reflect.Append(r, v)
					h := common.BytesToHash(enc)
					switch x := v.Interface().(type) {
					case string:
						h = crypto.Keccak256Hash([]byte(x))
					case []byte:
						h = crypto.Keccak256Hash(x)
					}
					hs = append(hs, h)
				}
				q /= 3
				rules, topics = append(rules, r), append(topics, hs)
			}
			asked := func(start, end *uint64) string {
				g := n.query
				n.query = nil
				if g == nil {
					return "nothing asked"
				}
				if len(g.Addresses) != 1 || g.Addresses[0] != addr || g.BlockHash != nil {
					return fmt.Sprintf("asked for %v", g.Addresses)
				}
				eq := func(x *big.Int, y *uint64) bool {
					return x == nil && y == nil || x != nil && y != nil && x.IsUint64() && x.Uint64() == *y
				}
				if !eq(g.FromBlock, start) || !eq(g.ToBlock, end) {
					return fmt.Sprintf("asked for blocks %v to %v", g.FromBlock, g.ToBlock)
				}
				if len(g.Topics) > len(topics) {
					return fmt.Sprintf("asked for %d topics", len(g.Topics))
				}
				for i := range topics {
					var t []common.Hash
					if i < len(g.Topics) {
						t = g.Topics[i]
					}
					if fmt.Sprint(t) != fmt.Sprint(topics[i]) {
						return fmt.Sprintf("topic %d: asked for %x, want %x", i, t, topics[i])
					}
				}
				if n.ctx.Value(ctxKey{}) == nil {
					return "context dropped"
				}
				return ""
			}
			// no log, three logs, and a broken one at each place
			for bp := -2; bp < 3; bp++ {
				if bp != -1 && cb > 0 {
					continue
				}
				n.logs, n.logErr, n.subErr, n.stopped = nil, nil, nil, false
				var want []reflect.Value
				for k := 0; k < 3 && bp > -2; k++ {
					l, v := good(k)
					if k == bp {
						l = bad[0]
					}
					n.logs, want = append(n.logs, l), append(want, v)
				}
				good := len(n.logs)
				if bp >= 0 {
					good = bp
				}
				c.State(1)
				c.Trans(2)
				iter, err := out1(filter.Call(append([]reflect.Value{reflect.ValueOf(fo)}, rules...)))
				if err != nil {
					return "Filter: " + err.Error()
				}
				if m := asked(&fo.Start, fo.End); m != "" {
					return "Filter: " + m
				}
				step := func(m string) reflect.Value { return iter.MethodByName(m).Call(nil)[0] }
				for k := 0; k < good; k++ {
					if !step("Next").Bool() {
						return fmt.Sprintf("Filter: broken log %d: ended before log %d: %v", bp, k, step("Error"))
					}
					if !same(iter.Elem().FieldByName("Event").Elem(), want[k].Elem()) {
						return fmt.Sprintf("Filter: log %d: %v, want %v", k, iter.Elem().FieldByName("Event").Elem(), want[k].Elem())
					}
				}
				for k := 0; k < 2; k++ {
					if step("Next").Bool() {
						return fmt.Sprintf("Filter: broken log %d: a log too many", bp)
					}
					if rerr, _ := step("Error").Interface().(error); (rerr != nil) != (bp >= 0) {
						return fmt.Sprintf("Filter: broken log %d: error %v", bp, rerr)
					}
				}
				if cerr, _ := step("Close").Interface().(error); cerr != nil {
					return "Filter: close: " + cerr.Error()
				}
				// the same as a subscription
				start := uint64(70)
				wo := &bind.WatchOpts{Start: &start, Context: fo.Context}
				if cb%2 == 1 {
					wo.Start = nil
				}
				sink := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, reflect.PointerTo(et)), 0)
				sv, err := out1(sub.Call(append([]reflect.Value{reflect.ValueOf(wo), sink.Convert(sub.Type().In(1))}, rules...)))
				if err != nil {
					return "Watch: " + err.Error()
				}
				s := sv.Interface().(event.Subscription)
				if m := asked(wo.Start, nil); m != "" {
					return "Watch: " + m
				}
				recv := func() (reflect.Value, string) {
					i, v, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: sink}, {Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.Err())}, {Dir: reflect.SelectRecv, Chan: reflect.ValueOf(time.After(time.Minute))}})
					switch {
					case i == 0:
						return v, ""
					case i == 1 && ok:
						return v, "error"
					case i == 1:
						return v, "end"
					}
					return v, "nothing for a minute"
				}
				for k := 0; k < good; k++ {
					v, m := recv()
					if m != "" {
						return fmt.Sprintf("Watch: broken log %d: %s before log %d", bp, m, k)
					}
					if !same(v.Elem(), want[k].Elem()) {
						return fmt.Sprintf("Watch: log %d: %v, want %v", k, v.Elem(), want[k].Elem())
					}
				}
				if bp >= 0 {
					if _, m := recv(); m != "error" {
						return fmt.Sprintf("Watch: broken log %d: %q instead of an error", bp, m)
					}
				}
				s.Unsubscribe()
				n.Lock()
				stopped := n.stopped
				n.Unlock()
				if !stopped {
					return "Watch: the node's subscription goes on after the end"
				}
				// a node that fails
				if bp == -2 {
					n.subErr = wrong
					sv, err := out1(sub.Call(append([]reflect.Value{reflect.ValueOf(wo), sink.Convert(sub.Type().In(1))}, rules...)))
					if err != nil {
						return "Watch: " + err.Error()
					}
					s = sv.Interface().(event.Subscription)
					if v, m := recv(); m != "error" || v.Interface().(error) != wrong {
						return fmt.Sprintf("Watch: the subscription fails, the answer is %v %s", v, m)
					}
					n.logErr = wrong
					if _, err := out1(filter.Call(append([]reflect.Value{reflect.ValueOf(fo)}, rules...))); !errors.Is(err, wrong) {
						return fmt.Sprintf("Filter: the node fails, the answer is %v", err)
					}
					if _, err := out1(sub.Call(append([]reflect.Value{reflect.ValueOf(wo), sink.Convert(sub.Type().In(1))}, rules...))); !errors.Is(err, wrong) {
						return fmt.Sprintf("Watch: the node fails, the answer is %v", err)
					}
				}
			}
		}
		// closing ends the delivery: of many logs only those already on their way come through
		n.logs, n.logErr, n.subErr = nil, nil, nil
		for len(n.logs) < 300 {
			n.logs = append(n.logs, l)
		}
		none := []reflect.Value{reflect.ValueOf(&bind.FilterOpts{})}
		for i := 1; i < filter.Type().NumIn(); i++ {
			none = append(none, reflect.Zero(filter.Type().In(i)))
		}
		iter, err := out1(filter.Call(none))
		if err != nil {
			return "Filter: " + err.Error()
		}
		iter.MethodByName("Next").Call(nil)
		iter.MethodByName("Close").Call(nil)
		got := 1
		for iter.MethodByName("Next").Call(nil)[0].Bool() {
			got++
		}
		if got == len(n.logs) {
			return "Filter: delivery goes on after Close"
		}
	}
	return ""
}
