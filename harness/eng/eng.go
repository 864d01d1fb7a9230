// Package eng is the execution engine the checks explore gadgets with: an
// implementation of gnark's frontend.API over concrete field values, in which
// every freedom a prover has (hint answers, 0/0 divisions) is an explicit
// choice point, so that a bounded space of prover behaviours can be enumerated
// completely on the real gadget code.
package eng

import (
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"reflect"
	"runtime/debug"
	"strings"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

// V is a small field value; B a large one. Every value has exactly one form:
// over a small field V in [0,p); over a large field V when the centred
// representative fits in (-2^61, 2^61), otherwise B with the representative in [0,p).
type V int64
type B struct{ X *big.Int }

const lim = int64(1) << 61

// ToBigIntRegular lets gnark's non-native arithmetic read limb values; a
// negative V stands for a value close to the modulus, which is wider than any limb.
func (v V) ToBigIntRegular(r *big.Int) *big.Int {
	if v < 0 {
		return r.SetBit(r.SetInt64(0), 700, 1)
	}
	return r.SetInt64(int64(v))
}
func (b B) ToBigIntRegular(r *big.Int) *big.Int { return r.Set(b.X) }

// Unsat is what a violated constraint panics with.
type Unsat struct{ Msg string }

func (u Unsat) Error() string { return "unsat: " + u.Msg }

// Chooser resolves choice points; it returns a number in [0,n).
type Chooser interface{ Choose(n int, what string) int }

// HintFn proposes alternative hint answers. It is called with the honest
// outputs; the n alternatives beyond the honest one become choice points, and
// get(k) builds the k-th of them.
type HintFn func(name string, inputs []*big.Int, honest []*big.Int) (n int, get func(k int) []*big.Int)

type Engine struct {
	p       *big.Int
	small   bool
	ps      int64
	nbits   int
	kv      map[any]any
	defs    []func(frontend.API) error
	Ops     uint64
	Ch      Chooser
	Alt     HintFn
	Hints   uint64
	Keccaks uint64
	// FastKeccak lets the engine evaluate gnark's own Keccak-f gadget natively
	// (only reachable in checks built with the FASTKECCAK overlay).
	FastKeccak bool
	commits    int64
	// Trace, when set, receives every hint answer (for replay in gnark's solver)
	Trace func(name string, in, out []*big.Int)
}

func New(p *big.Int) *Engine {
	e := &Engine{p: new(big.Int).Set(p), nbits: p.BitLen()}
	if p.BitLen() <= 31 {
		e.small = true
		e.ps = p.Int64()
	} else if p.BitLen() < 70 {
		panic("eng: modulus must be < 2^31 or > 2^70")
	}
	return e
}

func NewSmall(p int64) *Engine { return New(big.NewInt(p)) }

func (e *Engine) normInt(x int64) frontend.Variable {
	if e.small {
		x %= e.ps
		if x < 0 {
			x += e.ps
		}
		return V(x)
	}
	if x > -lim && x < lim {
		return V(x)
	}
	return e.normBig(big.NewInt(x))
}

func (e *Engine) normBig(x *big.Int) frontend.Variable {
	// x is owned
	if e.small {
		x.Mod(x, e.p)
		return V(x.Int64())
	}
	if x.Sign() < 0 || x.Cmp(e.p) >= 0 {
		x.Mod(x, e.p)
	}
	if x.BitLen() <= 61 {
		return V(x.Int64())
	}
	if x.BitLen() >= e.nbits-2 {
		var d big.Int
		d.Sub(e.p, x)
		if d.BitLen() <= 61 {
			if i := d.Int64(); i < lim {
				return V(-i)
			}
		}
	}
	return B{x}
}

func (e *Engine) norm(v frontend.Variable) frontend.Variable {
	switch t := v.(type) {
	case V:
		return t
	case B:
		return t
	case int:
		return e.normInt64(int64(t))
	case int8:
		return e.normInt64(int64(t))
	case int16:
		return e.normInt64(int64(t))
	case int32:
		return e.normInt64(int64(t))
	case int64:
		return e.normInt64(t)
	case uint8:
		return e.normInt64(int64(t))
	case uint16:
		return e.normInt64(int64(t))
	case uint32:
		return e.normInt64(int64(t))
	case uint64:
		return e.normBig(new(big.Int).SetUint64(t))
	case uint:
		return e.normBig(new(big.Int).SetUint64(uint64(t)))
	case *big.Int:
		return e.normBig(new(big.Int).Set(t))
	case big.Int:
		return e.normBig(new(big.Int).Set(&t))
	case string:
		b, ok := new(big.Int).SetString(t, 0)
		if !ok {
			panic("eng: bad string constant " + t)
		}
		return e.normBig(b)
	case []byte:
		return e.normBig(new(big.Int).SetBytes(t))
	case nil:
		panic("eng: nil variable")
	case bool:
		panic("eng: bool variable")
	}
	// gnark-crypto elements: anything with BigInt(*big.Int) *big.Int
	if m, ok := v.(interface{ BigInt(*big.Int) *big.Int }); ok {
		return e.normBig(m.BigInt(new(big.Int)))
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Ptr {
		pv := reflect.New(rv.Type())
		pv.Elem().Set(rv)
		if m, ok := pv.Interface().(interface{ BigInt(*big.Int) *big.Int }); ok {
			return e.normBig(m.BigInt(new(big.Int)))
		}
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return e.normInt64(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return e.normBig(new(big.Int).SetUint64(rv.Uint()))
	}
	panic(fmt.Sprintf("eng: unsupported constant type %T", v))
}

func (e *Engine) normInt64(x int64) frontend.Variable { return e.normInt(x) }

func toBig(v frontend.Variable, p *big.Int) *big.Int {
	switch t := v.(type) {
	case V:
		x := big.NewInt(int64(t))
		if t < 0 {
			x.Add(x, p)
		}
		return x
	case B:
		return t.X
	}
	panic("toBig")
}

// Big gives the canonical integer value of any variable or constant.
func (e *Engine) Big(v frontend.Variable) *big.Int {
	return new(big.Int).Set(toBig(e.norm(v), e.p))
}

// Int gives the value as int64 (panics if it does not fit).
func (e *Engine) Int(v frontend.Variable) int64 {
	b := e.Big(v)
	if !b.IsInt64() {
		panic("eng: Int out of range: " + b.String())
	}
	return b.Int64()
}

func (e *Engine) add2(a, b frontend.Variable) frontend.Variable {
	e.Ops++
	if x, ok := a.(V); ok {
		if y, ok := b.(V); ok {
			return e.normInt(int64(x) + int64(y))
		}
	}
	return e.normBig(new(big.Int).Add(e.sbig(a), e.sbig(b)))
}

func (e *Engine) sub2(a, b frontend.Variable) frontend.Variable {
	e.Ops++
	if x, ok := a.(V); ok {
		if y, ok := b.(V); ok {
			return e.normInt(int64(x) - int64(y))
		}
	}
	return e.normBig(new(big.Int).Sub(e.sbig(a), e.sbig(b)))
}

// sbig: any representative, possibly negative
func (e *Engine) sbig(a frontend.Variable) *big.Int {
	switch t := a.(type) {
	case V:
		return big.NewInt(int64(t))
	case B:
		return t.X
	}
	panic("sbig")
}

func (e *Engine) mul2(a, b frontend.Variable) frontend.Variable {
	e.Ops++
	if x, ok := a.(V); ok {
		if x == 0 {
			return V(0)
		}
		if x == 1 {
			return b
		}
		if y, ok := b.(V); ok {
			if y == 0 {
				return V(0)
			}
			if y == 1 {
				return a
			}
			ux, uy := uint64(x), uint64(y)
			if x < 0 {
				ux = uint64(-x)
			}
			if y < 0 {
				uy = uint64(-y)
			}
			hi, lo := bits.Mul64(ux, uy)
			if hi == 0 && lo < uint64(lim) {
				r := int64(lo)
				if (x < 0) != (y < 0) {
					r = -r
				}
				return e.normInt(r)
			}
		}
	} else if y, ok := b.(V); ok {
		if y == 0 {
			return V(0)
		}
		if y == 1 {
			return a
		}
	}
	return e.normBig(new(big.Int).Mul(e.sbig(a), e.sbig(b)))
}

func (e *Engine) Add(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.add2(e.norm(i1), e.norm(i2))
	for _, v := range in {
		r = e.add2(r, e.norm(v))
	}
	return r
}
func (e *Engine) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	return e.add2(e.norm(a), e.mul2(e.norm(b), e.norm(c)))
}
func (e *Engine) Neg(i1 frontend.Variable) frontend.Variable { return e.sub2(V(0), e.norm(i1)) }
func (e *Engine) Sub(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.sub2(e.norm(i1), e.norm(i2))
	for _, v := range in {
		r = e.sub2(r, e.norm(v))
	}
	return r
}
func (e *Engine) Mul(i1, i2 frontend.Variable, in ...frontend.Variable) frontend.Variable {
	r := e.mul2(e.norm(i1), e.norm(i2))
	for _, v := range in {
		r = e.mul2(r, e.norm(v))
	}
	return r
}

func (e *Engine) inv(v frontend.Variable) frontend.Variable {
	e.Ops++
	x := toBig(v, e.p)
	r := new(big.Int).ModInverse(x, e.p)
	if r == nil {
		panic(Unsat{"no inverse"})
	}
	return e.normBig(r)
}

func isZ(v frontend.Variable) bool { x, ok := v.(V); return ok && x == 0 }

func (e *Engine) DivUnchecked(i1, i2 frontend.Variable) frontend.Variable {
	a, b := e.norm(i1), e.norm(i2)
	if isZ(b) {
		if !isZ(a) {
			panic(Unsat{"DivUnchecked x/0"})
		}
		// 0/0: the constraint 0*res == 0 leaves the result to the prover.
		if e.Ch != nil {
			if e.small {
				return V(e.Ch.Choose(int(e.ps), "0/0"))
			}
			switch e.Ch.Choose(3, "0/0") {
			case 1:
				return V(1)
			case 2:
				return V(-1)
			}
		}
		return V(0)
	}
	return e.mul2(a, e.inv(b))
}
func (e *Engine) Div(i1, i2 frontend.Variable) frontend.Variable {
	a, b := e.norm(i1), e.norm(i2)
	return e.mul2(a, e.inv(b))
}
func (e *Engine) Inverse(i1 frontend.Variable) frontend.Variable { return e.inv(e.norm(i1)) }
func (e *Engine) BatchInvert(in []frontend.Variable) []frontend.Variable {
	r := make([]frontend.Variable, len(in))
	for i := range in {
		r[i] = e.inv(e.norm(in[i]))
	}
	return r
}

func (e *Engine) ToBinary(i1 frontend.Variable, n ...int) []frontend.Variable {
	nb := e.nbits
	if len(n) == 1 {
		nb = n[0]
		if nb < 0 {
			panic("invalid n")
		}
	}
	e.Ops += uint64(nb)
	v := e.norm(i1)
	r := make([]frontend.Variable, nb)
	if x, ok := v.(V); ok && x >= 0 {
		if bits.Len64(uint64(x)) > nb {
			panic(Unsat{fmt.Sprintf("ToBinary(%d) of %d", nb, int64(x))})
		}
		for i := range r {
			if i < 63 {
				r[i] = V((int64(x) >> uint(i)) & 1)
			} else {
				r[i] = V(0)
			}
		}
		return r
	}
	b := toBig(v, e.p)
	if b.BitLen() > nb {
		panic(Unsat{fmt.Sprintf("ToBinary(%d) of %s", nb, b)})
	}
	for i := range r {
		r[i] = V(b.Bit(i))
	}
	return r
}

func (e *Engine) FromBinary(v ...frontend.Variable) frontend.Variable {
	e.Ops += uint64(len(v))
	if len(v) <= 60 {
		var s int64
		for i := range v {
			s |= int64(e.bool(v[i])) << uint(i)
		}
		return e.normInt(s)
	}
	s := new(big.Int)
	for i := range v {
		if e.bool(v[i]) == 1 {
			s.SetBit(s, i, 1)
		}
	}
	return e.normBig(s)
}

func (e *Engine) bool(v frontend.Variable) V {
	x, ok := v.(V)
	if !ok {
		x, ok = e.norm(v).(V)
	}
	if !ok || (x != 0 && x != 1) {
		panic(Unsat{fmt.Sprintf("not boolean: %v", v)})
	}
	return x
}

func (e *Engine) Xor(a, b frontend.Variable) frontend.Variable {
	e.Ops++
	return e.bool(a) ^ e.bool(b)
}
func (e *Engine) Or(a, b frontend.Variable) frontend.Variable {
	e.Ops++
	return e.bool(a) | e.bool(b)
}
func (e *Engine) And(a, b frontend.Variable) frontend.Variable {
	e.Ops++
	return e.bool(a) & e.bool(b)
}
func (e *Engine) Select(b, i1, i2 frontend.Variable) frontend.Variable {
	e.Ops++
	if e.bool(b) == 1 {
		return e.norm(i1)
	}
	return e.norm(i2)
}
func (e *Engine) Lookup2(b0, b1, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	e.Ops++
	k := e.bool(b0) + 2*e.bool(b1)
	return e.norm([]frontend.Variable{i0, i1, i2, i3}[k])
}
func (e *Engine) IsZero(i1 frontend.Variable) frontend.Variable {
	e.Ops++
	if isZ(e.norm(i1)) {
		return V(1)
	}
	return V(0)
}

func (e *Engine) cmp(a, b frontend.Variable) int {
	x, ok1 := a.(V)
	y, ok2 := b.(V)
	if ok1 && ok2 && x >= 0 && y >= 0 {
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	return toBig(a, e.p).Cmp(toBig(b, e.p))
}

func (e *Engine) Cmp(i1, i2 frontend.Variable) frontend.Variable {
	e.Ops += uint64(e.nbits)
	return e.normInt(int64(e.cmp(e.norm(i1), e.norm(i2))))
}
func same(a, b frontend.Variable) bool {
	x, ok1 := a.(V)
	y, ok2 := b.(V)
	if ok1 != ok2 {
		return false
	}
	if ok1 {
		return x == y
	}
	return a.(B).X.Cmp(b.(B).X) == 0
}
func (e *Engine) AssertIsEqual(i1, i2 frontend.Variable) {
	e.Ops++
	a, b := e.norm(i1), e.norm(i2)
	if !same(a, b) {
		panic(Unsat{"AssertIsEqual"})
	}
}
func (e *Engine) AssertIsDifferent(i1, i2 frontend.Variable) {
	e.Ops++
	if same(e.norm(i1), e.norm(i2)) {
		panic(Unsat{"AssertIsDifferent"})
	}
}
func (e *Engine) AssertIsBoolean(i1 frontend.Variable) { e.Ops++; e.bool(i1) }
func (e *Engine) AssertIsCrumb(i1 frontend.Variable) {
	e.Ops++
	x, ok := e.norm(i1).(V)
	if !ok || x < 0 || x > 3 {
		panic(Unsat{"AssertIsCrumb"})
	}
}
func (e *Engine) AssertIsLessOrEqual(v, bound frontend.Variable) {
	e.Ops += uint64(e.nbits)
	if e.cmp(e.norm(v), e.norm(bound)) > 0 {
		panic(Unsat{"AssertIsLessOrEqual"})
	}
}
func (e *Engine) MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, _ frontend.Variable) {
	s := new(big.Int)
	for i := range aBits {
		if e.bool(aBits[i]) == 1 {
			s.SetBit(s, i, 1)
		}
	}
	if s.Cmp(bound) > 0 {
		panic(Unsat{"MustBeLessOrEqCst"})
	}
}
func (e *Engine) Println(a ...frontend.Variable) {
	// gnark evaluates the operands: keep their well-formedness checks
	for _, v := range a {
		switch v.(type) {
		case string, []frontend.Variable:
		default:
			e.norm(v)
		}
	}
}
func (e *Engine) Compiler() frontend.Compiler { return e }

func (e *Engine) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	e.Hints++
	if nbOutputs <= 0 {
		return nil, errors.New("hint function must return at least one output")
	}
	in := make([]*big.Int, len(inputs))
	for i := range inputs {
		in[i] = e.Big(inputs[i])
	}
	out := make([]*big.Int, nbOutputs)
	for i := range out {
		out[i] = new(big.Int)
	}
	name := solver.GetHintName(f)
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	herr := f(e.p, in, out)
	if herr != nil {
		// an honest prover stops here; an adversarial one goes on with its own answer
		if e.Alt == nil || e.Ch == nil {
			panic(Unsat{"hint: " + herr.Error()})
		}
		for i := range out {
			out[i] = new(big.Int)
		}
	}
	for i := range out {
		out[i] = new(big.Int).Mod(out[i], e.p)
	}
	if e.Alt != nil && e.Ch != nil {
		n, get := e.Alt(name, in, out)
		if n > 0 {
			k := e.Ch.Choose(n+1, name)
			if k > 0 {
				a := get(k - 1)
				out = make([]*big.Int, nbOutputs)
				for i := range out {
					out[i] = new(big.Int).Mod(a[i], e.p)
				}
			} else if herr != nil {
				panic(Unsat{"hint: " + herr.Error()})
			}
		}
	}
	if e.Trace != nil {
		e.Trace(name, in, out)
	}
	r := make([]frontend.Variable, nbOutputs)
	for i := range r {
		r[i] = e.normBig(new(big.Int).Set(out[i]))
	}
	return r, nil
}
func (e *Engine) NewHintForId(id solver.HintID, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	if f := solver.GetRegisteredHint(id); f != nil {
		return e.NewHint(f, nbOutputs, inputs...)
	}
	return nil, fmt.Errorf("no hint registered with id #%d", id)
}

func (e *Engine) ConstantValue(v frontend.Variable) (*big.Int, bool) {
	switch v.(type) {
	case V, B:
		return nil, false
	}
	return e.Big(v), true
}

// Val turns a constant into an engine value (a witness variable).
func (e *Engine) Val(v frontend.Variable) frontend.Variable { return e.norm(v) }

func (e *Engine) Vals(vs []frontend.Variable) []frontend.Variable {
	r := make([]frontend.Variable, len(vs))
	for i := range vs {
		r[i] = e.norm(vs[i])
	}
	return r
}

// --- Compiler ---
func (e *Engine) MarkBoolean(v frontend.Variable) {}
func (e *Engine) IsBoolean(v frontend.Variable) bool {
	x, ok := e.norm(v).(V)
	return ok && (x == 0 || x == 1)
}
func (e *Engine) Field() *big.Int                           { return e.p }
func (e *Engine) FieldBitLen() int                          { return e.nbits }
func (e *Engine) Defer(cb func(api frontend.API) error)     { e.defs = append(e.defs, cb) }
func (e *Engine) InternalVariable(uint32) frontend.Variable { panic("eng: InternalVariable") }
func (e *Engine) SetGkrInfo(constraint.GkrInfo) error       { return errors.New("eng: no gkr") }
func (e *Engine) SetKeyValue(k, v any) {
	if e.kv == nil {
		e.kv = map[any]any{}
	}
	e.kv[k] = v
}
func (e *Engine) GetKeyValue(k any) any { return e.kv[k] }
func (e *Engine) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID {
	panic("eng: blueprints unsupported")
}
func (e *Engine) AddInstruction(bID constraint.BlueprintID, calldata []uint32) []uint32 {
	panic("eng: blueprints unsupported")
}
func (e *Engine) ToCanonicalVariable(frontend.Variable) frontend.CanonicalVariable {
	panic("eng: canonical variables unsupported")
}

// Check implements frontend.Rangechecker.
func (e *Engine) Check(v frontend.Variable, nb int) {
	e.Ops++
	b := e.norm(v)
	if x, ok := b.(V); ok && x >= 0 {
		if bits.Len64(uint64(x)) > nb {
			panic(Unsat{"rangecheck"})
		}
		return
	}
	if toBig(b, e.p).BitLen() > nb {
		panic(Unsat{"rangecheck"})
	}
}

// Commit implements frontend.Committer with a fixed pseudo-random challenge
// derived from the committed values.
func (e *Engine) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	e.commits++
	h := new(big.Int).SetInt64(e.commits)
	k, _ := new(big.Int).SetString("9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e95", 16)
	for i := range v {
		h.Mul(h, k)
		h.Add(h, e.Big(v[i]))
		h.Xor(h, new(big.Int).Rsh(h, 97))
		h.Mod(h, e.p)
	}
	if h.Sign() == 0 {
		h.SetInt64(1)
	}
	return e.normBig(h), nil
}

// Result of running a gadget.
type Result struct {
	OK     bool   // all constraints satisfied
	Reject string // violated constraint
	Panic  string // the code panicked other than by a violated constraint
}

func (r Result) String() string {
	switch {
	case r.OK:
		return "accept"
	case r.Panic != "":
		return "panic(" + r.Panic + ")"
	}
	return "reject(" + r.Reject + ")"
}

// Run executes fn and the functions it deferred.
func (e *Engine) Run(fn func(api frontend.API) error) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsat); ok {
				res = Result{Reject: u.Msg}
				if os.Getenv("VERIF_WHERE") != "" {
					res.Reject += " @ " + frames(string(debug.Stack()))
				}
				return
			}
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			if s, ok := r.(string); ok && strings.Contains(s, "limb wider than emulated parameter") {
				res = Result{Reject: s}
				return
			}
			st := string(debug.Stack())
			res = Result{Panic: fmt.Sprint(r) + " @ " + frames(st)}
		}
	}()
	if err := fn(e); err != nil {
		return Result{Reject: "error: " + err.Error()}
	}
	for i := 0; i < len(e.defs); i++ {
		if err := e.defs[i](e); err != nil {
			return Result{Reject: "deferred: " + err.Error()}
		}
	}
	return Result{OK: true}
}

// Stop is passed through Run (used by explorers to abandon an execution).
type Stop struct{ Why string }

func frames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/repo/") || strings.Contains(l, "gnark") {
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if strings.Contains(l, ".go:") {
				out = append(out, l)
			}
		}
		if len(out) == 4 {
			break
		}
	}
	return strings.Join(out, " < ")
}

// Path is a stateless depth-first explorer over choice points.
type Path struct {
	pre    []int
	ns     []int
	pos    int
	Whats  []string
	MaxDev int // bound on the number of non-default choices (<0: none)
	dev    int
}

// Choose replays the prefix and takes default 0 beyond it.
func (p *Path) Choose(n int, what string) int {
	if p.MaxDev >= 0 && p.dev >= p.MaxDev {
		n = 1
	}
	var c int
	if p.pos < len(p.pre) {
		c = p.pre[p.pos]
		p.ns[p.pos] = n
	} else {
		p.pre = append(p.pre, 0)
		p.ns = append(p.ns, n)
		p.Whats = append(p.Whats, what)
	}
	if c > 0 {
		p.dev++
	}
	p.pos++
	return c
}

// Next advances to the next path; false when the space is exhausted.
func (p *Path) Next() bool {
	p.pre = p.pre[:p.pos]
	p.ns = p.ns[:p.pos]
	p.Whats = p.Whats[:p.pos]
	p.pos, p.dev = 0, 0
	for i := len(p.pre) - 1; i >= 0; i-- {
		if p.pre[i]+1 < p.ns[i] {
			p.pre[i]++
			p.pre = p.pre[:i+1]
			p.ns = p.ns[:i+1]
			p.Whats = p.Whats[:i+1]
			return true
		}
	}
	return false
}

// Choices gives the current path.
func (p *Path) Choices() []int { return append([]int(nil), p.pre[:p.pos]...) }

// Fixed replays a recorded list of choices.
func Fixed(c []int) *Path {
	return &Path{pre: append([]int(nil), c...), ns: make([]int, len(c)), Whats: make([]string, len(c)), MaxDev: -1}
}

// Reset prepares a Path to re-run its current choices.
func (p *Path) Reset() { p.pos, p.dev = 0, 0 }

// NativeKeccakF evaluates the permutation on 25 64-bit lanes.
func (e *Engine) NativeKeccakF(a [25]frontend.Variable) (r [25]frontend.Variable, ok bool) {
	if !e.FastKeccak {
		return r, false
	}
	e.Keccaks++
	var s [25]uint64
	for i := range a {
		switch t := e.norm(a[i]).(type) {
		case V:
			if t < 0 {
				panic(Unsat{"keccak lane"})
			}
			s[i] = uint64(t)
		case B:
			if t.X.BitLen() > 64 {
				panic(Unsat{"keccak lane"})
			}
			s[i] = t.X.Uint64()
		}
	}
	KeccakF(&s)
	for i := range s {
		if s[i] < uint64(lim) {
			r[i] = V(s[i])
		} else {
			r[i] = e.normBig(new(big.Int).SetUint64(s[i]))
		}
	}
	return r, true
}

// KeccakF is the reference Keccak-f[1600] permutation.
func KeccakF(st *[25]uint64) {
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = st[x] ^ st[x+5] ^ st[x+10] ^ st[x+15] ^ st[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				st[x+y] ^= d
			}
		}
		// rho and pi
		var b [25]uint64
		x, y := 1, 0
		b[0] = st[0]
		for t := 0; t < 24; t++ {
			nx, ny := y, (2*x+3*y)%5
			b[nx+5*ny] = bits.RotateLeft64(st[x+5*y], (t+1)*(t+2)/2%64)
			x, y = nx, ny
		}
		for y := 0; y < 25; y += 5 {
			for x := 0; x < 5; x++ {
				st[x+y] = b[x+y] ^ (^b[(x+1)%5+y] & b[(x+2)%5+y])
			}
		}
		st[0] ^= keccakRC[r]
	}
}

var keccakRC = func() (rc [24]uint64) {
	// LFSR definition of the round constants
	l := byte(1)
	for r := 0; r < 24; r++ {
		for j := 0; j <= 6; j++ {
			if l&1 == 1 {
				rc[r] ^= 1 << (uint(1)<<uint(j) - 1)
			}
			if l&0x80 != 0 {
				l = l<<1 ^ 0x71
			} else {
				l <<= 1
			}
		}
	}
	return
}()

// Keccak256 is the reference hash.
func Keccak256(m []byte) (h [32]byte) {
	var st [25]uint64
	p := append([]byte{}, m...)
	k := 136 - len(p)%136
	pad := make([]byte, k)
	pad[0] ^= 1
	pad[k-1] ^= 0x80
	p = append(p, pad...)
	for ; len(p) > 0; p = p[136:] {
		for i := 0; i < 136; i++ {
			st[i/8] ^= uint64(p[i]) << uint(8*(i%8))
		}
		KeccakF(&st)
	}
	for i := range h {
		h[i] = byte(st[i/8] >> uint(8*(i%8)))
	}
	return
}
