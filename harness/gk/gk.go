// Package gk binds engine executions to gnark itself: it runs the same gadget
// closure in gnark's test engine and as a compiled constraint system with
// gnark's real solver, so that verdicts found by exploration are validated
// against the system users actually prove with.
package gk

import (
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"sync"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/logger"
	"github.com/consensys/gnark/test"
	"github.com/rs/zerolog"

	"verif/harness/eng"
)

func init() {
	logger.Set(zerolog.New(io.Discard).Level(zerolog.Disabled))
}

// Fn is a gadget under check: inputs to outputs, constraints on the way.
type Fn func(api frontend.API, in []frontend.Variable) []frontend.Variable

var BN254 = ecc.BN254.ScalarField()

// Hints are added to every real solver run (set by checks whose gadgets have their own hints).
var Hints []solver.Option

var (
	mu  sync.Mutex
	fns = map[int]Fn{}
)

func register(f Fn) int {
	mu.Lock()
	defer mu.Unlock()
	id := len(fns)
	fns[id] = f
	return id
}

type circ struct {
	In  []frontend.Variable
	Out []frontend.Variable `gnark:",public"`
	ID  int                 `gnark:"-"`
}

func (c *circ) Define(api frontend.API) error {
	mu.Lock()
	f := fns[c.ID]
	mu.Unlock()
	out := f(api, c.In)
	if len(out) != len(c.Out)-1 {
		return fmt.Errorf("gadget has %d outputs, %d expected", len(out), len(c.Out)-1)
	}
	api.AssertIsEqual(c.Out[len(out)], 1)
	for i := range out {
		api.AssertIsEqual(out[i], c.Out[i])
	}
	return nil
}

// Gadget is a registered gadget with a fixed shape.
type Gadget struct {
	id, nin, nout int
	once          [2]sync.Once
	ccs           [2]constraint.ConstraintSystem
	cerr          [2]error
	field         *big.Int
}

func New(field *big.Int, nin, nout int, f Fn) *Gadget {
	return &Gadget{id: register(f), nin: nin, nout: nout, field: field}
}

func (g *Gadget) assign(in, out []*big.Int) *circ {
	w := &circ{ID: g.id, In: make([]frontend.Variable, g.nin), Out: make([]frontend.Variable, g.nout+1)}
	for i := range in {
		w.In[i] = new(big.Int).Set(in[i])
	}
	for i := range out {
		w.Out[i] = new(big.Int).Set(out[i])
	}
	w.Out[g.nout] = 1
	return w
}

// TestEngine runs gnark's test engine.
func (g *Gadget) TestEngine(in, out []*big.Int) error {
	c := &circ{ID: g.id, In: make([]frontend.Variable, g.nin), Out: make([]frontend.Variable, g.nout+1)}
	return test.IsSolved(c, g.assign(in, out), g.field)
}

// Solve compiles (once) to R1CS (kind 0) or SCS (kind 1) and runs the solver.
func (g *Gadget) Solve(kind int, in, out []*big.Int, opts ...solver.Option) error {
	g.once[kind].Do(func() {
		defer func() {
			if r := recover(); r != nil {
				g.cerr[kind] = fmt.Errorf("compile panic: %v", r)
			}
		}()
		c := &circ{ID: g.id, In: make([]frontend.Variable, g.nin), Out: make([]frontend.Variable, g.nout+1)}
		var nb frontend.NewBuilder = r1cs.NewBuilder
		if kind == 1 {
			nb = scs.NewBuilder
		}
		g.ccs[kind], g.cerr[kind] = frontend.Compile(g.field, nb, c, frontend.IgnoreUnconstrainedInputs())
	})
	if g.cerr[kind] != nil {
		return fmt.Errorf("compile: %w", g.cerr[kind])
	}
	w, err := frontend.NewWitness(g.assign(in, out), g.field)
	if err != nil {
		return err
	}
	opts = append(opts, Hints...)
	// the backend's commitment is replaced by a challenge derived from the committed values
	opts = append(opts, solver.OverrideHint(solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder), func(mod *big.Int, in []*big.Int, out []*big.Int) error {
		h := sha256.New()
		for _, x := range in {
			h.Write(x.Bytes())
			h.Write([]byte{'|'})
		}
		out[0].SetBytes(h.Sum(nil)).Mod(out[0], mod)
		return nil
	}))
	opts = append(opts, solver.WithLogger(zerolog.New(io.Discard).Level(zerolog.Disabled)))
	_, err = g.ccs[kind].Solve(w, opts...)
	return err
}

// Eng runs the gadget in the exploration engine and returns its outputs.
func (g *Gadget) Eng(in []*big.Int) ([]*big.Int, eng.Result, *eng.Engine) {
	e := eng.New(g.field)
	var out []*big.Int
	r := e.Run(func(api frontend.API) error {
		vs := make([]frontend.Variable, len(in))
		for i := range in {
			vs[i] = e.Val(in[i])
		}
		mu.Lock()
		f := fns[g.id]
		mu.Unlock()
		for _, o := range f(api, vs) {
			out = append(out, e.Big(o))
		}
		return nil
	})
	return out, r, e
}

// Agree runs a case in the engine and in gnark (test engine and both compiled
// systems as selected) and reports a disagreement. want: outputs the
// engine computed; ok: its verdict.
func (g *Gadget) Agree(in, out []*big.Int, ok bool, kinds ...int) string {
	if !ok && len(out) < g.nout {
		for len(out) < g.nout {
			out = append(out, new(big.Int))
		}
	}
	for _, k := range kinds {
		var err error
		switch k {
		case 0, 1:
			err = g.Solve(k, in, out)
		case 2:
			err = g.TestEngine(in, out)
		}
		if (err == nil) != ok {
			return fmt.Sprintf("engine says ok=%v but gnark backend %d says %v", ok, k, err)
		}
	}
	return ""
}

// Ints builds a []*big.Int.
func Ints(xs ...int64) []*big.Int {
	r := make([]*big.Int, len(xs))
	for i, x := range xs {
		r[i] = big.NewInt(x)
	}
	return r
}
