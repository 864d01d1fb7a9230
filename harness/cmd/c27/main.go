// C27: artifact files.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/std/rangecheck"
	"github.com/consensys/gnark/test/unsafekzg"
	"github.com/rs/zerolog"

	"verif/harness/mc"
)

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	mc.Main(mc.Meta{Prop: "C27",
		Rule:        "every artifact kind (keys, constraint systems, proofs, witnesses, Solidity export, public inputs; Groth16 and PLONK; circuits with and without commitment; several curves) written and read back through the helpers: the object read serialises to the same bytes and proofs read back verify; every cut of every file read again must be an error (a crash while writing leaves such a file); every write limit from 0 to the full size (the file system refuses the first write past the limit) and a full device must give an error from the writer; missing, unwritable and directory paths; a shorter artifact over a longer one",
		Assumptions: []string{"gnark's own in-memory serialisation is the reference for file contents", "failures reported only by close (e.g. network file systems) cannot be provoked here"},
	}, run)
}

type plain struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *plain) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(c.X, c.Y), c.Z)
	return nil
}

type commit struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *commit) Define(api frontend.API) error {
	rangecheck.New(api).Check(c.X, 3)
	api.AssertIsEqual(api.Mul(c.X, c.Y), c.Z)
	return nil
}

// artifact is one stored object with its helper pair.
type artifact struct {
	name  string
	bytes []byte // what serialises to, in memory
	write func(file string) error
	read  func(file string) (again func() ([]byte, error), err error)
	raw   bool // no structure: a cut file is another valid one
}

func ser(w io.WriterTo) []byte {
	var b bytes.Buffer
	if _, err := w.WriteTo(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}
func again(w io.WriterTo) func() ([]byte, error) {
	return func() ([]byte, error) {
		var b bytes.Buffer
		_, err := w.WriteTo(&b)
		return b.Bytes(), err
	}
}
func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

type sol interface{ ExportSolidity(io.Writer) error }

// writePlonkPK: a helper without a result cannot report anything.
func writePlonkPK(p string, pk plonk.ProvingKey) error {
	switch f := any(utils.WritePlonkProvingKey).(type) {
	case func(string, plonk.ProvingKey) error:
		return f(p, pk)
	case func(string, plonk.ProvingKey):
		f(p, pk)
		return nil
	}
	panic("harness: WritePlonkProvingKey")
}

func artifacts(c *mc.Ctx) (as []artifact) {
	curves := []ecc.ID{ecc.BN254, ecc.BW6_761}
	if c.Thorough() {
		curves = append(curves, ecc.BLS12_377, ecc.BLS12_381)
	}
	for _, id := range curves {
		id := id
		f := id.ScalarField()
		for ci, mk := range []func(x, y, z any) frontend.Circuit{
			func(x, y, z any) frontend.Circuit { return &plain{x, y, z} },
			func(x, y, z any) frontend.Circuit { return &commit{x, y, z} },
		} {
			tag := fmt.Sprintf("%s circuit %d ", id, ci)
			add := func(a artifact) { a.name = tag + a.name; as = append(as, a) }
			var circ, asg frontend.Circuit
			if ci == 0 {
				circ = &plain{}
			} else {
				circ = &commit{}
			}
			asg = mk(5, new(big.Int).Sub(f, big.NewInt(2)), new(big.Int).Sub(f, big.NewInt(10)))
			wit := must(frontend.NewWitness(asg, f))
			pub := must(wit.Public())
			wart := func(n string, w witness.Witness) {
				add(artifact{name: n, bytes: ser(w), write: func(p string) error { return utils.WriteWitness(p, w) }, read: func(p string) (func() ([]byte, error), error) {
					o := must(witness.New(f))
					err := utils.ReadWitness(p, o)
					return again(o), err
				}})
			}
			wart("witness", wit)
			wart("public witness", pub)
			// groth16
			gcs := must(frontend.Compile(f, r1cs.NewBuilder, circ))
			gpk, gvk, err := groth16.Setup(gcs)
			if err != nil {
				panic(err)
			}
			gproof := must(groth16.Prove(gcs, gpk, wit))
			add(artifact{name: "groth16 constraints", bytes: ser(gcs), write: func(p string) error { return utils.WriteCcs(p, gcs) }, read: func(p string) (func() ([]byte, error), error) {
				o := groth16.NewCS(id)
				err := utils.ReadCcs(p, o)
				return again(o), err
			}})
			add(artifact{name: "groth16 proving key", bytes: ser(gpk), write: func(p string) error { return utils.WriteProvingKey(p, gpk) }, read: func(p string) (func() ([]byte, error), error) {
				o := groth16.NewProvingKey(id)
				err := utils.ReadProvingKey(p, o)
				return func() ([]byte, error) {
					if _, err := groth16.Prove(gcs, o, wit); err != nil {
						return nil, fmt.Errorf("cannot prove: %w", err)
					}
					return again(o)()
				}, err
			}})
			add(artifact{name: "groth16 verifying key", bytes: ser(gvk), write: func(p string) error { return utils.WriteVerifyingKey(p, gvk) }, read: func(p string) (func() ([]byte, error), error) {
				o := groth16.NewVerifyingKey(id)
				err := utils.ReadVerifyingKey(p, o)
				return func() ([]byte, error) {
					if err := groth16.Verify(gproof, o, pub); err != nil {
						return nil, err
					}
					return again(o)()
				}, err
			}})
			add(artifact{name: "groth16 proof", bytes: func() []byte {
				var b bytes.Buffer
				must(gproof.WriteRawTo(&b))
				return b.Bytes()
			}(), write: func(p string) error { return utils.WriteProofIntoLocalFile(p, gproof) }, read: func(p string) (func() ([]byte, error), error) {
				o := groth16.NewProof(id)
				err := utils.ReadProofFromLocalFile(p, o)
				return func() ([]byte, error) {
					if err := groth16.Verify(o, gvk, pub); err != nil {
						return nil, err
					}
					var b bytes.Buffer
					_, err := o.WriteRawTo(&b)
					return b.Bytes(), err
				}, err
			}})
			// plonk
			pcs := must(frontend.Compile(f, scs.NewBuilder, circ))
			srs, lag, err := unsafekzg.NewSRS(pcs)
			if err != nil {
				panic(err)
			}
			ppk, pvk, err := plonk.Setup(pcs, srs, lag)
			if err != nil {
				panic(err)
			}
			pproof := must(plonk.Prove(pcs, ppk, wit))
			add(artifact{name: "plonk constraints", bytes: ser(pcs), write: func(p string) error { return utils.WritePlonkCcs(p, pcs) }, read: func(p string) (func() ([]byte, error), error) {
				o := plonk.NewCS(id)
				err := utils.ReadPlonkCcs(p, o)
				return again(o), err
			}})
			add(artifact{name: "plonk proving key", bytes: ser(ppk), write: func(p string) error { return writePlonkPK(p, ppk) }, read: func(p string) (func() ([]byte, error), error) {
				o := plonk.NewProvingKey(id)
				err := utils.ReadPlonkProvingKey(p, o)
				return func() ([]byte, error) {
					if _, err := plonk.Prove(pcs, o, wit); err != nil {
						return nil, fmt.Errorf("cannot prove: %w", err)
					}
					return again(o)()
				}, err
			}})
			add(artifact{name: "plonk verifying key", bytes: ser(pvk), write: func(p string) error { return utils.WritePlonkVerifyingKey(p, pvk) }, read: func(p string) (func() ([]byte, error), error) {
				o := plonk.NewVerifyingKey(id)
				err := utils.ReadPlonkVerifyingKey(p, o)
				return func() ([]byte, error) {
					if err := plonk.Verify(pproof, o, pub); err != nil {
						return nil, err
					}
					return again(o)()
				}, err
			}})
			add(artifact{name: "plonk proof", bytes: func() []byte {
				var b bytes.Buffer
				must(pproof.WriteRawTo(&b))
				return b.Bytes()
			}(), write: func(p string) error { return utils.WritePlonkProofIntoLocalFile(pproof, p) }, read: func(p string) (func() ([]byte, error), error) {
				o := plonk.NewProof(id)
				err := utils.ReadPlonkProofFromLocalFile(p, o)
				return func() ([]byte, error) {
					if err := plonk.Verify(o, pvk, pub); err != nil {
						return nil, err
					}
					var b bytes.Buffer
					_, err := o.WriteRawTo(&b)
					return b.Bytes(), err
				}, err
			}})
			if id == ecc.BN254 {
				// gnark's export changes the key while it runs
				gvk2 := groth16.NewVerifyingKey(id)
				must(gvk2.ReadFrom(bytes.NewReader(ser(gvk))))
				plainFile := func(p string) (func() ([]byte, error), error) {
					b, err := utils.ReadFileAndReturnByteArray(p)
					return func() ([]byte, error) { return b, nil }, err
				}
				exp := func(v sol) []byte {
					var b bytes.Buffer
					if err := v.ExportSolidity(&b); err != nil {
						panic(err)
					}
					return b.Bytes()
				}
				add(artifact{name: "groth16 solidity", raw: true, bytes: exp(gvk2), write: func(p string) error { return utils.WriteVKSolidity(p, gvk2) }, read: plainFile})
				add(artifact{name: "plonk solidity", raw: true, bytes: exp(pvk), write: func(p string) error { return utils.WritePlonkVKSolidity(p, pvk) }, read: plainFile})
				data := ser(pub)
				add(artifact{name: "public inputs", raw: true, bytes: data, write: func(p string) error { return utils.WritePublicInputs(p, data) }, read: func(p string) (func() ([]byte, error), error) {
					b, err := utils.ReadPublicInputs(p)
					return func() ([]byte, error) { return b, nil }, err
				}})
				add(artifact{name: "no public inputs", raw: true, bytes: nil, write: func(p string) error { return utils.WritePublicInputs(p, nil) }, read: func(p string) (func() ([]byte, error), error) {
					b, err := utils.ReadPublicInputs(p)
					return func() ([]byte, error) { return b, nil }, err
				}})
			}
		}
	}
	return
}

func safe(f func() error) (err error, crash string) {
	defer func() {
		if r := recover(); r != nil {
			crash = fmt.Sprint("panic: ", r)
		}
	}()
	return f(), ""
}

func run(c *mc.Ctx) {
	dir, err := os.MkdirTemp("", "verif-c27-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	as := artifacts(c)
	readBack := func(a artifact, file string) string {
		var g func() ([]byte, error)
		var got []byte
		err, crash := safe(func() (err error) {
			if g, err = a.read(file); err == nil {
				got, err = g()
			}
			return
		})
		if crash != "" {
			return crash
		}
		if err != nil {
			return err.Error()
		}
		if !bytes.Equal(got, a.bytes) {
			return fmt.Sprintf("read back as another object: %d bytes, want %d", len(got), len(a.bytes))
		}
		return ""
	}
	name := func(i int) string { return as[i].name }
	c.Each("round trip", len(as), name, func(i int) string {
		a := as[i]
		d := filepath.Join(dir, fmt.Sprint("rt", i))
		os.Mkdir(d, 0o700)
		file := filepath.Join(d, "artifact")
		c.State(4)
		c.Trans(8)
		c.Trace(4)
		for k, before := range [][]byte{nil, bytes.Repeat([]byte{0xee}, len(a.bytes)+1000), a.bytes, {1}} {
			if before != nil {
				if err := os.WriteFile(file, before, 0o600); err != nil {
					panic(err)
				}
			}
			if err, crash := safe(func() error { return a.write(file) }); err != nil || crash != "" {
				return fmt.Sprint("write: ", err, crash)
			}
			if m := readBack(a, file); m != "" {
				return fmt.Sprintf("over file %d: %s", k, m)
			}
			b, err := os.ReadFile(file)
			if err != nil || !bytes.Equal(b, a.bytes) {
				return fmt.Sprintf("over file %d: file holds %d bytes, want %d (%v)", k, len(b), len(a.bytes), err)
			}
			if b, err := utils.ReadFileAndReturnByteArray(file); err != nil || !bytes.Equal(b, a.bytes) {
				return fmt.Sprintf("file read as %d bytes, want %d (%v)", len(b), len(a.bytes), err)
			}
		}
		// paths that cannot be read or written
		for _, p := range []string{filepath.Join(d, "missing"), filepath.Join(d, "no", "dir"), d, ""} {
			c.State(1)
			var err error
			e, crash := safe(func() error { _, err = a.read(p); return err })
			if crash != "" {
				return "reading " + p + ": " + crash
			}
			if e == nil {
				return "no error reading " + p
			}
		}
		for _, p := range []string{filepath.Join(d, "no", "dir"), d, ""} {
			c.State(1)
			err, crash := safe(func() error { return a.write(p) })
			if crash != "" {
				return "writing " + p + ": " + crash
			}
			if err == nil {
				return "no error writing " + p
			}
		}
		if len(a.bytes) > 0 {
			err, crash := safe(func() error { return a.write("/dev/full") })
			if crash != "" {
				return "writing to a full device: " + crash
			}
			if err == nil {
				return "no error writing to a full device"
			}
		}
		return ""
	})
	// cut files
	type cut struct{ a, n int }
	var cuts []cut
	for i, a := range as {
		if a.raw {
			continue
		}
		step := 1
		if len(a.bytes) > 3000 && !c.Thorough() {
			step = 1 + len(a.bytes)/1500
		}
		for n := 0; n < len(a.bytes); n++ {
			if n < 256 || n >= len(a.bytes)-256 || n%step == 0 {
				cuts = append(cuts, cut{i, n})
			}
		}
	}
	c.Each("cut files", len(cuts), func(i int) string { return fmt.Sprintf("%s cut to %d", as[cuts[i].a].name, cuts[i].n) }, func(i int) string {
		a := as[cuts[i].a]
		file := filepath.Join(dir, fmt.Sprint("cut", i))
		defer os.Remove(file)
		if err := os.WriteFile(file, a.bytes[:cuts[i].n], 0o600); err != nil {
			panic(err)
		}
		c.State(1)
		c.Trans(1)
		err, crash := safe(func() error { _, err := a.read(file); return err })
		if crash != "" {
			return crash
		}
		if err == nil {
			return fmt.Sprintf("cut from %d bytes and read without an error", len(a.bytes))
		}
		return ""
	})
	// write limits: the limit counts for the whole process, so one at a time
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := filepath.Join(dir, "limited")
	for i, a := range as {
		c.One("write limits", a.name, func() string {
			step := 1
			if len(a.bytes) > 2000 {
				step = 1 + len(a.bytes)/mc.Pick(c, 400, 4000)
			}
			for n := 0; n < len(a.bytes); n++ {
				if !(n < 64 || n >= len(a.bytes)-64 || n%step == 0) {
					continue
				}
				os.Remove(lim)
				var err error
				var crash string
				func() {
					l := syscall.Rlimit{Cur: uint64(n), Max: old.Max}
					if e := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); e != nil {
						panic(e)
					}
					defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
					err, crash = safe(func() error { return a.write(lim) })
				}()
				c.State(1)
				c.Trans(1)
				if crash != "" {
					return fmt.Sprintf("limit %d: %s", n, crash)
				}
				if err == nil {
					return fmt.Sprintf("only %d of %d bytes could be written and the writer reported no error", n, len(a.bytes))
				}
			}
			_ = i
			return ""
		})
	}
}
