package main

import (
	"bytes"
	"embed"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"

	"github.com/brevis-network/zk-utils/common/utils"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
)

// square is the circuit of the keys and proofs in stored/.
type square struct {
	Y frontend.Variable `gnark:",public"`
	X frontend.Variable
}

func (c *square) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(c.X, c.X), c.Y)
	return nil
}

//go:embed stored
var stored embed.FS

func load[T io.ReaderFrom](o T, name string) T {
	b, err := stored.ReadFile("stored/" + name)
	if err != nil {
		panic(err)
	}
	if _, err := o.ReadFrom(bytes.NewReader(b)); err != nil {
		panic(err)
	}
	return o
}

// inDir runs f on file names of a directory of its own and gives what the files
// hold afterwards.
func inDir(f func(name func(string) string) error) any {
	d, err := os.MkdirTemp("", "verif-c39-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	e := f(func(n string) string { return filepath.Join(d, n) })
	fs, err := os.ReadDir(d)
	if err != nil {
		panic(err)
	}
	out := []any{fmt.Sprint(e)}
	for _, x := range fs {
		b, err := os.ReadFile(filepath.Join(d, x.Name()))
		if err != nil {
			panic(err)
		}
		h := fnv.New128a()
		h.Write(b)
		out = append(out, x.Name(), len(b), h.Sum(nil))
	}
	return out
}

func first(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

// storeOps are the operations that write and read proving artifacts.
func storeOps() []op {
	f := ecc.BN254.ScalarField()
	wit := func() witness.Witness {
		w, err := frontend.NewWitness(&square{Y: 9, X: 3}, f)
		if err != nil {
			panic(err)
		}
		return w
	}
	return []op{
		host("groth16 verifying key files", func() ([]any, func() any) {
			vk := load(groth16.NewVerifyingKey(ecc.BN254), "groth16.vk")
			return []any{vk}, func() any {
				return inDir(func(n func(string) string) error {
					return first(utils.WriteVKSolidity(n("sol"), vk), utils.WriteVerifyingKey(n("vk"), vk), utils.ReadVerifyingKey(n("vk"), groth16.NewVerifyingKey(ecc.BN254)))
				})
			}
		}),
		host("groth16 files", func() ([]any, func() any) {
			pr, pk := load(groth16.NewProof(ecc.BN254), "groth16.proof"), load(groth16.NewProvingKey(ecc.BN254), "groth16.pk")
			cs, err := frontend.Compile(f, r1cs.NewBuilder, &square{})
			if err != nil {
				panic(err)
			}
			w := wit()
			return []any{pr, pk, w}, func() any {
				return inDir(func(n func(string) string) error {
					return first(utils.WriteProofIntoLocalFile(n("pr"), pr), utils.WriteProvingKey(n("pk"), pk), utils.WriteCcs(n("cs"), cs), utils.WriteWitness(n("w"), w),
						utils.ReadProofFromLocalFile(n("pr"), groth16.NewProof(ecc.BN254)), utils.ReadProvingKey(n("pk"), groth16.NewProvingKey(ecc.BN254)), utils.ReadCcs(n("cs"), groth16.NewCS(ecc.BN254)))
				})
			}
		}),
		host("plonk files", func() ([]any, func() any) {
			vk, pr := load(plonk.NewVerifyingKey(ecc.BN254), "plonk.vk"), load(plonk.NewProof(ecc.BN254), "plonk.proof")
			pk := load(plonk.NewProvingKey(ecc.BN254), "plonk.pk")
			cs, err := frontend.Compile(f, scs.NewBuilder, &square{})
			if err != nil {
				panic(err)
			}
			return []any{vk, pr}, func() any {
				return inDir(func(n func(string) string) error {
					utils.WritePlonkProvingKey(n("pk"), pk)
					return first(utils.WritePlonkVKSolidity(n("sol"), vk), utils.WritePlonkVerifyingKey(n("vk"), vk), utils.WritePlonkProofIntoLocalFile(pr, n("pr")), utils.WritePlonkCcs(n("cs"), cs),
						utils.ReadPlonkVerifyingKey(n("vk"), plonk.NewVerifyingKey(ecc.BN254)), utils.ReadPlonkProofFromLocalFile(n("pr"), plonk.NewProof(ecc.BN254)), utils.ReadPlonkProvingKey(n("pk"), plonk.NewProvingKey(ecc.BN254)), utils.ReadPlonkCcs(n("cs"), plonk.NewCS(ecc.BN254)))
				})
			}
		}),
		host("public input files", func() ([]any, func() any) {
			x := bs(64, 3)
			return []any{x}, func() any {
				return inDir(func(n func(string) string) error {
					err := utils.WritePublicInputs(n("pub"), x)
					b, err2 := utils.ReadPublicInputs(n("pub"))
					if !bytes.Equal(b, x) {
						return fmt.Errorf("read %x", b)
					}
					return first(err, err2)
				})
			}
		}),
	}
}
