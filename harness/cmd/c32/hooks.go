//go:build !nohooks

package main

import (
	"math/big"

	"github.com/brevis-network/zk-utils/circuits/gadgets/ed25519/test/field"

	"verif/harness/ed"
)

// portable is the arithmetic used where there is no assembly
var portable = []op{
	{"mul portable", func(r, a, b *field.Element) { field.VerifGeneric(r, a, b) }, ed.Mul},
	{"square portable", func(r, a, b *field.Element) { field.VerifGenericSquare(r, a) }, func(a, b *big.Int) *big.Int { return ed.Mul(a, a) }},
}
