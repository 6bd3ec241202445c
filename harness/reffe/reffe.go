//go:build go1.23

// Package reffe makes field elements in chosen internal representations.
package reffe

import (
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type FE = fieldElements.FieldElement

// Of makes a field element with the given value; alt asks for the other internal representation, where there is one.
func Of(v *big.Int, alt bool) FE {
	var z FE
	z.SetBigInt(v)
	if alt {
		z.RerandomizeRepresentation(1)
	} else {
		z.RerandomizeRepresentation(0)
	}
	return z
}

// Draw draws a field element (and its value).
func Draw(c *kit.C) (FE, *big.Int) {
	v := refmath.Residue(c)
	return Of(v, kit.Bool(c, "alt")), v
}

// Raw is the internal representation.
func Raw(z *FE) string {
	var b [64]byte
	z.ToBytes(b[:z.BytesLength()])
	return string(b[:])
}

// Uses Montgomery form such that all-zero is zero, etc.: Val reads the value without any shortcut.
func Val(z *FE) *big.Int { return z.ToBigInt() }
