//go:build go1.23 && verif_digits

package exponents

import "math/big"

// VerifDigit is one term Sign * Coeff * 2^Position.
type VerifDigit struct {
	Position, Coeff uint
	Sign            int
}

func VerifDecompose(x *big.Int, maxbits uint) (ret []VerifDigit) {
	var e glvExponent
	e.SetBigInt(x)
	for _, d := range decomposeUnalignedSignedAdic(e, maxbits) {
		ret = append(ret, VerifDigit{d.position, d.coeff, d.sign})
	}
	return
}

type VerifUint128 = uint128
type VerifGLV = glvExponent

func VerifAdd128(x, y VerifUint128) VerifUint128 { return add128(x, y) }
func VerifMul128(x, y VerifUint128) VerifUint128 { return mul128(x, y) }
func VerifBitRange(x VerifUint128, low, high uint) uint {
	return getBitRange(x, low, high)
}
