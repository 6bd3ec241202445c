//go:build go1.23 && verif_bigintfe

package fieldElements

type VerifBigIntFE = bsFieldElement_BigInt
