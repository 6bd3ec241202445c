//go:build go1.23 && verif_modulus

package fieldElements

// VerifModulus is the reciprocal of m and the multiples of m next to 2^256.
func VerifModulus(m Uint256) (re [5]uint64, mmu0, mmu1 [4]uint64) {
	var z modulus
	z.FromUint256(m)
	if z.ToUint256() != m {
		panic("VERIF ToUint256 differs")
	}
	return z.re, z.mmu0, z.mmu1
}
