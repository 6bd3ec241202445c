//go:build go1.23 && verif_fealg

package fieldElements

// The alternative implementations of some operations that the package keeps beside the ones in use.

func VerifReduceFbOptimistic(z *Uint256) { z.reduce_fb_optimistic() }
func VerifReduceFaLoop(z *Uint256)       { z.reduce_fa_loop() }
func VerifReduceFaBarret(z *Uint256)     { z.reduce_fa_barret() }
func VerifSlidingWindow(z, base, exponent *Uint256) {
	z.modularExponentiationSlidingWindowMontgomery_fa(base, exponent)
}
func VerifMulMontgomerySlow(z, x, y *Uint256)                { z.mulMontgomerySlow_c(x, y) }
func VerifMulFourOne(x *Uint256, y uint64) (uint64, Uint256) { return mul_four_one_64(x, y) }
func VerifAddMulShift(target, x *Uint256, y uint64) uint64   { return add_mul_shift_64(target, x, y) }
func VerifMontgomeryStep(t *Uint256, q uint64)               { montgomery_step_64(t, q) }
func VerifExpOddOrder(z, x *FieldElement)                    { z.sqrtAlg_ExpOddOrder(x) }
func VerifDyadicOrder(x *FieldElement) int                   { return sqrtAlg_OrderAsDyadicRootOfUnity(x) }
func VerifRelevantPowers(x, candidate, root *FieldElement) {
	x.sqrtAlg_ComputeRelevantPowers(candidate, root)
}
