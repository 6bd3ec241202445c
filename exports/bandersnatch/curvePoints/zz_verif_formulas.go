//go:build verif_formulas

package curvePoints

import "math/big"

// The formulas that the package keeps beside the ones in use.

var VerifAddTTT = map[string]func(z, x, y *Point_xtw_full){
	"add_ttt":      func(z, x, y *Point_xtw_full) { z.add_ttt(&x.point_xtw_base, &y.point_xtw_base) },
	"add_safe_ttt": func(z, x, y *Point_xtw_full) { z.add_safe_ttt(&x.point_xtw_base, &y.point_xtw_base) },
	"addNaive_ttt": func(z, x, y *Point_xtw_full) { z.addNaive_ttt(&x.point_xtw_base, &y.point_xtw_base) },
}

var VerifSubTTT = map[string]func(z, x, y *Point_xtw_full){
	"sub_ttt":      func(z, x, y *Point_xtw_full) { z.sub_ttt(&x.point_xtw_base, &y.point_xtw_base) },
	"sub_safe_ttt": func(z, x, y *Point_xtw_full) { z.sub_safe_ttt(&x.point_xtw_base, &y.point_xtw_base) },
}

func VerifAddTTA(z, x *Point_xtw_full, y *Point_axtw_full) {
	z.add_tta(&x.point_xtw_base, &y.point_axtw_base)
}
func VerifSubTTA(z, x *Point_xtw_full, y *Point_axtw_full) {
	z.sub_tta(&x.point_xtw_base, &y.point_axtw_base)
}
func VerifSubTAT(z *Point_xtw_full, x *Point_axtw_full, y *Point_xtw_full) {
	z.sub_tat(&x.point_axtw_base, &y.point_xtw_base)
}
func VerifAddTAA(z *Point_xtw_full, x, y *Point_axtw_full) {
	z.add_taa(&x.point_axtw_base, &y.point_axtw_base)
}
func VerifSubTAA(z *Point_xtw_full, x, y *Point_axtw_full) {
	z.sub_taa(&x.point_axtw_base, &y.point_axtw_base)
}
func VerifNegTA(z *Point_xtw_full, x *Point_axtw_full) { z.neg_ta(&x.point_axtw_base) }

func VerifExpNaive(z, x *Point_xtw_full, k *big.Int) { z.exp_naive_xx(&x.point_xtw_base, k) }
