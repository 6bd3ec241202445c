//go:build go1.23 && verif_formulas

package curve

import (
	"fmt"
	"slices"

	"maps"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type (
	xtw  = curvePoints.Point_xtw_full
	axtw = curvePoints.Point_axtw_full
)

// The package keeps further formulas beside those in use.
var formulas = []kit.Sub{{Name: "alternative-formulas", Quick: 3000, Fn: altFormulas}, {Name: "alternative-multiples", Quick: 200, Fn: altMultiples}}

func altFormulas(c *kit.C) {
	p := rc.DrawFor(c, rc.TF)
	q := relatedFor(c)(rc.TF, p)
	alias := kit.Int(c, "alias", 0, 4) // 1: z=x 2: z=y 3: x=y 4: all the same
	if alias >= 3 {
		q = p
	}
	sum, diff := rc.Add(p.Pt, q.Pt), rc.Sub(p.Pt, q.Pt)
	c.Case(generic(p.Pt) && generic(q.Pt), "%v and %v, sharing %d", p, q, alias)
	c.LabelIf(p.Pt.Inf() || q.Pt.Inf(), "operand at infinity")
	c.LabelIf(sum.Inf() || diff.Inf(), "result at infinity")
	// the results are projective: z is zero for points at infinity only
	try := func(name string, exceptional bool, want Pt, f func(z, x, y *xtw)) {
		if exceptional {
			return
		}
		x, y, z := rc.Make(c, rc.TF, p.Pt).(*xtw), rc.Make(c, rc.TF, q.Pt).(*xtw), rc.New(rc.TF).(*xtw)
		switch alias {
		case 1:
			z = x
		case 2:
			z = y
		case 3:
			y = x
		case 4:
			y, z = x, x
		}
		n, restore := rc.Watch()
		defer restore()
		if e, did := kit.Panics(func() { f(z, x, y) }); did {
			c.Fatalf("%s(%v,%v), sharing %d: panics: %v", name, p, q, alias, e)
		}
		c.Check(*n == 0, "%s(%v,%v): reports invalid points", name, p, q)
		desc := fmt.Sprintf("%s(%v,%v), sharing %d", name, p, q, alias)
		rc.Is(c, z, want, "%s", desc)
		c.Check(validate(z), "%s: the result is not valid", desc)
		if x != z {
			rc.Is(c, x, p.Pt, "%s: first operand afterwards", desc)
		}
		if y != z {
			rc.Is(c, y, q.Pt, "%s: second operand afterwards", desc)
		}
	}
	for _, name := range slices.Sorted(maps.Keys(curvePoints.VerifAddTTT)) {
		exc := diff.Inf()
		if name == "addNaive_ttt" { // divides by the Z coordinates, and has denominators
			exc = exc || sum.Inf() || p.Pt.Inf() || q.Pt.Inf()
		}
		try(name, exc, sum, curvePoints.VerifAddTTT[name])
	}
	for _, name := range slices.Sorted(maps.Keys(curvePoints.VerifSubTTT)) {
		try(name, sum.Inf(), diff, curvePoints.VerifSubTTT[name])
	}
	affine := func(k Pt) *axtw { return rc.Make(c, rc.AF, k).(*axtw) }
	if !q.Pt.Inf() {
		try("add_tta", diff.Inf(), sum, func(z, x, y *xtw) { curvePoints.VerifAddTTA(z, x, affine(q.Pt)) })
		try("sub_tta", sum.Inf(), diff, func(z, x, y *xtw) { curvePoints.VerifSubTTA(z, x, affine(q.Pt)) })
		try("neg_ta", false, rc.Neg(q.Pt), func(z, x, y *xtw) { curvePoints.VerifNegTA(z, affine(q.Pt)) })
	}
	if !p.Pt.Inf() {
		try("sub_tat", sum.Inf(), diff, func(z, x, y *xtw) { curvePoints.VerifSubTAT(z, affine(p.Pt), y) })
	}
	if !p.Pt.Inf() && !q.Pt.Inf() {
		try("add_taa", diff.Inf(), sum, func(z, x, y *xtw) { curvePoints.VerifAddTAA(z, affine(p.Pt), affine(q.Pt)) })
		try("sub_taa", sum.Inf(), diff, func(z, x, y *xtw) { curvePoints.VerifSubTAA(z, affine(p.Pt), affine(q.Pt)) })
	}
}

func altMultiples(c *kit.C) {
	p := rc.DrawSub(c)
	k := m.AnyInt(c, rc.Order)
	x := rc.Make(c, rc.TF, p.Pt).(*xtw)
	z := rc.New(rc.TF).(*xtw)
	if kit.Bool(c, "same") {
		z = x
	}
	before := new(Int).Set(k)
	c.Case(k.BitLen() > 64 && generic(p.Pt), "%v times %v", k, p)
	curvePoints.VerifExpNaive(z, x, k)
	rc.Is(c, z, rc.Mul(new(Int).Mod(k, rc.Order), p.Pt), "exp_naive_xx(%v,%v)", p, k)
	c.Check(before.Cmp(k) == 0, "exp_naive_xx(%v,%v) changes the exponent to %v", p, before, k)
	if z != x {
		rc.Is(c, x, p.Pt, "exp_naive_xx(%v,%v): operand afterwards", p, k)
	}
}
