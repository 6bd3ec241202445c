//go:build go1.23

package curve

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

// P41: the published constants. The reference values stem from refmath and refcurve, and from the defining relations.

func TestP41(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "values", Quick: 60, Fn: constValues},
		kit.Sub{Name: "points", Quick: 1600, Fn: constPoints},
		kit.Sub{Name: "field-elements", Quick: 2400, Fn: constFields},
		kit.Sub{Name: "integers", Quick: 2400, Fn: constInts},
	)
}

var constPts = []struct {
	name string
	p    CP
	want Pt
	endo Pt
}{
	{"NeutralElement_axtw_full", &curvePoints.NeutralElement_axtw_full, rc.Torsion[0], rc.Torsion[0]},
	{"NeutralElement_axtw_subgroup", &curvePoints.NeutralElement_axtw_subgroup, rc.Torsion[0], rc.Torsion[0]},
	{"NeutralElement_xtw_full", &curvePoints.NeutralElement_xtw_full, rc.Torsion[0], rc.Torsion[0]},
	{"NeutralElement_xtw_subgroup", &curvePoints.NeutralElement_xtw_subgroup, rc.Torsion[0], rc.Torsion[0]},
	{"NeutralElement_efgh_full", &curvePoints.NeutralElement_efgh_full, rc.Torsion[0], rc.Torsion[0]},
	{"NeutralElement_efgh_subgroup", &curvePoints.NeutralElement_efgh_subgroup, rc.Torsion[0], rc.Torsion[0]},
	{"AffineOrderTwoPoint_axtw", &curvePoints.AffineOrderTwoPoint_axtw, rc.Torsion[1], rc.Torsion[0]},
	{"AffineOrderTwoPoint_xtw", &curvePoints.AffineOrderTwoPoint_xtw, rc.Torsion[1], rc.Torsion[0]},
	{"AffineOrderTwoPoint_efgh", &curvePoints.AffineOrderTwoPoint_efgh, rc.Torsion[1], rc.Torsion[0]},
	{"InfinitePoint1_xtw", &curvePoints.InfinitePoint1_xtw, rc.Torsion[2], rc.Torsion[1]},
	{"InfinitePoint2_xtw", &curvePoints.InfinitePoint2_xtw, rc.Torsion[3], rc.Torsion[1]},
	{"InfinitePoint1_efgh", &curvePoints.InfinitePoint1_efgh, rc.Torsion[2], rc.Torsion[1]},
	{"InfinitePoint2_efgh", &curvePoints.InfinitePoint2_efgh, rc.Torsion[3], rc.Torsion[1]},
	{"SubgroupGenerator_xtw_subgroup", &curvePoints.SubgroupGenerator_xtw_subgroup, rc.Gen, rc.Mul(rc.Lambda, rc.Gen)},
}

var constFEs = []struct {
	name string
	p    *FE
	want *Int
}{
	{"FieldElementZero", &fe.FieldElementZero, big.NewInt(0)},
	{"FieldElementOne", &fe.FieldElementOne, big.NewInt(1)},
	{"FieldElementTwo", &fe.FieldElementTwo, big.NewInt(2)},
	{"FieldElementMinusOne", &fe.FieldElementMinusOne, m.Mod(big.NewInt(-1))},
	{"DyadicRootOfUnity_fe", &fe.DyadicRootOfUnity_fe, dyadicRoot},
	{"CurveParameterA_fe", &curvePoints.CurveParameterA_fe, rc.A},
	{"CurveParameterD_fe", &curvePoints.CurveParameterD_fe, rc.D},
}

func dec(s string) *Int {
	x, ok := new(Int).SetString(s, 0)
	if !ok {
		panic("VERIF-HARNESS bad number " + s)
	}
	return x
}

func pow2(n uint) *Int { return new(Int).Lsh(big1, n) }

var (
	dyadicRoot = dec("25609050042867742175647027564004846496793091465619562978882159513284")
	oddOrder   = new(Int).Rsh(m.P, 32)
	curveOrder = new(Int).Mul(rc.Order, big.NewInt(4))
	curveExp   = new(Int).Mul(rc.Order, big.NewInt(2))
)

type constInt struct {
	name string
	p    *Int
	want *Int
}

// constBig are the published pointers to big integers. Several packages publish the same pointer.
var constBig = []constInt{
	{"common.BaseFieldSize_Int", common.BaseFieldSize_Int, m.P},
	{"common.GroupOrder_Int", common.GroupOrder_Int, rc.Order},
	{"common.Cofactor_Int", common.Cofactor_Int, big.NewInt(4)},
	{"common.CurveOrder_Int", common.CurveOrder_Int, curveOrder},
	{"common.CurveExponent_Int", common.CurveExponent_Int, curveExp},
	{"common.EndomorphismEigenvalue_Int", common.EndomorphismEigenvalue_Int, rc.Lambda},
	{"common.One_Int", common.One_Int, big.NewInt(1)},
	{"common.Two_Int", common.Two_Int, big.NewInt(2)},
	{"common.MinusOne_Int", common.MinusOne_Int, big.NewInt(-1)},
	{"common.TwoTo32_Int", common.TwoTo32_Int, pow2(32)},
	{"common.TwoTo64_Int", common.TwoTo64_Int, pow2(64)},
	{"common.TwoTo128_Int", common.TwoTo128_Int, pow2(128)},
	{"common.TwoTo256_Int", common.TwoTo256_Int, pow2(256)},
	{"common.TwoTo512_Int", common.TwoTo512_Int, pow2(512)},
	{"fieldElements.BaseFieldSize_Int", fe.BaseFieldSize_Int, m.P},
	{"exponents.CurveExponent_Int", exponents.CurveExponent_Int, curveExp},
	{"exponents.CurveOrder_Int", exponents.CurveOrder_Int, curveOrder},
	{"exponents.EndomorphismEigenvalue_Int", exponents.EndomorphismEigenvalue_Int, rc.Lambda},
	{"exponents.GroupOrder_Int", exponents.GroupOrder_Int, rc.Order},
	{"curvePoints.BaseFieldSize_Int", curvePoints.BaseFieldSize_Int, m.P},
	{"curvePoints.EndomorphismEigenvalue_Int", curvePoints.EndomorphismEigenvalue_Int, rc.Lambda},
	{"curvePoints.GroupOrder_Int", curvePoints.GroupOrder_Int, rc.Order},
	{"curvePoints.CurveParameterD_Int", curvePoints.CurveParameterD_Int, rc.D},
	{"curvePoints.CurveParameterA_Int", curvePoints.CurveParameterA_Int, big.NewInt(-5)},
}

// le puts words of the given width together, least significant first.
func le[T uint8 | uint16 | uint32 | uint64](width uint, w ...T) *Int {
	r := new(Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Or(r.Lsh(r, width), new(Int).SetUint64(uint64(w[i])))
	}
	return r
}

const m64 = 1<<64 - 1

// constPlain are the constants that are not pointers, and those that are derived.
func constPlain() []constInt {
	dr := reffe.Of(dyadicRoot, false)
	odd := fe.BaseFieldMultiplicateOddOrder_uint256
	return []constInt{
		{"common.BaseFieldSize", le[uint64](64, common.BaseFieldSize&m64, common.BaseFieldSize>>64&m64, common.BaseFieldSize>>128&m64, common.BaseFieldSize>>192), m.P},
		{"common.BaseFieldSize_untyped", le[uint64](64, common.BaseFieldSize_untyped&m64, common.BaseFieldSize_untyped>>64&m64, common.BaseFieldSize_untyped>>128&m64, common.BaseFieldSize_untyped>>192), m.P},
		{"fieldElements.BaseFieldSize_untyped", le[uint64](64, fe.BaseFieldSize_untyped&m64, fe.BaseFieldSize_untyped>>64&m64, fe.BaseFieldSize_untyped>>128&m64, fe.BaseFieldSize_untyped>>192), m.P},
		{"curvePoints.BaseFieldSize_untyped", le[uint64](64, curvePoints.BaseFieldSize_untyped&m64, curvePoints.BaseFieldSize_untyped>>64&m64, curvePoints.BaseFieldSize_untyped>>128&m64, curvePoints.BaseFieldSize_untyped>>192), m.P},
		{"common.BaseFieldSize_string", dec(common.BaseFieldSize_string), m.P},
		{"fieldElements.BaseFieldSize_string", dec(fe.BaseFieldSize_string), m.P},
		{"curvePoints.BaseFieldSize_string", dec(curvePoints.BaseFieldSize_string), m.P},
		{"common.GroupOrder", le[uint64](64, common.GroupOrder&m64, common.GroupOrder>>64&m64, common.GroupOrder>>128&m64, common.GroupOrder>>192), rc.Order},
		{"exponents.GroupOrder", le[uint64](64, exponents.GroupOrder&m64, exponents.GroupOrder>>64&m64, exponents.GroupOrder>>128&m64, exponents.GroupOrder>>192), rc.Order},
		{"curvePoints.GroupOrder", le[uint64](64, curvePoints.GroupOrder&m64, curvePoints.GroupOrder>>64&m64, curvePoints.GroupOrder>>128&m64, curvePoints.GroupOrder>>192), rc.Order},
		{"common.GroupOrder_string", dec(common.GroupOrder_string), rc.Order},
		{"common.Cofactor", big.NewInt(common.Cofactor), big.NewInt(4)},
		{"curvePoints.Cofactor", big.NewInt(curvePoints.Cofactor), big.NewInt(4)},
		{"common.Cofactor_string", dec(common.Cofactor_string), big.NewInt(4)},
		{"common.CurveOrder", le[uint64](64, common.CurveOrder&m64, common.CurveOrder>>64&m64, common.CurveOrder>>128&m64, common.CurveOrder>>192), curveOrder},
		{"exponents.CurveOrder", le[uint64](64, exponents.CurveOrder&m64, exponents.CurveOrder>>64&m64, exponents.CurveOrder>>128&m64, exponents.CurveOrder>>192), curveOrder},
		{"curvePoints.CurveOrder", le[uint64](64, curvePoints.CurveOrder&m64, curvePoints.CurveOrder>>64&m64, curvePoints.CurveOrder>>128&m64, curvePoints.CurveOrder>>192), curveOrder},
		{"common.CurveOrder_string", dec(common.CurveOrder_string), curveOrder},
		{"common.CurveExponent", le[uint64](64, common.CurveExponent&m64, common.CurveExponent>>64&m64, common.CurveExponent>>128&m64, common.CurveExponent>>192), curveExp},
		{"exponents.CurveExponent", le[uint64](64, exponents.CurveExponent&m64, exponents.CurveExponent>>64&m64, exponents.CurveExponent>>128&m64, exponents.CurveExponent>>192), curveExp},
		{"common.CurveExponent_string", dec(common.CurveExponent_string), curveExp},
		{"common.EndomorphismEigenvalue", le[uint64](64, common.EndomorphismEigenvalue&m64, common.EndomorphismEigenvalue>>64&m64, common.EndomorphismEigenvalue>>128&m64, common.EndomorphismEigenvalue>>192), rc.Lambda},
		{"exponents.EndomorphismEigenvalue", le[uint64](64, exponents.EndomorphismEigenvalue&m64, exponents.EndomorphismEigenvalue>>64&m64, exponents.EndomorphismEigenvalue>>128&m64, exponents.EndomorphismEigenvalue>>192), rc.Lambda},
		{"common.EndomorphismEigenvalue_string", dec(common.EndomorphismEigenvalue_string), rc.Lambda},
		{"common.BaseFieldBitLength", big.NewInt(common.BaseFieldBitLength), big.NewInt(int64(m.P.BitLen()))},
		{"fieldElements.BaseFieldBitLength", big.NewInt(fe.BaseFieldBitLength), big.NewInt(int64(m.P.BitLen()))},
		{"curvePoints.BaseFieldBitLength", big.NewInt(curvePoints.BaseFieldBitLength), big.NewInt(int64(m.P.BitLen()))},
		{"common.BaseFieldByteLength", big.NewInt(common.BaseFieldByteLength), big.NewInt(32)},
		{"fieldElements.BaseFieldByteLength", big.NewInt(fe.BaseFieldByteLength), big.NewInt(32)},
		{"curvePoints.BaseFieldByteLength", big.NewInt(curvePoints.BaseFieldByteLength), big.NewInt(32)},
		{"common.MaxLengthPrefixBits", big.NewInt(common.MaxLengthPrefixBits), big.NewInt(8)},
		{"fieldElements.BaseFieldSize_8", le(8, fe.BaseFieldSize_8[:]...), m.P},
		{"fieldElements.BaseFieldSize_16", le(16, fe.BaseFieldSize_16[:]...), m.P},
		{"fieldElements.BaseFieldSize_32", le(32, fe.BaseFieldSize_32[:]...), m.P},
		{"fieldElements.BaseFieldSize_64", le(64, fe.BaseFieldSize_64[:]...), m.P},
		{"curvePoints.BaseFieldSize_32", le(32, curvePoints.BaseFieldSize_32[:]...), m.P},
		{"curvePoints.BaseFieldSize_64", le(64, curvePoints.BaseFieldSize_64[:]...), m.P},
		{"fieldElements.BaseField2Adicity", big.NewInt(fe.BaseField2Adicity), big.NewInt(int64(new(Int).Sub(m.P, big1).TrailingZeroBits()))},
		{"fieldElements.BaseFieldMultiplicativeOddOrder", le[uint64](64, fe.BaseFieldMultiplicativeOddOrder&m64, fe.BaseFieldMultiplicativeOddOrder>>64&m64, fe.BaseFieldMultiplicativeOddOrder>>128&m64, fe.BaseFieldMultiplicativeOddOrder>>192), oddOrder},
		{"fieldElements.BaseFieldMultiplicateOddOrder_uint256", le(64, odd[:]...), oddOrder},
		{"fieldElements.DyadicRootOfUnity_untyped", le[uint64](64, fe.DyadicRootOfUnity_untyped&m64, fe.DyadicRootOfUnity_untyped>>64&m64, fe.DyadicRootOfUnity_untyped>>128&m64, fe.DyadicRootOfUnity_untyped>>192), dr.ToBigInt()},
		{"fieldElements.DyadicRootOfUnity_string", dec(fe.DyadicRootOfUnity_string), dyadicRoot},
		{"curvePoints.CurveParameterA", big.NewInt(curvePoints.CurveParameterA), big.NewInt(-5)},
		{"curvePoints.CurveParameterA_string", dec(curvePoints.CurveParameterA_string), big.NewInt(-5)},
		{"curvePoints.CurveParameterD", le[uint64](64, curvePoints.CurveParameterD&m64, curvePoints.CurveParameterD>>64&m64, curvePoints.CurveParameterD>>128&m64, curvePoints.CurveParameterD>>192), rc.D},
		{"curvePoints.CurveParameterD_string", dec(curvePoints.CurveParameterD_string), rc.D},
		// relations that define the values used as references
		{"(d+15)^2", m.Mul(m.Add(rc.D, big.NewInt(15)), m.Add(rc.D, big.NewInt(15))), big.NewInt(200)},
		{"eigenvalue^2", new(Int).Exp(rc.Lambda, big.NewInt(2), rc.Order), new(Int).Sub(rc.Order, big.NewInt(2))},
		{"root^(2^31)", new(Int).Exp(dyadicRoot, pow2(31), m.P), m.Mod(big.NewInt(-1))},
	}
}

// kept are the constants as they were when the program started, so that each case starts afresh.
var kept = func() (r struct {
	pts  []CP
	fes  []FE
	bigs []*Int
}) {
	for _, k := range constPts {
		r.pts = append(r.pts, rc.Copy(k.p))
	}
	for _, k := range constFEs {
		r.fes = append(r.fes, *k.p)
	}
	for _, k := range constBig {
		r.bigs = append(r.bigs, new(Int).Set(k.p))
	}
	return
}()

func pristine() {
	for i, k := range constPts {
		rc.Assign(k.p, kept.pts[i])
	}
	for i, k := range constFEs {
		*k.p = kept.fes[i]
	}
	for i, k := range constBig {
		k.p.Set(kept.bigs[i])
	}
}

// unchanged looks at all constants that could be changed, without using operations that could change them.
func unchanged(c *kit.C, format string, args ...any) {
	what := fmt.Sprintf(format, args...)
	for _, k := range constPts {
		rc.Is(c, rc.Copy(k.p), k.want, "%s: %s", what, k.name)
	}
	for _, k := range constFEs {
		v := *k.p
		if got := v.ToBigInt(); got.Cmp(k.want) != 0 {
			c.Fatalf("%s: %s is %v, expected %v", what, k.name, got, k.want)
		}
	}
	for _, k := range constBig {
		if k.p.Cmp(k.want) != 0 {
			c.Fatalf("%s: %s is %v, expected %v", what, k.name, k.p, k.want)
		}
	}
	c.Check(common.TrustedInput.Bool() && !common.UntrustedInput.Bool(), "%s: TrustedInput or UntrustedInput is wrong", what)
	c.Check(!common.LittleEndian.StartsWithMSB() && common.BigEndian.StartsWithMSB() && !common.DefaultEndian.StartsWithMSB() && !fe.LittleEndian.StartsWithMSB() && fe.BigEndian.StartsWithMSB() && !fe.DefaultEndian.StartsWithMSB(), "%s: a byte order is wrong", what)
}

func constValues(c *kit.C) {
	pristine()
	plain := constPlain()
	i := kit.Int(c, "which", 0, len(plain)-1)
	c.Case(true, "%s", plain[i].name)
	for _, k := range plain {
		c.Check(k.p.Cmp(k.want) == 0, "%s is %v, expected %v", k.name, k.p, k.want)
	}
	unchanged(c, "at first")
	for _, k := range constPts {
		p := rc.Copy(k.p)
		c.Check(validate(p), "%s is not valid", k.name)
		c.Check(p.IsNeutralElement() == rc.Eq(k.want, rc.Torsion[0]), "%s: IsNeutralElement is wrong", k.name)
		c.Check(p.IsInSubgroup() == rc.InSubgroup(k.want), "%s: IsInSubgroup is wrong", k.name)
		for _, l := range constPts {
			c.Check(rc.Copy(k.p).IsEqual(rc.Copy(l.p)) == rc.Eq(k.want, l.want), "comparing %s and %s: wrong", k.name, l.name)
		}
	}
	// the generator generates the subgroup: it has its order, which is prime
	c.Check(rc.Eq(rc.Mul(rc.Order, rc.Gen), rc.Torsion[0]) && rc.Order.ProbablyPrime(20) && m.P.ProbablyPrime(20), "the references contradict each other")
	for j, k := range constFEs {
		v := kept.fes[j]
		w := reffe.Of(k.want, kit.Bool(c, "alt"))
		c.Check(v.IsEqual(&w), "%s does not equal %v", k.name, k.want)
		c.Check(v.IsZero() == (k.want.Sign() == 0) && v.IsOne() == (k.want.Cmp(big1) == 0), "%s: IsZero or IsOne is wrong", k.name)
	}
}

// constPoints: histories of operations with constants as operands and sources of copies.
func constPoints(c *kit.C) {
	pristine()
	const R = 4
	var regs [R]CP
	var model [R]Pt
	var trace []string
	for i := range regs {
		k := kind(c, "kind")
		if kit.Bool(c, "fresh") {
			model[i] = rc.DrawFor(c, k).Pt
			regs[i] = rc.Make(c, k, model[i])
			trace = append(trace, fmt.Sprintf("r%d: %v %v", i, k, model[i]))
			continue
		}
		j := kit.Int(c, "const", 0, len(constPts)-1)
		model[i] = constPts[j].want
		how := "a copy"
		if kit.Bool(c, "clone") {
			regs[i] = constPts[j].p.Clone()
			how = "a clone"
		} else {
			regs[i] = rc.Copy(constPts[j].p)
		}
		trace = append(trace, fmt.Sprintf("r%d: %s of %s", i, how, constPts[j].name))
	}
	n, restore := rc.Watch()
	defer restore()
	operand := func(label string, sub bool) (CP, Pt, string) {
		for try := 0; ; try++ {
			i := kit.Int(c, label, 0, 2*len(constPts)-1)
			if try == 20 {
				i = 1
			}
			if i >= len(constPts) {
				i %= R
				if !sub || rc.KindOf(regs[i]).Sub() {
					return regs[i], model[i], fmt.Sprintf("r%d", i)
				}
				continue
			}
			if k := constPts[i]; !sub || rc.KindOf(k.p).Sub() {
				return k.p, k.want, k.name
			}
		}
	}
	steps := kit.Int(c, "steps", 1, 12)
	used := 0
	for s := 0; s < steps; s++ {
		zi := kit.Int(c, "z", 0, R-1)
		z := regs[zi]
		zk := rc.KindOf(z)
		what := kit.Int(c, "op", 0, 15)
		sub := zk.Sub() && what != 3 && what < 11
		x, xp, xn := operand("x", sub)
		y, yp, yn := operand("y", sub)
		if len(xn) > 2 || len(yn) > 2 {
			used++
		}
		put := func(name string, want Pt, f func()) {
			if want.Inf() && !zk.Inf() {
				return
			}
			trace = append(trace, fmt.Sprintf("r%d.%s", zi, name))
			f()
			model[zi] = want
		}
		switch {
		case what < 8:
			o := ops[what]
			if o.eq {
				put(fmt.Sprintf("%s(%s)", o.name, yn), o.ref(model[zi], yp), func() { o.do(z, z, y) })
			} else {
				put(fmt.Sprintf("%s(%s,%s)", o.name, xn, yn), o.ref(xp, yp), func() { o.do(z, x, y) })
			}
		case what == 8 || what == 9:
			put("SetFrom("+xn+")", xp, func() { z.SetFrom(x) })
		case what == 10:
			i := kit.Int(c, "const", 0, len(constPts)-1)
			k := constPts[i]
			if zk.Sub() && !rc.KindOf(k.p).Sub() {
				continue
			}
			put("Endo("+k.name+")", k.endo, func() { z.Endo(k.p) })
		case what == 11:
			in := rc.InSubgroup(xp) && !(xp.Inf() && !zk.Inf())
			trace = append(trace, fmt.Sprintf("r%d.SetFromSubgroupPoint(%s)", zi, xn))
			trust := untrusted
			if in && kit.Bool(c, "trust") {
				trust = trusted
			}
			c.Check(z.SetFromSubgroupPoint(x, trust) == in, "%v: wrong answer, expected %v", trace, in)
			if in {
				model[zi] = xp
			}
		case what == 12:
			trace = append(trace, fmt.Sprintf("%s = %s?", xn, yn))
			c.Check(x.IsEqual(y) == rc.Eq(xp, yp), "%v: wrong", trace)
		case what == 13:
			trace = append(trace, "read "+xn)
			var fs []FE
			switch kit.Int(c, "how", 0, 5) {
			case 0:
				X, Y, Z := x.XYZ_projective()
				fs = []FE{X, Y, Z, x.X_projective(), x.Y_projective(), x.Z_projective()}
			case 1:
				fs = []FE{x.X_decaf_projective(), x.Y_decaf_projective(), x.T_decaf_projective(), x.Z_decaf_projective()}
			case 2:
				if !xp.Inf() {
					X, Y := x.XY_affine()
					fs = []FE{X, Y, x.X_affine(), x.Y_affine()}
				}
			case 3:
				if !xp.Inf() {
					fs = []FE{x.X_decaf_affine(), x.Y_decaf_affine(), x.T_decaf_affine()}
				}
			case 4:
				c.Check(x.IsNeutralElement() == rc.Eq(xp, rc.Torsion[0]) && x.IsInSubgroup() == rc.InSubgroup(xp) && x.IsAtInfinity() == xp.Inf() && !x.IsNaP(), "%v: wrong", trace)
				if !xp.Inf() {
					f := curvePoints.MapToFieldElement(x)
					X, Y := xp.Affine()
					c.Check(f.ToBigInt().Cmp(m.Mul(X, m.Inv(Y))) == 0, "%v: maps to %v", trace, f)
				}
			case 5:
				_ = x.String()
				_ = fmt.Sprintf("%v %s", x, y)
			}
			for i := range fs {
				fs[i].SetUint64(7)
			}
		case what == 14:
			trace = append(trace, "normalise "+xn)
			if w, ok := x.(curvePoints.NormalizerForZ); ok && kit.Bool(c, "forZ") {
				c.Check(w.NormalizeForZ() == !xp.Inf(), "%v: wrong answer", trace)
			} else if w, ok := x.(curvePoints.NormalizerForY); ok {
				c.Check(w.NormalizeForY() == !xp.Inf(), "%v: wrong answer", trace)
			}
		case what == 15:
			trace = append(trace, fmt.Sprintf("r%d = %s.Clone(), changed", zi, xn))
			regs[zi] = x.Clone()
			model[zi] = xp
			switch kit.Int(c, "how", 0, 3) {
			case 0:
				regs[zi].SetNeutral()
				model[zi] = rc.Torsion[0]
			case 1:
				regs[zi].DoubleEq()
				model[zi] = rc.Dbl(xp)
			case 2:
				regs[zi].NegEq()
				model[zi] = rc.Neg(xp)
			}
		}
		c.Check(*n == 0, "%v: reports an invalid point", trace)
		rc.Is(c, rc.Copy(regs[zi]), model[zi], "%v: r%d", trace, zi)
		unchanged(c, "after %v", trace)
	}
	c.Case(used >= 2, "%v", trace)
	for i := range regs {
		rc.Is(c, regs[i], model[i], "after %v: r%d", trace, i)
	}
}

// constFields: the same for field elements.
func constFields(c *kit.C) {
	pristine()
	const R = 3
	var regs [R]FE
	var model [R]*Int
	var trace []string
	for i := range regs {
		if kit.Bool(c, "fresh") {
			regs[i], model[i] = reffe.Draw(c)
		} else {
			j := kit.Int(c, "const", 0, len(constFEs)-1)
			regs[i], model[i] = *constFEs[j].p, constFEs[j].want
		}
		trace = append(trace, fmt.Sprintf("r%d: %v", i, model[i]))
	}
	operand := func(label string) (*FE, *Int, string) {
		i := kit.Int(c, label, 0, 2*len(constFEs)-1)
		if i >= len(constFEs) {
			i %= R
			return &regs[i], model[i], fmt.Sprintf("r%d", i)
		}
		return constFEs[i].p, constFEs[i].want, constFEs[i].name
	}
	steps := kit.Size(c, "steps", 1, 16, 80)
	used := 0
	for s := 0; s < steps; s++ {
		zi := kit.Int(c, "z", 0, R-1)
		z := &regs[zi]
		x, xv, xn := operand("x")
		y, yv, yn := operand("y")
		if len(xn) > 2 || len(yn) > 2 {
			used++
		}
		name, zv := "", model[zi]
		do := func(n string, want *Int, f func()) {
			name = fmt.Sprintf("r%d.%s with %s, %s", zi, n, xn, yn)
			f()
			model[zi] = want
		}
		switch what := kit.Int(c, "op", 0, 24); what {
		case 0:
			do("Add", m.Add(xv, yv), func() { z.Add(x, y) })
		case 1:
			do("Sub", m.Sub(xv, yv), func() { z.Sub(x, y) })
		case 2:
			do("Mul", m.Mul(xv, yv), func() { z.Mul(x, y) })
		case 3:
			do("Neg", m.Neg(xv), func() { z.Neg(x) })
		case 4:
			do("Double", m.Add(xv, xv), func() { z.Double(x) })
		case 5:
			do("Square", m.Mul(xv, xv), func() { z.Square(x) })
		case 6:
			do("MulFive", m.Mul(xv, big.NewInt(5)), func() { z.MulFive(x) })
		case 7:
			do("AddEq", m.Add(zv, xv), func() { z.AddEq(x) })
		case 8:
			do("SubEq", m.Sub(zv, xv), func() { z.SubEq(x) })
		case 9:
			do("MulEq", m.Mul(zv, xv), func() { z.MulEq(x) })
		case 10:
			if xv.Sign() == 0 {
				continue
			}
			do("Inv", m.Inv(xv), func() { z.Inv(x) })
		case 11:
			if yv.Sign() == 0 {
				continue
			}
			do("Divide", m.Mul(xv, m.Inv(yv)), func() { z.Divide(x, y) })
		case 12:
			if xv.Sign() == 0 {
				continue
			}
			do("DivideEq", m.Mul(zv, m.Inv(xv)), func() { z.DivideEq(x) })
		case 13:
			name = "compare " + xn + " and " + yn
			c.Check(x.IsEqual(y) == (xv.Cmp(yv) == 0), "%v: %s: IsEqual is wrong", trace, name)
			a, e := x.CmpAbs(y)
			c.Check(e == (xv.Cmp(yv) == 0) && a == (e || xv.Cmp(m.Neg(yv)) == 0), "%v: %s: CmpAbs is wrong", trace, name)
		case 14:
			name = "read " + xn
			c.Check(x.Sign() == m.Sign(xv) && x.Jacobi() == m.Legendre(xv) && x.IsZero() == (xv.Sign() == 0) && x.IsOne() == (xv.Cmp(big1) == 0), "%v: %s: wrong", trace, name)
			_ = fmt.Sprintf("%v %s %x %d", *x, x, x, *x)
		case 15:
			name = "scribble over what " + xn + " is converted to"
			b := x.ToBigInt()
			c.Check(b.Cmp(xv) == 0, "%v: %s: %v", trace, name, b)
			b.Sub(b, big1)
			b.Neg(b.SetUint64(0x5555))
			var u fe.Uint256
			x.ToUint256(&u)
			u = fe.Uint256{1, 2, 3, 4}
		case 16:
			name = "serialise " + xn
			var buf bytes.Buffer
			_, err := x.Serialize(&buf, common.BigEndian)
			got := new(Int).SetBytes(buf.Bytes())
			c.Check(err == nil && got.Cmp(xv) == 0, "%v: %s: %v %v", trace, name, err, got)
			do("Deserialize", xv, func() { z.Deserialize(&buf, common.BigEndian) })
		case 17:
			name = fmt.Sprintf("r%d = %s, changed", zi, xn)
			*z = *x
			z.NegEq()
			z.DoubleEq()
			z.RerandomizeRepresentation(uint64(kit.Int(c, "seed", 0, 9)))
			model[zi] = m.Neg(m.Add(xv, xv))
		case 18:
			name = "normalise " + xn
			x.Normalize()
		case 19:
			do("SummationMany", m.Add(m.Add(xv, yv), xv), func() { z.SummationMany(x, y, x) })
		case 20:
			do("MultiplyMany", m.Mul(m.Mul(xv, yv), xv), func() { z.MultiplyMany(x, y, x) })
		case 21:
			l := []FE{*x, *y, *x}
			do("slices", m.Add(m.Add(xv, yv), xv), func() {
				z.MultiplySlice(l)
				z.SummationSlice(l)
				fe.MultiInvertEqSliceSkipZeros(l)
			})
		case 22:
			var e fe.Uint256
			k := kit.Int(c, "exponent", 0, 40)
			e.SetUint64(uint64(k))
			do("Exp", new(Int).Exp(xv, big.NewInt(int64(k)), m.P), func() { z.Exp(x, &e) })
		case 23:
			root := m.Legendre(xv) >= 0
			var r FE
			ok := r.SquareRoot(x)
			name = "root of " + xn
			c.Check(ok == root, "%v: %s: answer is wrong", trace, name)
			if ok {
				r.Square(&r)
				c.Check(r.ToBigInt().Cmp(xv) == 0, "%v: %s: squared is %v", trace, name, r)
			}
		case 24:
			v := int64(kit.Int(c, "v", -3, 3))
			do("AddInt64", m.Add(xv, big.NewInt(v)), func() { z.AddInt64(x, v) })
		}
		trace = append(trace, name)
		got := *z
		c.Check(got.ToBigInt().Cmp(model[zi]) == 0, "%v: the result is %v, expected %v", trace, got, model[zi])
		unchanged(c, "after %v", trace)
	}
	c.Case(used >= 2, "%v", trace)
}

// constInts: big integers as arguments, and results of conversions that are then overwritten.
func constInts(c *kit.C) {
	pristine()
	var trace []string
	steps := kit.Int(c, "steps", 1, 12)
	scribble := func(b *Int) {
		b.Sub(b, big1)
		b.SetUint64(0x1234567)
		b.Neg(b)
	}
	mod := func(v, by *Int) *Int { return new(Int).Mod(v, by) }
	var prev exponents.Exponent
	prevV := new(Int)
	for s := 0; s < steps; s++ {
		k := constBig[kit.Int(c, "x", 0, len(constBig)-1)]
		what := kit.Int(c, "op", 0, 6)
		if what == 6 && k.want.BitLen() > 400 {
			what = 0
		}
		var got, want *Int
		switch what {
		case 0:
			trace = append(trace, "field element from "+k.name)
			var z FE
			z.SetBigInt(k.p)
			got, want = z.ToBigInt(), m.Mod(k.want)
		case 1:
			trace = append(trace, "exponent from "+k.name)
			var z exponents.Exponent
			z.SetBigInt(k.p)
			got, want = z.ToBigInt_Full(), mod(k.want, curveExp)
			scribble(z.ToBigInt_Subgroup())
			prev, prevV = z, want
		case 2:
			if k.want.Sign() < 0 || k.want.BitLen() > 256 {
				continue
			}
			trace = append(trace, "256 bits from "+k.name)
			var z fe.Uint256
			z.SetBigInt(k.p)
			w := fe.BigIntToUInt256(k.p)
			c.Check(z == w, "%v: two conversions differ", trace)
			got, want = z.ToBigInt(), k.want
		case 3:
			if k.want.Sign() < 0 || k.want.BitLen() > 512 {
				continue
			}
			trace = append(trace, "512 bits from "+k.name)
			var z fe.Uint512
			z.SetBigInt(k.p)
			w := fe.BigIntToUint512(k.p)
			c.Check(z == w, "%v: two conversions differ", trace)
			got, want = z.ToBigInt(), k.want
		case 4:
			trace = append(trace, "exponents calculated from "+k.name)
			var z, w exponents.Exponent
			w.SetBigInt(k.p)
			switch kit.Int(c, "how", 0, 3) {
			case 0:
				z.Add(&w, &prev)
				want = new(Int).Add(k.want, prevV)
			case 1:
				z.Mul(&prev, &w)
				want = new(Int).Mul(k.want, prevV)
			case 2:
				z.Sub(&prev, &w)
				want = new(Int).Sub(prevV, k.want)
			case 3:
				z.Neg(&w)
				want = new(Int).Neg(k.want)
			}
			want.Mod(want, curveExp)
			got = z.ToBigInt_Full()
			prev, prevV = z, want
		case 5:
			trace = append(trace, fmt.Sprintf("decomposition of %v", prevV))
			r := exponents.GLV_representation(&prev)
			u, v := r.U.ToBigInt(), r.V.ToBigInt()
			got = new(Int).Mul(v, rc.Lambda)
			got.Add(got, u).Mod(got, rc.Order)
			want = mod(prevV, rc.Order)
			scribble(u)
			scribble(v)
		case 6:
			trace = append(trace, "random elements below "+k.name)
			rnd := rand.New(rand.NewSource(int64(kit.Int(c, "seed", 0, 99))))
			var z FE
			z.SetRandomUnsafe(rnd)
			z.SetRandomUnsafeNonZero(rnd)
			p := curvePoints.MakeRandomPointUnsafe_xtw_subgroup(rnd)
			c.Check(validate(&p), "%v: not valid", trace)
			continue
		}
		c.Check(got.Cmp(want) == 0, "%v: is %v, expected %v", trace, got, want)
		scribble(got)
		unchanged(c, "after %v", trace)
	}
	c.Case(len(trace) >= 2, "%v", trace)
	unchanged(c, "after %v", trace)
	// the arithmetic still uses the right moduli
	a, av := reffe.Draw(c)
	b, bv := reffe.Draw(c)
	var z FE
	z.Mul(&a, &b)
	c.Check(z.ToBigInt().Cmp(m.Mul(av, bv)) == 0, "after %v: %v times %v is %v", trace, av, bv, z)
	var e exponents.Exponent
	e.SetBigInt(new(Int).Neg(av))
	c.Check(e.ToBigInt_Full().Cmp(mod(new(Int).Neg(av), curveExp)) == 0, "after %v: the exponent %v is wrong", trace, av)
}
