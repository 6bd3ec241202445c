//go:build go1.23

package curve

import (
	"errors"
	"fmt"
	"testing"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

func TestP17(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "xy", Quick: 4000, Fn: fromXY},
		kit.Sub{Name: "sign", Quick: 6000, Fn: fromSign},
		kit.Sub{Name: "adjusted", Quick: 6000, Fn: fromAdjusted},
		kit.Sub{Name: "map", Quick: 3000, Fn: mapToField},
	)
}

// kinds of errors the constructors distinguish
var errKinds = []error{be.ErrNotOnCurve, be.ErrXNotOnCurve, be.ErrXNotInSubgroup, be.ErrNotInSubgroup, be.ErrWrongSignY, be.ErrInvalidSign, be.ErrInvalidZeroSignX, be.ErrYNotOnCurve, be.ErrCannotDeserializeXYAllZero}

// result checks what a constructor returns: a point equal to want, or an error that is exactly of the given kind.
func result(c *kit.C, desc string, p CP, err error, want *Pt, kindOfErr error) {
	if kindOfErr == nil {
		c.Check(err == nil, "%s: fails: %v", desc, err)
		rc.Is(c, p, *want, "%s", desc)
		c.Check(validate(p), "%s: not valid", desc)
		return
	}
	c.Check(err != nil, "%s: succeeds with %v", desc, p)
	if !errors.Is(err, kindOfErr) {
		c.Fatalf("%s: the error is not of the kind %q but %q", desc, kindOfErr, err)
	}
	for _, k := range errKinds {
		c.Check(k == kindOfErr || !errors.Is(err, k) || errors.Is(kindOfErr, k), "%s: the error is also of the kind %q: %q", desc, k, err)
	}
	c.GoodMessage(err, "%s", desc)
}

// xs draws an affine point that may be on the curve, and says where it is: 0 in the subgroup, 1 its coset by A, 2 elsewhere on the curve, 3 not on it.
func xy(c *kit.C) (x, y *Int, where int, desc string) {
	p := rc.DrawFinite(c)
	where = 2
	switch {
	case p.InSub():
		where = 0
	case p.Tor == 1 || p.Tor < 0 && rc.InSubgroup(rc.Add(p.Pt, rc.Torsion[1])):
		where = 1
	}
	x, y = p.Affine()
	swap := [4]int{1, 0, 2, 3}
	switch kit.Int(c, "xy", 0, 15) {
	case 0: // a value off
		if kit.Bool(c, "x") {
			x = m.Add(x, m.Residue(c))
		} else {
			y = m.Add(y, m.Residue(c))
		}
		where = -1
	case 1:
		x, y = y, x
		where = -1
	case 2:
		x, y = m.Residue(c), m.Residue(c)
		where = -1
	case 7:
		x, y = m.Residue(c), rc.Exceptional(c)
		if kit.Bool(c, "both") {
			x = rc.Exceptional(c)
		}
		where = -1
	case 3:
		x, y = new(Int), new(Int)
		where = -1
	case 4: // only one of them zero
		if kit.Bool(c, "x") {
			x = new(Int)
		} else {
			y = new(Int)
		}
		where = -1
	case 5:
		y = m.Neg(y)
		where = swap[where]
	case 6:
		x, y = m.Neg(x), m.Neg(y)
		where = swap[where]
	}
	if where < 0 {
		where = 3
		if q := rc.FromAffine(x, y); q.OnCurve() {
			switch {
			case rc.InSubgroup(q):
				where = 0
			case rc.InSubgroup(rc.Add(q, rc.Torsion[1])):
				where = 1
			default:
				where = 2
			}
		}
	}
	return x, y, where, fmt.Sprintf("x=%x y=%x (%s)", x, y, [4]string{"in the subgroup", "in the coset of A", "on the curve", "not on the curve"}[where])
}

func same(a *FE, v *Int) bool { return a.ToBigInt().Cmp(v) == 0 }

func fromXY(c *kit.C) {
	x, y, where, desc := xy(c)
	xf, yf := reffe.Of(x, kit.Bool(c, "altx")), reffe.Of(y, kit.Bool(c, "alty"))
	sub := kit.Bool(c, "sub")
	var want error
	switch {
	case x.Sign() == 0 && y.Sign() == 0:
		want = be.ErrCannotDeserializeXYAllZero
	case where == 3:
		want = be.ErrNotOnCurve
	case sub && where != 0:
		want = be.ErrNotInSubgroup
	}
	trust := untrusted
	if want == nil && kit.Bool(c, "trusted") {
		trust = trusted
	}
	desc = fmt.Sprintf("from XYAffine, subgroup=%v, %v, %s", sub, trust, desc)
	c.Case(x.Sign() != 0 && y.Sign() != 0, "%s", desc)
	c.LabelIf(want != nil, "refused")
	pt := rc.FromAffine(x, y)
	n, restore := rc.Watch()
	defer restore()
	if sub {
		p, err := curvePoints.CurvePointFromXYAffine_subgroup(&xf, &yf, trust)
		result(c, desc, &p, asError(err), &pt, want)
		if err != nil {
			d := err.GetData_struct()
			c.Check(same(&d.X, x) && same(&d.Y, y), "%s: the error names %v, %v", desc, &d.X, &d.Y)
		}
	} else {
		p, err := curvePoints.CurvePointFromXYAffine_full(&xf, &yf, trust)
		result(c, desc, &p, asError(err), &pt, want)
		if err != nil {
			d := err.GetData_struct()
			c.Check(same(&d.X, x) && same(&d.Y, y), "%s: the error names %v, %v", desc, &d.X, &d.Y)
			c.Check(!errors.Is(want, be.ErrCannotDeserializeXYAllZero) || errors.Is(err, be.ErrCannotDeserializeNaP), "%s: not of the kind ErrCannotDeserializeNaP", desc)
		}
	}
	if want == nil {
		c.Check(*n == 0, "%s: reports invalid points", desc)
	}
	c.Check(same(&xf, x) && same(&yf, y), "%s: changes its arguments", desc)
}

// asError avoids an error interface that holds a nil interface of another type.
func asError[E error](e E) error {
	if any(e) == nil {
		return nil
	}
	return e
}

func fromSign(c *kit.C) {
	x, y, _, _ := xy(c)
	sub := kit.Bool(c, "sub")
	sign := kit.Oneof(c, "sign", -1, 1, -1, 1, -1, 1, 0, 2, -2, 1<<31, -(1 << 32))
	fromX := kit.Bool(c, "from X")
	var want error
	var pt Pt
	var f FE
	var desc string
	if fromX {
		f = reffe.Of(x, kit.Bool(c, "alt"))
		desc = fmt.Sprintf("from x=%x and the sign %d of Y, subgroup=%v", x, sign, sub)
		yy, ok := rc.FromX(x)
		switch {
		case sign != 1 && sign != -1:
			want = be.ErrInvalidSign
		case !ok:
			want = be.ErrXNotOnCurve
		default:
			if m.Sign(yy) != sign {
				yy = m.Neg(yy)
			}
			pt = rc.FromAffine(x, yy)
		}
	} else {
		f = reffe.Of(y, kit.Bool(c, "alt"))
		desc = fmt.Sprintf("from y=%x and the sign %d of X, subgroup=%v", y, sign, sub)
		xx, ok := rc.FromY(y)
		switch {
		case sign == 0 && (!ok || xx.Sign() != 0):
			want = be.ErrInvalidZeroSignX
		case sign < -1 || sign > 1:
			want = be.ErrInvalidSign
		case !ok:
			want = be.ErrYNotOnCurve
		default:
			if m.Sign(xx) != sign {
				xx = m.Neg(xx)
			}
			pt = rc.FromAffine(xx, y)
		}
	}
	if want == nil && sub && !rc.InSubgroup(pt) {
		want = be.ErrNotInSubgroup
	}
	trust := untrusted
	if want == nil && kit.Bool(c, "trusted") {
		trust = trusted
	}
	c.Case(sign == 1 || sign == -1, "%s", desc)
	c.LabelIf(want != nil, "refused")
	v := f.ToBigInt()
	n, restore := rc.Watch()
	defer restore()
	switch {
	case fromX && sub:
		p, err := curvePoints.CurvePointFromXAndSignY_subgroup(&f, sign, trust)
		result(c, desc, &p, asError(err), &pt, want)
		if err != nil {
			d := err.GetData_struct()
			c.Check(same(&d.X, v) && d.SignY == sign, "%s: the error names %v, %v", desc, &d.X, d.SignY)
		}
	case fromX:
		p, err := curvePoints.CurvePointFromXAndSignY_full(&f, sign, trust)
		result(c, desc, &p, asError(err), &pt, want)
		if err != nil {
			d := err.GetData_struct()
			c.Check(same(&d.X, v) && d.SignY == sign, "%s: the error names %v, %v", desc, &d.X, d.SignY)
		}
	case sub:
		p, err := curvePoints.CurvePointFromYAndSignX_subgroup(&f, sign, trust)
		result(c, desc, &p, asError(err), &pt, want)
		if err != nil {
			d := err.GetData_struct()
			c.Check(same(&d.Y, v) && d.SignX == sign, "%s: the error names %v, %v", desc, &d.Y, d.SignX)
		}
	default:
		p, err := curvePoints.CurvePointFromYAndSignX_full(&f, sign, trust)
		result(c, desc, &p, asError(err), &pt, want)
		if err != nil {
			d := err.GetData_struct()
			c.Check(same(&d.Y, v) && d.SignX == sign, "%s: the error names %v, %v", desc, &d.Y, d.SignX)
		}
	}
	if want == nil {
		c.Check(*n == 0, "%s: reports invalid points", desc)
	}
	c.Check(same(&f, v), "%s: changes its argument", desc)
}

// fromAdjusted: coordinates multiplied by the sign of Y determine a point of the subgroup.
func fromAdjusted(c *kit.C) {
	x, y, where, desc := xy(c)
	n, restore := rc.Watch()
	defer restore()
	if kit.Bool(c, "x only") {
		f := reffe.Of(x, kit.Bool(c, "alt"))
		var want error
		var pt Pt
		yy, ok := rc.FromX(x)
		if !ok {
			want = be.ErrXNotOnCurve
		} else {
			if m.Sign(yy) < 0 {
				yy = m.Neg(yy)
			}
			pt = rc.FromAffine(x, yy)
			if !rc.InSubgroup(pt) {
				pt = rc.Add(pt, rc.Torsion[1])
				if !rc.InSubgroup(pt) {
					want = be.ErrXNotInSubgroup
				}
			}
		}
		trust := untrusted
		if want == nil && kit.Bool(c, "trusted") {
			trust = trusted
		}
		desc = fmt.Sprintf("from X*SignY=%x, %v", x, trust)
		c.Case(x.BitLen() > 64, "%s", desc)
		c.LabelIf(want != nil, "refused")
		p, err := curvePoints.CurvePointFromXTimesSignY_subgroup(&f, trust)
		result(c, desc, &p, asError(err), &pt, want)
		if err != nil {
			d := err.GetData_struct()
			c.Check(same(&d.X, x) || same(&d.X, m.Neg(x)), "%s: the error names %v", desc, &d.X)
		}
		c.Check(same(&f, x) && (want != nil || *n == 0), "%s: changes its argument or reports invalid points", desc)
		return
	}
	if m.Sign(y) < 0 && kit.Int(c, "keep", 0, 3) != 0 {
		x, y = m.Neg(x), m.Neg(y)
		where = [4]int{1, 0, 2, 3}[where]
	}
	var want error
	pt := rc.FromAffine(x, y)
	switch {
	case m.Sign(y) <= 0:
		want = be.ErrWrongSignY
	case where == 3:
		want = be.ErrNotOnCurve
	case where == 2:
		want = be.ErrNotInSubgroup
	case where == 1:
		pt = rc.Add(pt, rc.Torsion[1])
	}
	trust := untrusted
	if want == nil && kit.Bool(c, "trusted") {
		trust = trusted
	}
	xf, yf := reffe.Of(x, kit.Bool(c, "altx")), reffe.Of(y, kit.Bool(c, "alty"))
	yx := kit.Bool(c, "yx")
	desc = fmt.Sprintf("from X*SignY and Y*SignY, yx=%v, %v: x=%x, y=%x", yx, trust, x, y)
	c.Case(x.Sign() != 0 && y.Sign() != 0, "%s", desc)
	c.LabelIf(want != nil, "refused")
	build := func(a, b *FE, t common.IsInputTrusted) (curvePoints.Point_axtw_subgroup, error, *FE, *FE) {
		if yx {
			p, err := curvePoints.CurvePointFromYXTimesSignY_subgroup(b, a, t)
			if err != nil {
				d := err.GetData_struct()
				return p, err, &d.XSignY, &d.YSignY
			}
			return p, nil, nil, nil
		}
		p, err := curvePoints.CurvePointFromXYTimesSignY_subgroup(a, b, t)
		if err != nil {
			d := err.GetData_struct()
			return p, err, &d.XSignY, &d.YSignY
		}
		return p, nil, nil, nil
	}
	p, err, ex, ey := build(&xf, &yf, trust)
	result(c, desc, &p, err, &pt, want)
	if err != nil {
		c.Check(same(ex, x) && same(ey, y), "%s: the error names %v, %v", desc, ex, ey)
	}
	c.Check(same(&xf, x) && same(&yf, y) && (want != nil || *n == 0), "%s: changes its arguments or reports invalid points", desc)
}

// mapToField: X/Y, which tells apart all points but P and P+A.
func mapToField(c *kit.C) {
	xk, yk := kind(c, "xkind"), kind(c, "ykind")
	p := rc.DrawFor(c, xk)
	q := relatedFor(c)(yk, p)
	x, y := rc.Make(c, xk, p.Pt), rc.Make(c, yk, q.Pt)
	desc := fmt.Sprintf("%v %v and %v %v", xk, p, yk, q)
	c.Case(generic(p.Pt) || generic(q.Pt), "%s", desc)
	n, restore := rc.Watch()
	defer restore()
	get := func(x CP, p Pt) *Int {
		var f FE
		_, did := kit.Panics(func() { f = curvePoints.MapToFieldElement(x) })
		c.Check(did == p.Inf(), "%s: mapping %v to a field element: refused=%v", desc, p, did)
		if did {
			return nil
		}
		rc.Is(c, x, p, "%s: afterwards", desc)
		ax, ay := p.Affine()
		v := f.ToBigInt()
		c.Check(v.Cmp(m.Mul(ax, m.Inv(ay))) == 0, "%s: %v becomes %x", desc, p, v)
		return v
	}
	v, w := get(x, p.Pt), get(y, q.Pt)
	if v != nil && w != nil {
		want := rc.Eq(p.Pt, q.Pt) || rc.Eq(p.Pt, rc.Add(q.Pt, rc.Torsion[1]))
		c.Check((v.Cmp(w) == 0) == want, "%s: the field elements are %x and %x", desc, v, w)
	}
	c.Check(*n == 0, "%s: reports invalid points", desc)
	if kit.Int(c, "nap", 0, 15) == 0 {
		_, did := kit.Panics(func() { curvePoints.MapToFieldElement(rc.New(xk)) })
		c.Check(did, "an invalid %v maps to a field element", xk)
	}
}
