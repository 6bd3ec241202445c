//go:build go1.23

package curve

import (
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/rapid"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type distinguish interface {
	IsE1() bool
	IsE2() bool
}

func TestP12(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "equality", Quick: 6000, Fn: equality},
		kit.Sub{Name: "predicates", Quick: 6000, Fn: predicates},
		kit.Sub{Name: "invalid", Quick: 4000, Fn: invalid},
	)
}

func equality(c *kit.C) {
	xk, yk := kind(c, "xkind"), kind(c, "ykind")
	p := rc.DrawFor(c, xk)
	q := relatedFor(c)(yk, p)
	x, y := rc.Make(c, xk, p.Pt), rc.Make(c, yk, q.Pt)
	if xk == yk && kit.Int(c, "same", 0, 9) == 0 {
		y, q = x, p
	}
	want := rc.Eq(p.Pt, q.Pt)
	desc := fmt.Sprintf("%v %v vs. %v %v", xk, p, yk, q)
	c.Case(generic(p.Pt) || generic(q.Pt), "%s", desc)
	c.LabelIf(want, "equal")
	c.LabelIf(p.Inf() && q.Inf(), "both at infinity")
	n, restore := rc.Watch()
	defer restore()
	for i := 0; i < 2; i++ { // comparing may change the representation
		c.Check(x.IsEqual(y) == want, "%s: x.IsEqual(y) is not %v", desc, want)
		c.Check(y.IsEqual(x) == want, "%s: y.IsEqual(x) is not %v", desc, want)
	}
	c.Check(x.IsEqual(x) && y.IsEqual(y), "%s: not equal to itself", desc)
	rc.Is(c, x, p.Pt, "%s: x afterwards", desc)
	rc.Is(c, y, q.Pt, "%s: y afterwards", desc)
	c.Check(*n == 0, "%s: reports invalid points", desc)
	// another representative of the same point
	x2 := rc.Make(c, xk, p.Pt)
	c.Check(x2.IsEqual(x) && x.IsEqual(x2), "%s: representatives of one point differ: %v and %v", desc, x, x2)
	c.Check(x2.IsEqual(y) == want, "%s: depends on the representative", desc)
}

func predicates(c *kit.C) {
	k := kind(c, "kind")
	p := rc.DrawFor(c, k)
	if kit.Int(c, "torsion", 0, 2) == 0 {
		q := rc.Known{Pt: rc.Torsion[0], Tor: 0, K: new(Int)}
		i := kit.Int(c, "tor", 0, 3)
		q.Pt, q.Tor = rc.Torsion[i], i
		if rc.Fits(k, q) {
			p = q
		}
	}
	x := rc.Make(c, k, p.Pt)
	desc := fmt.Sprintf("%v %v", k, p)
	c.Case(true, "%s", desc)
	c.LabelIf(p.Inf(), "at infinity")
	n, restore := rc.Watch()
	defer restore()
	is := func(i int) bool { return rc.Eq(p.Pt, rc.Torsion[i]) }
	for i := 0; i < 2; i++ {
		c.Check(x.IsNeutralElement() == is(0), "%s: IsNeutralElement is wrong", desc)
		c.Check(!x.IsNaP(), "%s: IsNaP", desc)
		c.Check(x.IsAtInfinity() == p.Inf(), "%s: IsAtInfinity is wrong", desc)
		c.Check(validate(x), "%s: not valid", desc)
		if d, ok := x.(distinguish); ok && !k.Sub() {
			c.Check(d.IsE1() == is(2), "%s: IsE1 is wrong", desc)
			c.Check(d.IsE2() == is(3), "%s: IsE2 is wrong", desc)
		}
		rc.Is(c, x, p.Pt, "%s: afterwards", desc)
	}
	c.Check(*n == 0, "%s: reports invalid points", desc)
	c.Check(x.CanOnlyRepresentSubgroup() == k.Sub(), "%v: CanOnlyRepresentSubgroup is wrong", k)
	c.Check(x.CanRepresentInfinity() == k.Inf(), "%v: CanRepresentInfinity is wrong", k)
	if d, has := x.(interface{ HasDecaf() bool }); has {
		c.Check(d.HasDecaf() == k.Sub(), "%v: HasDecaf is wrong", k)
	}
}

// invalid: coordinates that are not those of a point, or not of a point in the subgroup, are not valid.
func invalid(c *kit.C) {
	if !rc.RawAvailable {
		c.Case(false, "no access to coordinates")
		return
	}
	k := kind(c, "kind")
	p := rc.DrawFor(c, k)
	if !generic(p.Pt) {
		return
	}
	ax, ay := p.Affine()
	s := m.Residue(c)
	if s.Sign() == 0 {
		return
	}
	s2 := m.Residue(c)
	if s2.Sign() == 0 {
		return
	}
	q := rc.New(k)
	co := [4]*Int{}
	switch k {
	case rc.AF, rc.AS:
		co = [4]*Int{ax, ay, m.Mul(ax, ay), new(Int)}
	case rc.TF, rc.TS:
		co = [4]*Int{m.Mul(s, ax), m.Mul(s, ay), m.Mul(s, m.Mul(ax, ay)), s}
	case rc.EF, rc.ES:
		co = [4]*Int{m.Mul(s, ax), s2, s, m.Mul(s2, ay)}
	}
	set := func(v [4]*Int) {
		rc.SetRaw(q, [4]FE{reffe.Of(v[0], false), reffe.Of(v[1], kit.Bool(c, "alt")), reffe.Of(v[2], false), reffe.Of(v[3], false)})
	}
	set(co)
	c.Check(validate(q), "%v %v is not valid", k, p)
	what := kit.Int(c, "what", 0, 2)
	if what == 0 && k.Sub() {
		// the coordinates of a point outside the subgroup and its coset by A
		r := rc.Add(p.Pt, rc.Torsion[kit.Int(c, "e", 2, 3)])
		rx, ry := r.Affine()
		full := rc.New(k)
		var v [4]*Int
		switch k {
		case rc.AS:
			v = [4]*Int{rx, ry, m.Mul(rx, ry), new(Int)}
		case rc.TS:
			v = [4]*Int{m.Mul(s, rx), m.Mul(s, ry), m.Mul(s, m.Mul(rx, ry)), s}
		case rc.ES:
			v = [4]*Int{m.Mul(s, rx), s2, s, m.Mul(s2, ry)}
		}
		rc.SetRaw(full, [4]FE{reffe.Of(v[0], false), reffe.Of(v[1], false), reffe.Of(v[2], false), reffe.Of(v[3], false)})
		c.Case(true, "%v holding %v", k, r)
		c.Check(!validate(full), "%v holding %v, outside the subgroup, is valid", k, r)
		return
	}
	lim := 4
	if k == rc.AF || k == rc.AS {
		lim = 3
	}
	i := kit.Int(c, "which", 0, lim-1)
	d := m.Residue(c)
	co[i] = m.Add(co[i], d)
	if co[i].Sign() == 0 {
		return
	}
	// is it a point after all?
	var e, f, g, h *Int
	var still bool
	switch k {
	case rc.AF, rc.AS:
		_, err := rc.FromExt(co[0], co[1], co[2], big1)
		still = err == nil
	case rc.TF, rc.TS:
		_, err := rc.FromExt(co[0], co[1], co[2], co[3])
		still = err == nil
	default:
		e, f, g, h = co[0], co[1], co[2], co[3]
		_, err := rc.FromExt(m.Mul(e, f), m.Mul(g, h), m.Mul(e, h), m.Mul(f, g))
		still = err == nil
	}
	c.Case(!still, "%v %v with coordinate %d shifted by %v", k, p, i, d)
	c.LabelIf(still, "still a point")
	set(co)
	if !still {
		c.Check(!validate(q), "%v %v with coordinate %d shifted by %v is valid", k, p, i, d)
	} else if !k.Sub() {
		c.Check(validate(q), "%v %v with coordinate %d shifted by %v is not valid", k, p, i, d)
	}
	switch kit.Int(c, "nap", 0, 2) { // points that are not points at all
	case 0:
		z := rc.New(k)
		c.Check(!validate(z) && z.IsNaP(), "%v: uninitialised points are valid", k)
	}
}

func TestP13(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "member", Quick: 4000, Fn: member},
		kit.Sub{Name: "convert", Quick: 8000, Fn: convertSubgroup},
	)
}

func member(c *kit.C) {
	k := kind(c, "kind")
	p := rc.DrawFor(c, k)
	x := rc.Make(c, k, p.Pt)
	want := p.InSub()
	c.Case(generic(p.Pt), "%v %v", k, p)
	c.LabelIf(want, "in the subgroup")
	c.LabelIf(p.Tor == 1, "in the coset of A")
	n, restore := rc.Watch()
	defer restore()
	c.Check(x.IsInSubgroup() == want, "%v %v: IsInSubgroup is not %v", k, p, want)
	c.Check(*n == 0, "reports an invalid point")
	rc.Is(c, x, p.Pt, "afterwards")
	c.Check(x.IsInSubgroup() == want, "%v %v: IsInSubgroup is not %v the second time", k, p, want)
	// by the definition, with the library's own arithmetic, for some
	if kit.Int(c, "slow", 0, 15) == 0 {
		z, b := rc.New(rc.TF), rc.New(rc.TF)
		z.SetNeutral()
		b.SetFrom(x)
		for i := rc.Order.BitLen() - 1; i >= 0; i-- {
			z.DoubleEq()
			if rc.Order.Bit(i) == 1 {
				z.AddEq(b)
			}
		}
		c.Label("multiplied by the order")
		c.Check(z.IsNeutralElement() == want, "%v %v: order times the point is %v", k, p, z)
	}
}

func convertSubgroup(c *kit.C) {
	xk, zk := kind(c, "xkind"), kind(c, "zkind")
	p := rc.DrawFor(c, xk)
	if kit.Bool(c, "member") {
		p = rc.DrawSub(c)
	}
	want := p.InSub()
	x := rc.Make(c, xk, p.Pt)
	old := rc.DrawFor(c, zk).Pt
	z := rc.Make(c, zk, old)
	if xk == zk && kit.Int(c, "alias", 0, 7) == 0 {
		z, old = x, p.Pt
	}
	fresh := z != x && kit.Int(c, "fresh", 0, 3) == 0
	if fresh {
		z = rc.New(zk)
	}
	trust := untrusted
	if want && kit.Bool(c, "trusted") {
		trust = trusted
	}
	desc := fmt.Sprintf("%v from %v %v (%v)", zk, xk, p, trust)
	c.Case(generic(p.Pt), "%s", desc)
	c.LabelIf(!want, "refused")
	n, restore := rc.Watch()
	defer restore()
	before := rc.Copy(z)
	ok := z.SetFromSubgroupPoint(x, trust)
	c.Check(ok == want, "%s: answers %v", desc, ok)
	c.Check(*n == 0, "%s: reports invalid points", desc)
	if x != z {
		rc.Is(c, x, p.Pt, "%s: the source afterwards", desc)
	}
	switch {
	case want:
		rc.Is(c, z, p.Pt, "%s", desc)
		c.Check(validate(z) && z.IsEqual(x) && x.IsEqual(z), "%s: not equal", desc)
	case fresh:
		c.Check(z.IsNaP() && reflect.DeepEqual(z, before), "%s: refused, but the receiver changed", desc)
	default:
		rc.Is(c, z, old, "%s: refused, receiver", desc)
	}
}

func TestP14(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "convert", Quick: 5000, Fn: convert},
		kit.Sub{Name: "clone", Quick: 3000, Fn: cloneCase},
		kit.Sub{Name: "normalise", Quick: 4000, Fn: normalise},
		kit.Sub{Name: "coordinates", Quick: 6000, Fn: coordinates},
	)
}

func convert(c *kit.C) {
	xk, zk := kind(c, "xkind"), kind(c, "zkind")
	p := rc.DrawFor(c, xk)
	if zk.Sub() && !xk.Sub() {
		zk--
	}
	x := rc.Make(c, xk, p.Pt)
	z := rc.New(zk)
	if kit.Bool(c, "dirty") {
		z = rc.Make(c, zk, rc.DrawFor(c, zk).Pt)
	}
	desc := fmt.Sprintf("%v from %v %v", zk, xk, p)
	c.Case(generic(p.Pt), "%s", desc)
	c.LabelIf(p.Inf(), "at infinity")
	n, restore := rc.Watch()
	defer restore()
	e, panicked := kit.Panics(func() { z.SetFrom(x) })
	if p.Inf() && !zk.Inf() {
		c.Check(panicked, "%s: no refusal", desc)
		return
	}
	c.Check(!panicked, "%s: panics: %v", desc, e)
	c.Check(*n == 0, "%s: reports invalid points", desc)
	rc.Is(c, z, p.Pt, "%s", desc)
	rc.Is(c, x, p.Pt, "%s: source afterwards", desc)
	c.Check(validate(z), "%s: not valid", desc)
	c.Check(z.IsEqual(x) && x.IsEqual(z), "%s: not equal", desc)
	// independence
	other := rc.DrawFor(c, zk).Pt
	z.SetFrom(rc.Make(c, zk, other))
	rc.Is(c, x, p.Pt, "%s: source after changing the copy", desc)
	rc.Is(c, z, other, "%s: set again", desc)
}

func cloneCase(c *kit.C) {
	k := kind(c, "kind")
	p := rc.DrawFor(c, k)
	x := rc.Make(c, k, p.Pt)
	c.Case(generic(p.Pt), "%v %v", k, p)
	y := x.Clone()
	c.Check(rc.KindOf(y) == k, "clone of %v has type %T", k, y)
	c.Check(y != x, "the clone is the original")
	rc.Is(c, y, p.Pt, "clone of %v", p)
	q := rc.DrawFor(c, k).Pt
	w := rc.Make(c, k, q)
	a, b := x, y
	if kit.Bool(c, "swap") {
		a, b = y, x
	}
	switch kit.Int(c, "change", 0, 3) {
	case 0:
		a.SetFrom(w)
	case 1:
		a.SetNeutral()
	case 2:
		a.NegEq()
		a.DoubleEq()
	case 3:
		a.EndoEq()
	}
	rc.Is(c, b, p.Pt, "%v after changing its clone or original", k)
}

func normalise(c *kit.C) {
	k := kit.Oneof(c, "kind", rc.AF, rc.AS, rc.TF, rc.TS)
	p := rc.DrawFor(c, k)
	x := rc.Make(c, k, p.Pt)
	c.Case(generic(p.Pt), "%v %v", k, p)
	forY := kit.Bool(c, "forY")
	n, restore := rc.Watch()
	defer restore()
	var ok bool
	var co FE
	if w, has := x.(curvePoints.NormalizerForY); has && forY {
		ok = w.NormalizeForY()
		co = x.Y_decaf_projective()
	} else {
		ok = x.(curvePoints.NormalizerForZ).NormalizeForZ()
		co = x.Z_decaf_projective()
	}
	c.Check(ok == !p.Inf(), "normalising %v %v: %v", k, p, ok)
	c.Check(!ok || co.IsOne(), "after normalising %v %v the coordinate is %v", k, p, &co)
	c.Check(*n == 0, "normalising %v %v reports invalid points", k, p)
	rc.Is(c, x, p.Pt, "%v, normalised", k)
	c.Check(validate(x), "%v %v, normalised, is not valid", k, p)
}

// coordinates reads every coordinate in every form.
func coordinates(c *kit.C) {
	k := kind(c, "kind")
	p := rc.DrawFor(c, k)
	x := rc.Make(c, k, p.Pt)
	desc := fmt.Sprintf("%v %v", k, p)
	c.Case(generic(p.Pt), "%s", desc)
	n, restore := rc.Watch()
	defer restore()
	b := func(f FE) *Int { return f.ToBigInt() }
	at := func(X, Y, T, Z FE, want Pt, how string) {
		got, err := rc.FromExt(b(X), b(Y), b(T), b(Z))
		if err != nil {
			c.Fatalf("%s: %s: %v", desc, how, err)
		}
		c.Check(rc.Eq(got, want), "%s: %s gives %v, expected %v", desc, how, got, want)
	}
	xyz := func(X, Y, Z FE, how string) {
		if p.Inf() {
			c.Check(Z.IsZero() && Y.IsZero() && !X.IsZero(), "%s: %s gives %v:%v:%v", desc, how, &X, &Y, &Z)
			return
		}
		c.Check(!Z.IsZero(), "%s: %s gives Z = 0", desc, how)
		ax, ay := p.Affine()
		c.Check(m.Mul(ax, b(Z)).Cmp(b(X)) == 0 && m.Mul(ay, b(Z)).Cmp(b(Y)) == 0, "%s: %s gives %v:%v:%v", desc, how, &X, &Y, &Z)
	}
	w := x.(curvePoints.CurvePointPtrInterfaceCooReadExtended)
	withA := rc.Add(p.Pt, rc.Torsion[1])
	for i := 0; i < kit.Int(c, "reads", 1, 4); i++ {
		switch kit.Int(c, "form", 0, 9) {
		case 0:
			X, Y, Z := w.XYZ_projective()
			xyz(X, Y, Z, "XYZ_projective")
		case 1:
			X, Y, T, Z := w.XYTZ_projective()
			at(X, Y, T, Z, p.Pt, "XYTZ_projective")
		case 2, 3: // one by one, without other calls in between
			v := read(c, &desc, map[string]func() FE{"X_projective": w.X_projective, "Y_projective": w.Y_projective, "T_projective": w.T_projective, "Z_projective": w.Z_projective}, "Y_projective", "T_projective", "X_projective", "Z_projective")
			at(v[2], v[0], v[1], v[3], p.Pt, "X_, Y_, T_, Z_projective")
		case 4:
			v := read(c, &desc, map[string]func() FE{"X_decaf_projective": w.X_decaf_projective, "Y_decaf_projective": w.Y_decaf_projective, "T_decaf_projective": w.T_decaf_projective, "Z_decaf_projective": w.Z_decaf_projective}, "X_decaf_projective", "Y_decaf_projective", "T_decaf_projective", "Z_decaf_projective")
			got, err := rc.FromExt(b(v[0]), b(v[1]), b(v[2]), b(v[3]))
			c.Check(err == nil && (rc.Eq(got, p.Pt) || rc.Eq(got, withA)), "%s: the decaf coordinates give %v, %v", desc, got, err)
		case 5:
			if p.Inf() {
				_, did := kit.Panics(func() { w.X_affine() })
				c.Check(did, "%s: affine coordinates of a point at infinity", desc)
				continue
			}
			v := read(c, &desc, map[string]func() FE{"X_affine": w.X_affine, "Y_affine": w.Y_affine, "T_affine": w.T_affine}, "X_affine", "Y_affine", "T_affine")
			at(v[0], v[1], v[2], feOne(), p.Pt, "X_, Y_, T_affine")
		case 6:
			if p.Inf() {
				_, did := kit.Panics(func() { w.XY_affine() })
				c.Check(did, "%s: affine coordinates of a point at infinity", desc)
				continue
			}
			X, Y := w.XY_affine()
			xyz(X, Y, feOne(), "XY_affine")
		case 7:
			if p.Inf() {
				_, did := kit.Panics(func() { w.XYT_affine() })
				c.Check(did, "%s: affine coordinates of a point at infinity", desc)
				continue
			}
			X, Y, T := w.XYT_affine()
			at(X, Y, T, feOne(), p.Pt, "XYT_affine")
		case 8:
			if p.Inf() {
				continue
			}
			v := read(c, &desc, map[string]func() FE{"X_decaf_affine": w.X_decaf_affine, "Y_decaf_affine": w.Y_decaf_affine, "T_decaf_affine": w.T_decaf_affine}, "X_decaf_affine", "Y_decaf_affine", "T_decaf_affine")
			got, err := rc.FromExt(b(v[0]), b(v[1]), b(v[2]), b(feOne()))
			c.Check(err == nil && (rc.Eq(got, p.Pt) || rc.Eq(got, withA)), "%s: the affine decaf coordinates give %v, %v", desc, got, err)
		case 9:
			c.Check(w.String() != "", "%s: empty string", desc)
			_ = fmt.Sprint(w)
		}
	}
	c.Check(*n == 0, "%s: reports invalid points", desc)
	rc.Is(c, x, p.Pt, "%s after reading coordinates", desc)
	// what was read is a copy
	f := w.Y_projective()
	f.SetZero()
	rc.Is(c, x, p.Pt, "%s after changing what was read", desc)
}

// read calls the functions in any order, some twice, and gives what they gave in the order of the names.
func read(c *kit.C, desc *string, f map[string]func() FE, names ...string) []FE {
	r := make([]FE, len(names))
	order := rapid.Permutation(append([]string{names[kit.Int(c, "twice", 0, len(names)-1)]}, names...)).Draw(c.T, "order")
	for _, name := range order {
		*desc += " " + name
		v := f[name]()
		r[slices.Index(names, name)] = v
	}
	return r
}

var big1 = big.NewInt(1)

func feOne() FE { var f FE; f.SetOne(); return f }

func TestP15(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "eigenvalue", Quick: 1500, Fn: func(c *kit.C) { endo(c, true) }},
		kit.Sub{Name: "homomorphism", Quick: 4000, Fn: func(c *kit.C) { endo(c, false) }},
		kit.Sub{Name: "square", Quick: 2000, Fn: endoSquare},
	)
}

func applyEndo(c *kit.C, x CP, p Pt) (CP, string) {
	xk := rc.KindOf(x)
	zk := kind(c, "zkind")
	if zk.Sub() && !xk.Sub() {
		zk--
	}
	how := kit.Int(c, "how", 0, 3)
	desc := fmt.Sprintf("Endo of %v %v", xk, p)
	n, restore := rc.Watch()
	defer restore()
	switch how {
	case 0:
		x.EndoEq()
		c.Check(*n == 0, "%s reports invalid points", desc)
		return x, desc + " in place"
	case 1:
		x.Endo(x)
		c.Check(*n == 0, "%s reports invalid points", desc)
		return x, desc + " into itself"
	}
	z := rc.New(zk)
	if how == 3 {
		z = rc.Make(c, zk, rc.DrawFor(c, zk).Pt)
	}
	z.Endo(x)
	c.Check(*n == 0, "%s reports invalid points", desc)
	rc.Is(c, x, p, "argument of %s", desc)
	return z, desc + " into " + zk.String()
}

func endo(c *kit.C, eigen bool) {
	c.Check(common.EndomorphismEigenvalue_Int.Cmp(rc.Lambda) == 0 && curvePoints.EndomorphismEigenvalue_Int.Cmp(rc.Lambda) == 0, "the published eigenvalue has changed")
	xk := kind(c, "xkind")
	p := rc.DrawFor(c, xk)
	if eigen && p.K == nil {
		return
	}
	z, desc := applyEndo(c, rc.Make(c, xk, p.Pt), p.Pt)
	c.Check(validate(z), "%s: not valid", desc)
	if eigen {
		c.Case(generic(p.Pt), "%s", desc)
		want := rc.MulGen(new(Int).Mul(p.K, rc.Lambda))
		if p.Tor >= 2 {
			want = rc.Add(want, rc.Torsion[1])
		}
		rc.Is(c, z, want, "%s", desc)
		return
	}
	yk := kind(c, "ykind")
	q := relatedFor(c)(yk, p)
	w, desc2 := applyEndo(c, rc.Make(c, yk, q.Pt), q.Pt)
	c.Case(generic(p.Pt) && generic(q.Pt), "%s; %s", desc, desc2)
	s := rc.Add(p.Pt, q.Pt)
	sk := kind(c, "skind")
	if !rc.Fits(sk, rc.Known{Pt: s, Tor: -1}) {
		sk = rc.TF
	}
	v, desc3 := applyEndo(c, rc.Make(c, sk, s), s)
	a, e1 := rc.Decode(z)
	b, e2 := rc.Decode(w)
	d, e3 := rc.Decode(v)
	c.Check(e1 == nil && e2 == nil && e3 == nil, "%s: %v; %s: %v; %s: %v", desc, e1, desc2, e2, desc3, e3)
	c.Check(rc.Eq(rc.Add(a, b), d), "%s is %v; %s is %v; but %s is %v", desc, a, desc2, b, desc3, d)
}

// endoSquare: applied twice it is multiplication by -2.
func endoSquare(c *kit.C) {
	xk := kind(c, "xkind")
	p := rc.DrawFor(c, xk)
	c.Case(generic(p.Pt), "%v %v", xk, p)
	z, desc := applyEndo(c, rc.Make(c, xk, p.Pt), p.Pt)
	mid, err := rc.Decode(z)
	c.Check(err == nil, "%s: %v", desc, err)
	if p.Tor == 0 || p.Tor == 1 || p.Tor == -1 && rc.InSubgroup(p.Pt) {
		c.Check(rc.InSubgroup(mid), "%s is %v, outside the subgroup", desc, mid)
	}
	w, desc2 := applyEndo(c, z, mid)
	rc.Is(c, w, rc.Neg(rc.Dbl(p.Pt)), "%s, then %s", desc, desc2)
}
