//go:build go1.23

package curve

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type (
	Int = big.Int
	CP  = rc.CP
	FE  = rc.FE
	Pt  = rc.Pt
)

var (
	trusted   = common.TrustedInput
	untrusted = common.UntrustedInput
)

func validate(p any) bool { return p.(interface{ Validate() bool }).Validate() }

func kind(c *kit.C, label string) rc.Kind { return rc.Kind(kit.Int(c, label, 0, int(rc.NKinds)-1)) }

func fullKind(c *kit.C, label string) rc.Kind { return rc.Kind(2 * kit.Int(c, label, 0, 2)) }

func subKind(c *kit.C, label string) rc.Kind { return rc.Kind(2*kit.Int(c, label, 0, 2) + 1) }

// op is one of the group operations. Unary ones use the first operand only, Eq forms have the receiver as first operand.
type op struct {
	name  string
	arity int
	eq    bool
	do    func(z CP, x, y rc.CPR)
	ref   func(x, y Pt) Pt
}

var ops = []op{
	{"Add", 2, false, func(z CP, x, y rc.CPR) { z.Add(x, y) }, rc.Add},
	{"Sub", 2, false, func(z CP, x, y rc.CPR) { z.Sub(x, y) }, rc.Sub},
	{"Neg", 1, false, func(z CP, x, y rc.CPR) { z.Neg(x) }, func(x, _ Pt) Pt { return rc.Neg(x) }},
	{"Double", 1, false, func(z CP, x, y rc.CPR) { z.Double(x) }, func(x, _ Pt) Pt { return rc.Dbl(x) }},
	{"AddEq", 2, true, func(z CP, x, y rc.CPR) { z.AddEq(y) }, rc.Add},
	{"SubEq", 2, true, func(z CP, x, y rc.CPR) { z.SubEq(y) }, rc.Sub},
	{"NegEq", 1, true, func(z CP, x, y rc.CPR) { z.NegEq() }, func(x, _ Pt) Pt { return rc.Neg(x) }},
	{"DoubleEq", 1, true, func(z CP, x, y rc.CPR) { z.DoubleEq() }, func(x, _ Pt) Pt { return rc.Dbl(x) }},
}

// lawCase applies an operation to operands of the given kinds and checks everything.
// draw gives the first operand for a kind, related the second.
func lawCase(c *kit.C, o op, draw func(k rc.Kind) rc.Known, second func(k rc.Kind, p rc.Known) rc.Known, special func(p, q, r Pt) bool) {
	zk := kind(c, "zkind")
	// a receiver that holds the subgroup only takes operands of such types only, save for Double
	ok := func(label string) rc.Kind {
		if zk.Sub() && o.name != "Double" {
			return subKind(c, label)
		}
		return kind(c, label)
	}
	xk, yk := ok("xkind"), ok("ykind")
	alias := kit.Int(c, "alias", 0, 4) // 1: z=x 2: z=y 3: x=y 4: all the same
	if o.eq && alias != 4 {
		alias = 1
	}
	if o.arity == 1 && (alias == 2 || alias == 3) {
		alias = 0
	}
	switch alias {
	case 1:
		xk = zk
	case 2:
		yk = zk
	case 3:
		yk = xk
	case 4:
		xk, yk = zk, zk
	}
	p := draw(xk)
	q := p
	if alias < 3 {
		q = second(yk, p)
	}
	x := rc.Make(c, xk, p.Pt)
	y := x
	if alias < 3 {
		y = rc.Make(c, yk, q.Pt)
	}
	var z CP
	switch alias {
	case 0, 3:
		z = rc.New(zk)
		if kit.Bool(c, "dirty") {
			z = rc.Make(c, zk, draw(zk).Pt)
		}
	case 1, 4:
		z = x
	case 2:
		z = y
	}
	want := o.ref(p.Pt, q.Pt)
	desc := fmt.Sprintf("%s of %v = %v and %v = %v into %v, sharing %d", o.name, xk, p, yk, q, zk, alias)
	c.Case(special(p.Pt, q.Pt, want), "%s", desc)
	c.Label("receiver " + zk.String())
	c.LabelIf(want.Inf(), "result at infinity")
	n, restore := rc.Watch()
	defer restore()
	e, panicked := kit.Panics(func() { o.do(z, x, y) })
	if want.Inf() && !zk.Inf() {
		c.Check(panicked, "%s: the result is at infinity, but the call returns", desc)
		return
	}
	if panicked {
		c.Fatalf("%s: panics: %v", desc, e)
	}
	c.Check(*n == 0, "%s: reports invalid points", desc)
	rc.Is(c, z, want, "%s: result", desc)
	c.Check(validate(z), "%s: the result is not valid", desc)
	if x != z {
		rc.Is(c, x, p.Pt, "%s: first operand afterwards", desc)
	}
	if y != z && o.arity == 2 {
		rc.Is(c, y, q.Pt, "%s: second operand afterwards", desc)
	}
}

func generic(p Pt) bool { return p.X.Sign() != 0 && !p.Inf() }

func relatedFor(c *kit.C) func(k rc.Kind, p rc.Known) rc.Known {
	return func(k rc.Kind, p rc.Known) rc.Known {
		q := rc.Related(c, p)
		if !rc.Fits(k, q) {
			return rc.DrawFor(c, k)
		}
		return q
	}
}

func TestP10(t *testing.T) {
	law := func(i int) kit.Sub {
		o := ops[i]
		return kit.Sub{Name: strings.ToLower(o.name), Quick: 2400, Fn: func(c *kit.C) {
			lawCase(c, o, func(k rc.Kind) rc.Known { return rc.DrawFor(c, k) }, relatedFor(c),
				func(p, q, r Pt) bool { return generic(p) && (o.arity == 1 || generic(q)) })
		}}
	}
	var subs []kit.Sub
	for i := range ops {
		subs = append(subs, law(i))
	}
	subs = append(subs, kit.Sub{Name: "history", Quick: 600, Fn: history}, kit.Sub{Name: "algebra", Quick: 400, Fn: algebra})
	subs = append(subs, formulas...)
	kit.Run(t, subs...)
}

// algebra compares different ways to compute the same point; the oracle is the abstract group.
func algebra(c *kit.C) {
	ks := [3]rc.Kind{kind(c, "k0"), kind(c, "k1"), kind(c, "k2")}
	var ps [3]rc.Known
	var xs [3]CP
	for i := range ks {
		ps[i] = rc.DrawFor(c, ks[i])
		xs[i] = rc.Make(c, ks[i], ps[i].Pt)
	}
	c.Case(generic(ps[0].Pt) && generic(ps[1].Pt) && generic(ps[2].Pt), "(%v %v + %v %v) + %v %v", ks[0], ps[0], ks[1], ps[1], ks[2], ps[2])
	out := kit.Oneof(c, "out", rc.TF, rc.EF)
	l, r, s := rc.New(out), rc.New(out), rc.New(out)
	l.Add(xs[0], xs[1])
	l.Add(l, xs[2])
	r.Add(xs[1], xs[2])
	r.Add(xs[0], r)
	s.Add(xs[2], xs[1])
	s.AddEq(xs[0])
	c.Check(l.IsEqual(r) && r.IsEqual(s), "the sum depends on the order: %v %v %v", l, r, s)
	rc.Is(c, l, rc.Add(ps[0].Pt, rc.Add(ps[1].Pt, ps[2].Pt)), "sum of %v, %v, %v", ps[0], ps[1], ps[2])
	l.SubEq(xs[2])
	l.SubEq(xs[1])
	l.SubEq(xs[0])
	c.Check(l.IsNeutralElement(), "sum minus its parts is %v", l)
	// repeated doubling
	n := kit.Int(c, "doublings", 1, 20)
	d := rc.New(kit.Oneof(c, "dkind", rc.TF, rc.EF, rc.TS, rc.ES, rc.AF, rc.AS))
	d.Double(xs[0])
	w := rc.Dbl(ps[0].Pt)
	for i := 1; i < n; i++ {
		d.DoubleEq()
		w = rc.Dbl(w)
	}
	rc.Is(c, d, w, "%d-fold double of %v", n, ps[0])
}

// history runs a sequence of operations on registers of all kinds against a model.
func history(c *kit.C) {
	const R = 6
	var regs [R]CP
	var model [R]Pt
	var trace []string
	for i := range regs {
		k := rc.Kind(i)
		if kit.Int(c, "any", 0, 1) == 0 {
			k = kind(c, "kind")
		}
		model[i] = rc.DrawFor(c, k).Pt
		regs[i] = rc.Make(c, k, model[i])
		trace = append(trace, fmt.Sprintf("r%d: %v %v", i, k, model[i]))
	}
	steps := kit.Size(c, "steps", 1, 24, 120)
	n, restore := rc.Watch()
	defer restore()
	done := 0
	for s := 0; s < steps; s++ {
		zi, xi, yi := kit.Int(c, "z", 0, R-1), kit.Int(c, "x", 0, R-1), kit.Int(c, "y", 0, R-1)
		z, x, y := regs[zi], regs[xi], regs[yi]
		zk, xk, yk := rc.KindOf(z), rc.KindOf(x), rc.KindOf(y)
		what := kit.Int(c, "op", 0, 15)
		touched := []int{zi, xi, yi}
		switch {
		case what < 8:
			o := ops[what]
			if o.eq {
				xi, x, xk = zi, z, zk
			}
			if zk.Sub() && o.name != "Double" && !(xk.Sub() && (o.arity == 1 || yk.Sub())) {
				continue
			}
			want := o.ref(model[xi], model[yi])
			if want.Inf() && !zk.Inf() {
				continue
			}
			trace = append(trace, fmt.Sprintf("r%d.%s(r%d,r%d)", zi, o.name, xi, yi))
			o.do(z, x, y)
			model[zi] = want
		case what == 8 || what == 9:
			if zk.Sub() && !xk.Sub() || model[xi].Inf() && !zk.Inf() {
				continue
			}
			trace = append(trace, fmt.Sprintf("r%d.SetFrom(r%d)", zi, xi))
			z.SetFrom(x)
			model[zi] = model[xi]
		case what == 10:
			trace = append(trace, fmt.Sprintf("r%d = r%d.Clone()", zi, xi))
			regs[zi] = x.Clone()
			c.Check(rc.KindOf(regs[zi]) == xk, "%v: the clone is a %T", trace, regs[zi])
			model[zi] = model[xi]
		case what == 11:
			trace = append(trace, fmt.Sprintf("r%d = r%d?", xi, yi))
			c.Check(x.IsEqual(y) == rc.Eq(model[xi], model[yi]), "%v: wrong", trace)
		case what == 12:
			trace = append(trace, fmt.Sprintf("normalise r%d", zi))
			if w, ok := z.(curvePoints.NormalizerForZ); ok && kit.Bool(c, "forZ") {
				c.Check(w.NormalizeForZ() == !model[zi].Inf(), "%v: wrong answer", trace)
			} else if w, ok := z.(curvePoints.NormalizerForY); ok {
				c.Check(w.NormalizeForY() == !model[zi].Inf(), "%v: wrong answer", trace)
			}
		case what == 13:
			trace = append(trace, fmt.Sprintf("read r%d", zi))
			switch kit.Int(c, "how", 0, 5) {
			case 0:
				z.XYZ_projective()
			case 1:
				z.X_decaf_projective()
				z.Y_decaf_projective()
			case 2:
				if !model[zi].Inf() {
					z.XY_affine()
				}
			case 3:
				if !model[zi].Inf() {
					z.X_decaf_affine()
				}
			case 4:
				z.IsNeutralElement()
				z.IsInSubgroup()
				z.IsAtInfinity()
			case 5:
				_ = z.String()
			}
		case what == 14:
			trace = append(trace, fmt.Sprintf("r%d.SetNeutral()", zi))
			z.SetNeutral()
			model[zi] = rc.Torsion[0]
		case what == 15:
			in := rc.InSubgroup(model[xi])
			if model[xi].Inf() && !zk.Inf() {
				in = false
			}
			trace = append(trace, fmt.Sprintf("r%d.SetFromSubgroupPoint(r%d)", zi, xi))
			c.Check(z.SetFromSubgroupPoint(x, untrusted) == in, "%v: wrong answer, expected %v", trace, in)
			if in {
				model[zi] = model[xi]
			}
		}
		done++
		c.Check(*n == 0, "%v: reports an invalid point", trace)
		for _, i := range touched {
			rc.Is(c, regs[i], model[i], "after %v: r%d", trace, i)
		}
	}
	c.Case(done >= 4, "%v", trace)
	for i := range regs {
		c.Check(validate(regs[i]), "%v: r%d is not valid", trace, i)
	}
}

func TestP11(t *testing.T) {
	// points with a small part in the subgroup and any torsion
	near := func(c *kit.C) func(k rc.Kind) rc.Known {
		return func(k rc.Kind) rc.Known {
			var p rc.Known
			switch kit.Int(c, "base", 0, 2) {
			case 0:
				p = rc.Known{Pt: rc.Torsion[0], K: new(Int), Tor: 0}
			default:
				p = rc.DrawSub(c)
			}
			i := kit.Int(c, "tor", 0, 3)
			p.Pt, p.Tor = rc.Add(p.Pt, rc.Torsion[i]), p.Tor^i
			if !rc.Fits(k, p) {
				return rc.DrawFor(c, k)
			}
			return p
		}
	}
	exceptional := func(c *kit.C) func(k rc.Kind, p rc.Known) rc.Known {
		return func(k rc.Kind, p rc.Known) rc.Known {
			q := p
			if kit.Bool(c, "neg") {
				q.Pt = rc.Neg(q.Pt)
			}
			i := kit.Int(c, "tor", 0, 3)
			q.Pt = rc.Add(q.Pt, rc.Torsion[i])
			if p.Tor >= 0 {
				q.Tor = p.Tor ^ i
			}
			if kit.Int(c, "pure", 0, 3) == 0 {
				q = rc.Known{Pt: rc.Torsion[i], K: new(Int), Tor: i}
			}
			if !rc.Fits(k, q) {
				return rc.DrawFor(c, k)
			}
			return q
		}
	}
	special := func(p, q, r Pt) bool { return !generic(p) || !generic(q) || !generic(r) }
	var subs []kit.Sub
	for _, o := range ops {
		o := o
		subs = append(subs, kit.Sub{Name: strings.ToLower(o.name), Quick: 2400, Fn: func(c *kit.C) { lawCase(c, o, near(c), exceptional(c), special) }})
	}
	subs = append(subs, kit.Sub{Name: "klein", Quick: 400, Fn: klein}, kit.Sub{Name: "refuse", Quick: 1200, Fn: refuse}, kit.Sub{Name: "shift", Quick: 600, Fn: shift})
	kit.Run(t, subs...)
}

// klein checks the 2-torsion as the library itself names its members.
func klein(c *kit.C) {
	mk := func(k rc.Kind, i int) CP {
		p := rc.New(k)
		switch i {
		case 0:
			p.SetNeutral()
		case 1:
			p.(interface{ SetAffineTwoTorsion() }).SetAffineTwoTorsion()
		case 2:
			p.(interface{ SetE1() }).SetE1()
		case 3:
			p.(interface{ SetE2() }).SetE2()
		}
		return p
	}
	i, j := kit.Int(c, "i", 0, 3), kit.Int(c, "j", 0, 3)
	pick := func(i int) rc.Kind {
		switch {
		case i == 0:
			return kind(c, "kind")
		case i == 1:
			return fullKind(c, "kind")
		}
		return kit.Oneof(c, "kind", rc.TF, rc.EF)
	}
	ki, kj, kz := pick(i), pick(j), pick(i^j)
	if kz.Sub() && !(ki.Sub() && kj.Sub()) {
		kz--
	}
	c.Case(i != 0 && j != 0, "%v %d + %v %d into %v", ki, i, kj, j, kz)
	x, y, z := mk(ki, i), mk(kj, j), rc.New(kz)
	rc.Is(c, x, rc.Torsion[i], "the library's torsion point %d of %v", i, ki)
	z.Add(x, y)
	rc.Is(c, z, rc.Torsion[i^j], "torsion %d + %d", i, j)
	c.Check(z.IsEqual(mk(kz, i^j)), "torsion %d + %d: not equal to %d", i, j, i^j)
	c.Check(x.IsEqual(y) == (i == j), "torsion points %d and %d compare wrongly", i, j)
	x.NegEq()
	rc.Is(c, x, rc.Torsion[i], "minus torsion %d", i)
	x.DoubleEq()
	rc.Is(c, x, rc.Torsion[0], "double of torsion %d", i)
	c.Check(x.IsNeutralElement(), "double of torsion %d is not neutral", i)
	for _, v := range []struct {
		p CP
		i int
	}{{&curvePoints.NeutralElement_axtw_full, 0}, {&curvePoints.NeutralElement_axtw_subgroup, 0}, {&curvePoints.NeutralElement_xtw_full, 0}, {&curvePoints.NeutralElement_xtw_subgroup, 0},
		{&curvePoints.NeutralElement_efgh_full, 0}, {&curvePoints.NeutralElement_efgh_subgroup, 0}, {&curvePoints.AffineOrderTwoPoint_axtw, 1}, {&curvePoints.AffineOrderTwoPoint_xtw, 1},
		{&curvePoints.AffineOrderTwoPoint_efgh, 1}, {&curvePoints.InfinitePoint1_xtw, 2}, {&curvePoints.InfinitePoint2_xtw, 3}, {&curvePoints.InfinitePoint1_efgh, 2}, {&curvePoints.InfinitePoint2_efgh, 3}} {
		rc.Is(c, v.p, rc.Torsion[v.i], "a predefined %T", v.p)
	}
	rc.Is(c, &curvePoints.SubgroupGenerator_xtw_subgroup, rc.Gen, "the predefined generator")
}

// refuse: types that cannot hold a point refuse it rather than hold another one.
func refuse(c *kit.C) {
	e := rc.Torsion[kit.Int(c, "e", 2, 3)]
	x := rc.Make(c, kit.Oneof(c, "xkind", rc.TF, rc.EF), e)
	zk := kit.Oneof(c, "zkind", rc.AF, rc.AS, rc.TS, rc.ES)
	how := kit.Int(c, "how", 0, 4)
	z := rc.Make(c, zk, rc.DrawFor(c, zk).Pt)
	c.Case(true, "%v, way %d, of %v in %T", zk, how, e, x)
	var done bool
	_, panicked := kit.Panics(func() {
		switch how {
		case 0:
			z.SetFrom(x)
		case 1:
			z.Neg(x)
		case 2:
			done = !z.SetFromSubgroupPoint(x, untrusted)
		case 3:
			x.X_affine()
		case 4:
			x.XY_affine()
		}
	})
	c.Check(panicked || how == 2 && done, "no refusal of %v", e)
	rc.Is(c, x, e, "the argument afterwards")
	// subgroup types refuse points outside the subgroup, or typed as if they might be
	p := rc.DrawFinite(c)
	if p.InSub() {
		return
	}
	y, w := rc.Make(c, fullKind(c, "ykind"), p.Pt), rc.Make(c, subKind(c, "wkind"), rc.DrawSub(c).Pt)
	other := rc.Make(c, subKind(c, "okind"), rc.DrawSub(c).Pt)
	names := []string{"SetFrom", "Neg", "Add", "Add'", "Sub", "Sub'", "AddEq", "SubEq", "Endo"}
	i := kit.Int(c, "op", 0, len(names)-1)
	_, panicked = kit.Panics(func() {
		switch i {
		case 0:
			w.SetFrom(y)
		case 1:
			w.Neg(y)
		case 2:
			w.Add(y, other)
		case 3:
			w.Add(other, y)
		case 4:
			w.Sub(y, other)
		case 5:
			w.Sub(other, y)
		case 6:
			w.AddEq(y)
		case 7:
			w.SubEq(y)
		case 8:
			w.Endo(y)
		}
	})
	c.Check(panicked, "%s of %v, outside the subgroup, into %T returns", names[i], p, w)
}

// shift: adding a 2-torsion point in place.
func shift(c *kit.C) {
	k := fullKind(c, "kind")
	i := kit.Int(c, "tor", 1, 3)
	p := rc.DrawFor(c, k)
	want := rc.Add(p.Pt, rc.Torsion[i])
	x := rc.Make(c, k, p.Pt)
	c.Case(!p.Inf() || want.Inf(), "%v %v + torsion %d", k, p, i)
	if rc.RawAvailable && !(want.Inf() && k == rc.AF) {
		y := rc.Copy(x)
		rc.TorsionAdd(y, i)
		rc.Is(c, y, want, "%v shifted by torsion %d", p, i)
	}
	// through the public operations, back and forth
	tor := rc.Make(c, kit.Oneof(c, "tkind", rc.TF, rc.EF), rc.Torsion[i])
	z := rc.New(kit.Oneof(c, "zkind", rc.TF, rc.EF))
	z.Add(x, tor)
	rc.Is(c, z, want, "%v plus torsion %d", p, i)
	z.SubEq(tor)
	rc.Is(c, z, p.Pt, "%v plus and minus torsion %d", p, i)
	var d curvePoints.Point_efgh_full
	d.Double(z)
	e := rc.New(k)
	e.Double(x)
	c.Check(d.IsEqual(e), "doubles differ")
}

var _ = m.P
