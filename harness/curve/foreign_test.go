//go:build go1.23

package curve

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"testing"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

func TestP40(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "operations", Quick: 12000, Fn: ownOps},
		kit.Sub{Name: "self", Quick: 2000, Fn: ownSelf},
		kit.Sub{Name: "equality", Quick: 6000, Fn: ownEqual},
		kit.Sub{Name: "invalid", Quick: 4000, Fn: ownNaP},
		kit.Sub{Name: "map", Quick: 1500, Fn: ownMap},
		kit.Sub{Name: "slices", Quick: 1500, Fn: ownSlices},
		kit.Sub{Name: "serialise", Quick: 2500, Fn: ownSerial},
	)
}

// own is what the point types of this file, written against the exported interface only, have in common. A point has no coordinates of
// its own: whenever the documentation allows that a representation changes between two calls, it does.
type own struct {
	pt   Pt
	nap  bool
	sub  bool // of the type
	inf  bool
	rnd  *rand.Rand
	mode string // of the block of calls this one belongs to
	s    *Int
	flip bool
}

func (o *own) enter(mode string) {
	if mode == "" || mode != o.mode {
		o.s = new(Int)
		for o.s.Sign() == 0 {
			o.s.Rand(o.rnd, m.P)
			if o.rnd.Intn(3) == 0 {
				o.s.SetInt64(1)
			}
		}
		o.flip = o.rnd.Intn(2) == 0
	}
	o.mode = mode
}

func (o *own) fe(v *Int) FE { return reffe.Of(m.Mod(v), o.rnd.Intn(2) == 0) }

// coord gives a coordinate: 0 to 3 of X, Y, T, Z.
func (o *own) coord(i int, mode string, affine, decaf bool) FE {
	o.enter(mode)
	if o.nap {
		return o.fe(new(Int))
	}
	p := o.pt
	if decaf && o.flip {
		p = rc.Add(p, rc.Torsion[1])
	}
	var v [4]*Int
	if p.Inf() {
		if affine {
			panic("affine coordinates of a point at infinity")
		}
		v = [4]*Int{m.Mul(p.X, p.T), new(Int), m.Mul(p.X, p.Y), new(Int)}
	} else {
		x, y := p.Affine()
		v = [4]*Int{x, y, m.Mul(x, y), big1}
	}
	if affine {
		return o.fe(v[i])
	}
	return o.fe(m.Mul(o.s, v[i]))
}

func (o *own) X_projective() FE { return o.coord(0, "projective", false, false) }
func (o *own) Y_projective() FE { return o.coord(1, "projective", false, false) }
func (o *own) Z_projective() FE { return o.coord(3, "projective", false, false) }
func (o *own) XYZ_projective() (x, y, z FE) {
	return o.X_projective(), o.Y_projective(), o.Z_projective()
}
func (o *own) X_affine() FE                   { return o.coord(0, "", true, false) }
func (o *own) Y_affine() FE                   { return o.coord(1, "", true, false) }
func (o *own) XY_affine() (x, y FE)           { return o.X_affine(), o.Y_affine() }
func (o *own) X_decaf_projective() FE         { return o.coord(0, "decaf", false, true) }
func (o *own) Y_decaf_projective() FE         { return o.coord(1, "decaf", false, true) }
func (o *own) T_decaf_projective() FE         { return o.coord(2, "decaf", false, true) }
func (o *own) Z_decaf_projective() FE         { return o.coord(3, "decaf", false, true) }
func (o *own) X_decaf_affine() FE             { return o.coord(0, "decaf affine", true, true) }
func (o *own) Y_decaf_affine() FE             { return o.coord(1, "decaf affine", true, true) }
func (o *own) T_decaf_affine() FE             { return o.coord(2, "decaf affine", true, true) }
func (o *own) String() string                 { o.enter(""); return fmt.Sprintf("own:%v", o.pt) }
func (o *own) CanRepresentInfinity() bool     { return o.inf }
func (o *own) CanOnlyRepresentSubgroup() bool { return o.sub }

func (o *own) invalid() bool {
	o.enter("")
	if o.nap {
		curvePoints.GetNaPErrorHandler()("invalid point of a type of the tests", false)
	}
	return o.nap
}
func (o *own) IsNaP() bool            { o.enter(""); return o.nap }
func (o *own) IsNeutralElement() bool { return !o.invalid() && rc.Eq(o.pt, rc.Torsion[0]) }
func (o *own) IsAtInfinity() bool     { return !o.invalid() && o.pt.Inf() }
func (o *own) IsInSubgroup() bool     { return !o.invalid() && rc.InSubgroup(o.pt) }
func (o *own) IsEqual(q rc.CPR) bool {
	if o.invalid() || q.IsNaP() {
		return false
	}
	p, nap := value(q)
	return !nap && rc.Eq(o.pt, p)
}

func (o *own) put(p Pt, nap bool, subOnly bool) {
	o.enter("")
	if o.sub && !subOnly {
		panic("a point that may lie outside the subgroup is put into one of its points")
	}
	if !nap && p.Inf() && !o.inf {
		panic("a point at infinity is put into a type that cannot hold it")
	}
	o.pt, o.nap = p, nap
}

func (o *own) two(x, y rc.CPR, f func(x, y Pt) Pt) {
	p, n1 := value(x)
	q, n2 := value(y)
	if n1 || n2 {
		o.put(rc.Torsion[0], true, true)
		return
	}
	o.put(f(p, q), false, x.CanOnlyRepresentSubgroup() && y.CanOnlyRepresentSubgroup())
}

func (o *own) SetNeutral()     { o.put(rc.Torsion[0], false, true) }
func (o *own) Add(x, y rc.CPR) { o.two(x, y, rc.Add) }
func (o *own) Sub(x, y rc.CPR) { o.two(x, y, rc.Sub) }
func (o *own) Neg(x rc.CPR)    { o.two(x, x, func(p, _ Pt) Pt { return rc.Neg(p) }) }
func (o *own) AddEq(x rc.CPR)  { o.put(sum(o, x)) }
func (o *own) SubEq(x rc.CPR) {
	p, n := value(x)
	o.put(rc.Sub(o.pt, p), o.nap || n, x.CanOnlyRepresentSubgroup())
}
func (o *own) NegEq()           { o.put(rc.Neg(o.pt), o.nap, true) }
func (o *own) Double(x rc.CPR)  { p, n := value(x); o.put(rc.Dbl(p), n, true) }
func (o *own) DoubleEq()        { o.put(rc.Dbl(o.pt), o.nap, true) }
func (o *own) Endo(rc.CPR)      { panic("VERIF-HARNESS not provided") }
func (o *own) EndoEq()          { panic("VERIF-HARNESS not provided") }
func (o *own) SetFrom(x rc.CPR) { p, n := value(x); o.put(p, n, x.CanOnlyRepresentSubgroup()) }
func (o *own) SetFromSubgroupPoint(x rc.CPR, trust common.IsInputTrusted) bool {
	p, n := value(x)
	if n || !trust.Bool() && !rc.InSubgroup(p) {
		return false
	}
	o.put(p, n, true)
	return true
}

func sum(o *own, x rc.CPR) (Pt, bool, bool) {
	p, n := value(x)
	return rc.Add(o.pt, p), o.nap || n, x.CanOnlyRepresentSubgroup()
}

type ownT struct{ own } // with all of X, Y, T, Z

func (o *ownT) T_projective() FE { return o.coord(2, "projective", false, false) }
func (o *ownT) XYTZ_projective() (x, y, t, z FE) {
	return o.X_projective(), o.Y_projective(), o.T_projective(), o.Z_projective()
}
func (o *ownT) T_affine() FE             { return o.coord(2, "", true, false) }
func (o *ownT) XYT_affine() (x, y, t FE) { return o.X_affine(), o.Y_affine(), o.T_affine() }

type ownE struct{ own } // knows the points at infinity

func (o *ownE) IsE1() bool { return o.IsAtInfinity() && rc.Eq(o.pt, rc.Torsion[2]) }
func (o *ownE) IsE2() bool { return o.IsAtInfinity() && rc.Eq(o.pt, rc.Torsion[3]) }

type ownTE struct{ ownT }

func (o *ownTE) IsE1() bool { return o.IsAtInfinity() && rc.Eq(o.pt, rc.Torsion[2]) }
func (o *ownTE) IsE2() bool { return o.IsAtInfinity() && rc.Eq(o.pt, rc.Torsion[3]) }

type (
	ownFinite  struct{ own }
	ownFiniteT struct{ ownT }
	ownSub     struct{ own }
	ownSubT    struct{ ownT }
)

func (o *ownE) Clone() CP       { c := *o; return &c }
func (o *ownTE) Clone() CP      { c := *o; return &c }
func (o *ownFinite) Clone() CP  { c := *o; return &c }
func (o *ownFiniteT) Clone() CP { c := *o; return &c }
func (o *ownSub) Clone() CP     { c := *o; return &c }
func (o *ownSubT) Clone() CP    { c := *o; return &c }

// types that embed one of the library's
type (
	tagAF struct {
		tag string
		curvePoints.Point_axtw_full
	}
	tagAS struct {
		curvePoints.Point_axtw_subgroup
		tag string
	}
	tagTF struct {
		tag string
		curvePoints.Point_xtw_full
	}
	tagTS struct {
		curvePoints.Point_xtw_subgroup
		tag string
	}
	tagEF struct {
		tag string
		curvePoints.Point_efgh_full
	}
	tagES struct {
		curvePoints.Point_efgh_subgroup
		tag string
	}
)

// inner gives the library's point in an embedding one (or the point itself), nil for others
func inner(p any) CP {
	switch p := p.(type) {
	case *tagAF:
		return &p.Point_axtw_full
	case *tagAS:
		return &p.Point_axtw_subgroup
	case *tagTF:
		return &p.Point_xtw_full
	case *tagTS:
		return &p.Point_xtw_subgroup
	case *tagEF:
		return &p.Point_efgh_full
	case *tagES:
		return &p.Point_efgh_subgroup
	}
	if rc.KindOf(p) != rc.NKinds {
		return p.(CP)
	}
	return nil
}

func base(p any) *own {
	switch p := p.(type) {
	case *ownE:
		return &p.own
	case *ownTE:
		return &p.own
	case *ownFinite:
		return &p.own
	case *ownFiniteT:
		return &p.own
	case *ownSub:
		return &p.own
	case *ownSubT:
		return &p.own
	}
	return nil
}

// value reads any point without using the library, save for the coordinates of its own types.
func value(p any) (Pt, bool) {
	if o := base(p); o != nil {
		return o.pt, o.nap
	}
	q := inner(p)
	if q == nil {
		panic(fmt.Sprintf("VERIF-HARNESS unknown point type %T", p))
	}
	if rc.Copy(q).IsNaP() {
		return rc.Torsion[0], true
	}
	v, err := rc.Decode(q)
	if err != nil {
		panic(fmt.Sprintf("%T: %v", p, err))
	}
	return v, false
}

// is checks that p, of any type, denotes the point want.
func is(c *kit.C, p any, want Pt, format string, args ...any) {
	if o := base(p); o != nil {
		c.Check(!o.nap && rc.Eq(o.pt, want), "%s: is %v (invalid: %v), expected %v", fmt.Sprintf(format, args...), o.pt, o.nap, want)
		return
	}
	rc.Is(c, inner(p), want, format, args...)
}

// shape is a type of points: the six of the library, those that embed them, and those of the tests.
type shape int

const (
	embedding shape = 6
	written   shape = 12
	shapes    shape = 18
)

func (s shape) String() string {
	if s < embedding {
		return rc.Kind(s).String()
	}
	if s < written {
		return "type embedding " + rc.Kind(s-embedding).String()
	}
	return [...]string{"own type with infinity", "own type with infinity and T", "own finite type", "own finite type with T", "own subgroup type", "own subgroup type with T"}[s-written]
}

// kind of the library that holds the same points
func (s shape) like() rc.Kind {
	if s < written {
		return rc.Kind(s % 6)
	}
	return [...]rc.Kind{rc.EF, rc.TF, rc.AF, rc.AF, rc.ES, rc.TS}[s-written]
}

func (s shape) empty(c *kit.C) CP {
	if s < embedding {
		return rc.New(rc.Kind(s))
	}
	tag := "tag"
	switch s {
	case 6:
		return &tagAF{tag: tag}
	case 7:
		return &tagAS{tag: tag}
	case 8:
		return &tagTF{tag: tag}
	case 9:
		return &tagTS{tag: tag}
	case 10:
		return &tagEF{tag: tag}
	case 11:
		return &tagES{tag: tag}
	}
	k := s.like()
	o := own{pt: rc.Torsion[0], nap: true, sub: k.Sub(), inf: k.Inf(), rnd: rand.New(rand.NewSource(int64(kit.Int(c, "seed", 0, 1<<30))))}
	o.enter("")
	switch s - written {
	case 0:
		return &ownE{o}
	case 1:
		return &ownTE{ownT{o}}
	case 2:
		return &ownFinite{o}
	case 3:
		return &ownFiniteT{ownT{o}}
	case 4:
		return &ownSub{o}
	}
	return &ownSubT{ownT{o}}
}

func (s shape) make(c *kit.C, p Pt) CP {
	x := s.empty(c)
	if o := base(x); o != nil {
		o.pt, o.nap = p, false
	} else {
		rc.Assign(inner(x), rc.Make(c, s.like(), p))
	}
	return x
}

// drawShape draws a type; a foreign one if must.
func drawShape(c *kit.C, label string, must, sub bool) shape {
	lo := 0
	if must {
		lo = int(embedding)
	}
	s := shape(kit.Int(c, label, lo, int(shapes)-1))
	if sub && !s.like().Sub() {
		if s < written {
			return s + 1
		}
		return written + 4 + s%2
	}
	return s
}

// ownOps: points of other types as operands.
func ownOps(c *kit.C) {
	zk := kind(c, "receiver")
	o := kit.Int(c, "op", 0, 8)
	names := [...]string{"Add", "Sub", "AddEq", "SubEq", "Neg", "Double", "SetFrom", "SetFromSubgroupPoint", "Endo"}
	binary := o < 2
	mixed := kit.Int(c, "mixed", 0, 11) == 0 // operands that a receiver for the subgroup refuses
	sub := zk.Sub() && !mixed && o != 5 && o != 7
	xs := drawShape(c, "xtype", !binary || kit.Bool(c, "xown"), sub)
	p := rc.DrawFor(c, xs.like())
	if o == 7 && !p.InSub() && kit.Bool(c, "fix") {
		p = rc.DrawSub(c)
	}
	x := xs.make(c, p.Pt)
	y, ys, q := x, xs, p
	if binary && kit.Int(c, "same", 0, 7) != 0 {
		ys = drawShape(c, "ytype", xs < embedding || kit.Bool(c, "yown"), sub)
		q = relatedFor(c)(ys.like(), p)
		y = ys.make(c, q.Pt)
	}
	r := rc.DrawFor(c, zk)
	z := rc.Make(c, zk, r.Pt)
	if kit.Int(c, "new", 0, 3) == 0 && o != 2 && o != 3 && o != 7 {
		z = rc.New(zk)
	}
	desc := fmt.Sprintf("%s of %v = %v", names[o], xs, p)
	if binary {
		desc += fmt.Sprintf(" and %v = %v", ys, q)
	}
	if o == 2 || o == 3 || o == 7 {
		desc += fmt.Sprintf(" into %v = %v", zk, r)
	} else {
		desc += fmt.Sprintf(" into %v", zk)
	}
	c.Case(generic(p.Pt) && generic(q.Pt), "%s", desc)
	c.Label(names[o])
	for _, s := range []shape{xs, ys} {
		c.LabelIf(s >= written, "own type")
		c.LabelIf(s >= embedding && s < written, "embedding type")
	}
	var want Pt
	trust := untrusted
	refuse := zk.Sub() && !(xs.like().Sub() && ys.like().Sub())
	answer := true
	switch o {
	case 0:
		want = rc.Add(p.Pt, q.Pt)
	case 1:
		want = rc.Sub(p.Pt, q.Pt)
	case 2:
		want = rc.Add(r.Pt, p.Pt)
	case 3:
		want = rc.Sub(r.Pt, p.Pt)
	case 4:
		want = rc.Neg(p.Pt)
	case 5:
		want, refuse = rc.Dbl(p.Pt), false
	case 6:
		want = p.Pt
	case 7:
		want, refuse = p.Pt, false
		if p.InSub() && kit.Bool(c, "trusted") {
			trust = trusted
		}
		if !p.InSub() {
			want, answer = r.Pt, false
		}
	case 8:
		if !refuse {
			w := rc.New(rc.EF)
			w.Endo(rc.Make(c, xs.like(), p.Pt))
			var err error
			want, err = rc.Decode(w)
			c.Check(err == nil, "Endo of %v: %v", p, err)
			if p.K != nil {
				want = rc.MulGen(new(Int).Mul(p.K, rc.Lambda))
				if p.Tor >= 2 {
					want = rc.Add(want, rc.Torsion[1])
				}
			}
		}
	}
	n, restore := rc.Watch()
	defer restore()
	e, did := kit.Panics(func() {
		switch o {
		case 0:
			z.Add(x, y)
		case 1:
			z.Sub(x, y)
		case 2:
			z.AddEq(x)
		case 3:
			z.SubEq(x)
		case 4:
			z.Neg(x)
		case 5:
			z.Double(x)
		case 6:
			z.SetFrom(x)
		case 7:
			got := z.SetFromSubgroupPoint(x, trust)
			c.Check(got == answer, "%s: answers %v", desc, got)
		case 8:
			z.Endo(x)
		}
	})
	if refuse || !zk.Inf() && want.Inf() {
		c.Label("refused")
		c.Check(did, "%s: not refused, gives %v", desc, z)
	} else {
		c.Check(!did, "%s: panics: %v", desc, e)
		rc.Is(c, z, want, "%s", desc)
		c.Check(validate(z), "%s: the result is not valid", desc)
	}
	c.Check(*n == 0, "%s: reports an invalid point", desc)
	is(c, x, p.Pt, "%s: first operand afterwards", desc)
	is(c, y, q.Pt, "%s: second operand afterwards", desc)
}

// ownSelf: a type that embeds a point, as receiver and operand at once.
func ownSelf(c *kit.C) {
	s := embedding + shape(kit.Int(c, "type", 0, 5))
	k := s.like()
	p := rc.DrawFor(c, k)
	x := s.make(c, p.Pt)
	ys := drawShape(c, "ytype", false, k.Sub())
	q := relatedFor(c)(ys.like(), p)
	y := ys.make(c, q.Pt)
	names := [...]string{"Add(x,x)", "Add(x,y)", "Add(y,x)", "Sub(x,x)", "Sub(x,y)", "Sub(y,x)", "AddEq(x)", "SubEq(x)", "Neg(x)", "Double(x)", "SetFrom(x)", "SetFromSubgroupPoint(x)", "IsEqual(x)", "Endo(x)", "NegEq()", "DoubleEq()"}
	o := kit.Int(c, "op", 0, len(names)-1)
	desc := fmt.Sprintf("x.%s for x of %v = %v, y of %v = %v", names[o], s, p, ys, q)
	var want Pt
	var f func()
	switch o {
	case 0:
		want, f = rc.Dbl(p.Pt), func() { x.Add(x, x) }
	case 1:
		want, f = rc.Add(p.Pt, q.Pt), func() { x.Add(x, y) }
	case 2:
		want, f = rc.Add(p.Pt, q.Pt), func() { x.Add(y, x) }
	case 3:
		want, f = rc.Torsion[0], func() { x.Sub(x, x) }
	case 4:
		want, f = rc.Sub(p.Pt, q.Pt), func() { x.Sub(x, y) }
	case 5:
		want, f = rc.Sub(q.Pt, p.Pt), func() { x.Sub(y, x) }
	case 6:
		want, f = rc.Dbl(p.Pt), func() { x.AddEq(x) }
	case 7:
		want, f = rc.Torsion[0], func() { x.SubEq(x) }
	case 8:
		want, f = rc.Neg(p.Pt), func() { x.Neg(x) }
	case 9:
		want, f = rc.Dbl(p.Pt), func() { x.Double(x) }
	case 10:
		want, f = p.Pt, func() { x.SetFrom(x) }
	case 11:
		want, f = p.Pt, func() {
			got := x.SetFromSubgroupPoint(x, untrusted)
			c.Check(got == p.InSub(), "%s: answers %v", desc, got)
		}
	case 12:
		want, f = p.Pt, func() { c.Check(x.IsEqual(x), "%s: is false", desc) }
	case 13:
		w := rc.Make(c, k, p.Pt)
		w.EndoEq()
		var err error
		want, err = rc.Decode(w)
		c.Check(err == nil, "%s: %v", desc, err)
		f = func() { x.Endo(x) }
	case 14:
		want, f = rc.Neg(p.Pt), x.NegEq
	case 15:
		want, f = rc.Dbl(p.Pt), x.DoubleEq
	}
	c.Case(generic(p.Pt), "%s", desc)
	if want.Inf() && !k.Inf() {
		return
	}
	n, restore := rc.Watch()
	defer restore()
	e, did := kit.Panics(f)
	c.Check(!did, "%s: panics: %v", desc, e)
	c.Check(*n == 0, "%s: reports an invalid point", desc)
	is(c, x, want, "%s", desc)
	c.Check(validate(x), "%s: the result is not valid", desc)
	is(c, y, q.Pt, "%s: y afterwards", desc)
}

func ownEqual(c *kit.C) {
	k := kind(c, "kind")
	s := drawShape(c, "type", true, false)
	p := rc.DrawFor(c, k)
	q := relatedFor(c)(s.like(), p)
	if kit.Int(c, "same", 0, 2) == 0 && rc.Fits(s.like(), p) {
		q = p
	}
	x, y := rc.Make(c, k, p.Pt), s.make(c, q.Pt)
	want := rc.Eq(p.Pt, q.Pt)
	desc := fmt.Sprintf("%v = %v and %v = %v", k, p, s, q)
	c.Case(true, "%s", desc)
	c.LabelIf(want, "equal")
	c.LabelIf(p.Inf() && q.Inf(), "both at infinity")
	n, restore := rc.Watch()
	defer restore()
	e, did := kit.Panics(func() {
		got := x.IsEqual(y)
		c.Check(got == want, "%s: IsEqual is %v", desc, got)
		if s < written {
			got = y.IsEqual(x)
			c.Check(got == want, "%s: IsEqual the other way round is %v", desc, got)
			c.Check(y.IsNeutralElement() == rc.Eq(q.Pt, rc.Torsion[0]) && y.IsAtInfinity() == q.Inf() && y.IsInSubgroup() == q.InSub(), "%s: the second one's predicates are wrong", desc)
		}
	})
	c.Check(!did, "%s: IsEqual panics: %v", desc, e)
	c.Check(*n == 0, "%s: reports an invalid point", desc)
	is(c, x, p.Pt, "%s: the first afterwards", desc)
	is(c, y, q.Pt, "%s: the second afterwards", desc)
}

// ownNaP: invalid points of other types.
func ownNaP(c *kit.C) {
	zk := kind(c, "receiver")
	o := kit.Int(c, "op", 0, 8)
	names := [...]string{"Add", "Add'", "Sub", "Sub'", "Neg", "Double", "SetFrom", "SetFromSubgroupPoint", "Endo"}
	s := drawShape(c, "type", true, zk.Sub() && o != 5 && o != 7 && kit.Int(c, "mixed", 0, 11) != 0)
	x := s.empty(c)
	ys := drawShape(c, "ytype", false, zk.Sub())
	q := rc.DrawFor(c, ys.like())
	y := ys.make(c, q.Pt)
	r := rc.DrawFor(c, zk)
	z := rc.Make(c, zk, r.Pt)
	desc := fmt.Sprintf("%s of an invalid point of %v into %v (other operand %v = %v)", names[o], s, zk, ys, q)
	c.Case(true, "%s", desc)
	c.Label(names[o])
	cmp := kit.Bool(c, "answer") // of the handler; comparisons give it
	n := 0
	old := curvePoints.SetNaPErrorHandler(func(_ string, comparison bool, _ ...curvePoints.CurvePointPtrInterfaceBaseRead) bool {
		n++
		return comparison && cmp
	})
	defer curvePoints.SetNaPErrorHandler(old)
	_, did := kit.Panics(func() {
		switch o {
		case 0:
			z.Add(x, y)
		case 1:
			z.Add(y, x)
		case 2:
			z.Sub(x, y)
		case 3:
			z.Sub(y, x)
		case 4:
			z.Neg(x)
		case 5:
			z.Double(x)
		case 6:
			z.SetFrom(x)
		case 7:
			c.Check(!z.SetFromSubgroupPoint(x, kit.Oneof(c, "trust", trusted, untrusted)), "%s succeeds", desc)
		case 8:
			z.Endo(x)
		}
	})
	if did {
		c.Label("refused")
		c.Check(o != 7, "%s panics", desc)
	} else if o == 7 {
		c.Check(n > 0, "%s is not reported", desc)
		rc.Is(c, z, r.Pt, "%s: the receiver afterwards", desc)
	} else {
		if o == 6 && zk.Sub() && zk != rc.TS {
			// (the extended coordinates are copied as they are)
			c.Check(n > 0, "%s is not reported", desc)
		}
		c.Check(z.IsNaP() && !validate(z), "%s gives %v", desc, z)
	}
	// comparisons
	n = 0
	z = rc.Make(c, zk, r.Pt)
	e, did := kit.Panics(func() {
		got := z.IsEqual(x)
		c.Check(got == cmp, "%v = %v compared to an invalid point of %v: %v, the handler answers %v", zk, r, s, got, cmp)
	})
	c.Check(!did, "comparing with an invalid point of %v panics: %v", s, e)
	c.Check(n > 0, "comparing with an invalid point of %v is not reported", s)
	rc.Is(c, z, r.Pt, "after comparing with an invalid point")
}

func ownMap(c *kit.C) {
	s := drawShape(c, "type", true, false)
	p := rc.DrawFor(c, s.like())
	x := s.make(c, p.Pt)
	desc := fmt.Sprintf("MapToFieldElement of %v = %v", s, p)
	c.Case(generic(p.Pt), "%s", desc)
	var got FE
	_, did := kit.Panics(func() { got = curvePoints.MapToFieldElement(x) })
	if p.Inf() {
		c.Check(did, "%s: gives %v", desc, got)
		return
	}
	c.Check(!did, "%s panics", desc)
	px, py := p.Affine()
	want := m.Mul(px, m.Inv(py))
	c.Check(got.ToBigInt().Cmp(want) == 0, "%s: %v, expected %v", desc, got.ToBigInt(), want)
	is(c, x, p.Pt, "%s: the argument afterwards", desc)
}

func ownSlices(c *kit.C) {
	n := kit.Size(c, "len", 0, 5, 60)
	var pts []Pt
	var l []CP
	var names []string
	for i := 0; i < n; i++ {
		s := drawShape(c, "type", false, false)
		p := rc.DrawFor(c, s.like())
		pts, l, names = append(pts, p.Pt), append(l, s.make(c, p.Pt)), append(names, s.String())
	}
	c.Case(n >= 2, "%v, %v", names, pts)
	var v curvePoints.CurvePointSlice = curvePoints.GenericPointSlice(l)
	if kit.Bool(c, "ptr") {
		v = curvePoints.AsCurvePointPtrSlice(l)
	}
	c.Check(v.Len() == n, "length %d of %d", v.Len(), n)
	// a sum over the view, by the library
	acc := rc.New(kit.Oneof(c, "acc", rc.TF, rc.EF))
	acc.SetNeutral()
	want := rc.Torsion[0]
	for i := 0; i < n; i++ {
		c.Check(v.GetByIndex(i) == l[i], "element %d is another", i)
		acc.AddEq(v.GetByIndex(i))
		want = rc.Add(want, pts[i])
	}
	rc.Is(c, acc, want, "sum of %v, %v", names, pts)
	own := make([]tagES, n)
	w := curvePoints.AsCurvePointSlice[tagES, *tagES](own)
	t, ok := w.(interface{ GetByIndexTyped(int) *tagES })
	for i := range own {
		p := rc.DrawSub(c)
		w.GetByIndex(i).SetFrom(rc.Make(c, rc.AS, p.Pt))
		is(c, &own[i], p.Pt, "element %d of an embedding type", i)
		c.Check(!ok || t.GetByIndexTyped(i) == &own[i], "typed element %d of an embedding type is another", i)
	}
}

// ownSerial: points of other types are written and read like the library's.
func ownSerial(c *kit.C) {
	ser, name := pointserializer.BanderwagonShort, "short"
	if kit.Bool(c, "long") {
		ser, name = pointserializer.BanderwagonLong, "long"
	}
	s := drawShape(c, "type", true, kit.Bool(c, "sub"))
	p := rc.DrawFor(c, s.like())
	bad := kit.Int(c, "invalid", 0, 9) == 0
	x, twin := s.make(c, p.Pt), rc.Make(c, s.like(), p.Pt)
	if bad {
		x, twin = s.empty(c), rc.New(s.like())
	}
	t := drawShape(c, "target", true, false)
	desc := fmt.Sprintf("%s format, %v = %v (invalid: %v)", name, s, p, bad)
	c.Case(generic(p.Pt) && !bad && p.InSub(), "%s, into %v", desc, t)
	_, restore := rc.Watch()
	defer restore()
	var a, b bytes.Buffer
	n1, e1 := ser.SerializeCurvePoint(&a, x)
	n2, e2 := ser.SerializeCurvePoint(&b, twin)
	c.Check(n1 == n2 && bytes.Equal(a.Bytes(), b.Bytes()), "%s: writes %x, for the library's type %x", desc, a.Bytes(), b.Bytes())
	c.Check((e1 == nil) == (e2 == nil), "%s: error %v, for the library's type %v", desc, e1, e2)
	if !bad {
		is(c, x, p.Pt, "%s: the point after writing", desc)
	}
	if e1 != nil {
		for _, k := range []error{be.ErrCannotSerializeNaP, be.ErrCannotSerializePointAtInfinity, be.ErrWillNotSerializePointOutsideSubgroup} {
			c.Check(errors.Is(e1, k) == errors.Is(e2, k), "%s: error %v, for the library's type %v", desc, e1, e2)
		}
		c.Label("refused")
		return
	}
	data := a.Bytes()
	if kit.Int(c, "flip", 0, 2) == 0 {
		i := kit.Int(c, "bit", 0, 8*len(data)-1)
		data[i/8] ^= 1 << (i % 8)
		c.Label("altered")
	}
	trust := untrusted
	if kit.Bool(c, "trusted") && bytes.Equal(data, b.Bytes()) {
		trust = trusted
	}
	y, like := t.empty(c), rc.New(t.like())
	r := rc.DrawFor(c, t.like()).Pt
	if kit.Bool(c, "used") {
		y, like = t.make(c, r), rc.Make(c, t.like(), r)
	}
	n1, e3 := ser.DeserializeCurvePoint(bytes.NewReader(data), trust, y)
	n2, e4 := ser.DeserializeCurvePoint(bytes.NewReader(data), trust, like)
	c.Check(n1 == n2 && (e3 == nil) == (e4 == nil), "%x in %s format: %d bytes and error %v for %v, %d bytes and error %v for %v", data, name, n1, e3, t, n2, e4, t.like())
	v, n3 := value(y)
	w, n4 := value(like)
	c.Check(n3 == n4 && (n3 || rc.Eq(v, w)), "%x in %s format: %v in %v, %v in %v", data, name, v, t, w, t.like())
	if e3 == nil && trust == trusted {
		is(c, y, p.Pt, "%s: read back into %v", desc, t)
	}
}
