//go:build go1.23

package refcurve

import (
	"fmt"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type CP = curvePoints.CurvePointPtrInterface
type CPR = curvePoints.CurvePointPtrInterfaceRead
type FE = fieldElements.FieldElement

// Kind is one of the six point types.
type Kind int

const (
	AF Kind = iota // axtw_full
	AS             // axtw_subgroup
	TF
	TS
	EF
	ES
	NKinds
)

var KindNames = [NKinds]string{"axtw_full", "axtw_subgroup", "xtw_full", "xtw_subgroup", "efgh_full", "efgh_subgroup"}

func (k Kind) String() string { return KindNames[k] }
func (k Kind) Sub() bool      { return k%2 == 1 }
func (k Kind) Inf() bool      { return k == TF || k == EF }

func New(k Kind) CP {
	switch k {
	case AF:
		return new(curvePoints.Point_axtw_full)
	case AS:
		return new(curvePoints.Point_axtw_subgroup)
	case TF:
		return new(curvePoints.Point_xtw_full)
	case TS:
		return new(curvePoints.Point_xtw_subgroup)
	case EF:
		return new(curvePoints.Point_efgh_full)
	case ES:
		return new(curvePoints.Point_efgh_subgroup)
	}
	panic("kind")
}

// Copy copies the point without using the library's code.
func Copy(p any) CP {
	switch p := p.(type) {
	case *curvePoints.Point_axtw_full:
		q := *p
		return &q
	case *curvePoints.Point_axtw_subgroup:
		q := *p
		return &q
	case *curvePoints.Point_xtw_full:
		q := *p
		return &q
	case *curvePoints.Point_xtw_subgroup:
		q := *p
		return &q
	case *curvePoints.Point_efgh_full:
		q := *p
		return &q
	case *curvePoints.Point_efgh_subgroup:
		q := *p
		return &q
	}
	panic(fmt.Sprintf("VERIF-HARNESS unknown point type %T", p))
}

// Assign sets *dst = *src without using the library's code; the kinds must agree.
func Assign(dst, src CP) {
	switch p := dst.(type) {
	case *curvePoints.Point_axtw_full:
		*p = *src.(*curvePoints.Point_axtw_full)
	case *curvePoints.Point_axtw_subgroup:
		*p = *src.(*curvePoints.Point_axtw_subgroup)
	case *curvePoints.Point_xtw_full:
		*p = *src.(*curvePoints.Point_xtw_full)
	case *curvePoints.Point_xtw_subgroup:
		*p = *src.(*curvePoints.Point_xtw_subgroup)
	case *curvePoints.Point_efgh_full:
		*p = *src.(*curvePoints.Point_efgh_full)
	case *curvePoints.Point_efgh_subgroup:
		*p = *src.(*curvePoints.Point_efgh_subgroup)
	}
}

// KindOf is the inverse of New.
func KindOf(p any) Kind {
	switch p.(type) {
	case *curvePoints.Point_axtw_full:
		return AF
	case *curvePoints.Point_axtw_subgroup:
		return AS
	case *curvePoints.Point_xtw_full:
		return TF
	case *curvePoints.Point_xtw_subgroup:
		return TS
	case *curvePoints.Point_efgh_full:
		return EF
	case *curvePoints.Point_efgh_subgroup:
		return ES
	}
	return NKinds
}

type extended interface {
	XYTZ_projective() (FE, FE, FE, FE)
}

// FromExt reads extended coordinates X:Y:T:Z as a point; it insists on all invariants.
func FromExt(x, y, t, z *Int) (Pt, error) {
	if x.Sign() == 0 && y.Sign() == 0 {
		return Pt{}, fmt.Errorf("not a point: X = Y = 0")
	}
	if m.Mul(x, y).Cmp(m.Mul(t, z)) != 0 {
		return Pt{}, fmt.Errorf("X*Y != T*Z for (%x:%x:%x:%x)", x, y, t, z)
	}
	l := m.Add(m.Mul(A, m.Mul(x, x)), m.Mul(y, y))
	r := m.Add(m.Mul(z, z), m.Mul(D, m.Mul(t, t)))
	if l.Cmp(r) != 0 {
		return Pt{}, fmt.Errorf("(%x:%x:%x:%x) is not on the curve", x, y, t, z)
	}
	p := Pt{x, z, y, z}
	if x.Sign() == 0 && z.Sign() == 0 {
		p.X, p.Z = t, y
	}
	if y.Sign() == 0 && z.Sign() == 0 {
		p.Y, p.T = t, x
	}
	return p, nil
}

// Decode reads the point from a copy of p.
func Decode(p any) (pt Pt, err error) {
	q := Copy(p)
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("reading the coordinates panics: %v", e)
		}
	}()
	x, y, t, z := q.(extended).XYTZ_projective()
	return FromExt(x.ToBigInt(), y.ToBigInt(), t.ToBigInt(), z.ToBigInt())
}

// Is checks that p denotes the point want.
func Is(c *kit.C, p any, want Pt, format string, args ...any) {
	got, err := Decode(p)
	if err != nil {
		c.Fatalf("%s: %v, expected %v", fmt.Sprintf(format, args...), err, want)
	}
	if !Eq(got, want) {
		c.Fatalf("%s: is %v, expected %v", fmt.Sprintf(format, args...), got, want)
	}
}

// Known is a point with its discrete logarithm (unless nil) and torsion part.
type Known struct {
	Pt
	K   *Int // nil: unknown
	Tor int  // index into Torsion; -1: unknown
}

func (k Known) InSub() bool {
	if k.Tor >= 0 {
		return k.Tor == 0
	}
	return InSubgroup(k.Pt)
}

func known(k *Int, tor int) Known {
	k = new(Int).Mod(k, Order)
	p := MulGen(k)
	if tor != 0 {
		p = Add(p, Torsion[tor])
	}
	return Known{Pt: p, K: k, Tor: tor}
}

// Scalar draws a discrete logarithm with a short reference computation, mostly.
func Scalar(c *kit.C) *Int {
	k := new(Int)
	switch kit.Int(c, "scalar", 0, 9) {
	case 0:
		return big.NewInt(int64(kit.Int(c, "small", -9, 9)))
	case 1: // dense
		k = m.U256(c)
	default:
		for i := kit.Int(c, "terms", 1, 4); i > 0; i-- {
			t := new(Int).Lsh(one, uint(kit.Int(c, "bit", 0, 252)))
			if kit.Bool(c, "neg") {
				t.Neg(t)
			}
			k.Add(k, t)
		}
	}
	return k.Mod(k, Order)
}

// DrawSub draws a point of the subgroup.
func DrawSub(c *kit.C) Known {
	switch kit.Int(c, "subpoint", 0, 19) {
	case 0:
		return known(zero, 0)
	case 1:
		p := fromRandomX(c)
		return Known{Pt: Dbl(p.Pt), Tor: 0}
	}
	return known(Scalar(c), 0)
}

func fromRandomX(c *kit.C) Known {
	x := m.Residue(c)
	for {
		if y, ok := FromX(x); ok {
			if kit.Bool(c, "ysign") {
				y = m.Neg(y)
			}
			p := FromAffine(x, y)
			if x.Sign() == 0 {
				if y.Cmp(one) == 0 {
					return known(zero, 0)
				}
				return known(zero, 1)
			}
			return Known{Pt: p, Tor: -1}
		}
		x = m.Add(x, one)
	}
}

// DrawFinite draws a finite point of the curve.
func DrawFinite(c *kit.C) Known {
	switch kit.Int(c, "point", 0, 19) {
	case 0:
		return known(zero, kit.Int(c, "tor", 0, 1))
	case 1, 2:
		return fromRandomX(c)
	}
	k := Scalar(c)
	if k.Sign() == 0 {
		return known(k, kit.Int(c, "tor", 0, 1))
	}
	return known(k, kit.Int(c, "tor", 0, 3))
}

// Draw draws a point of the curve, possibly at infinity.
func Draw(c *kit.C) Known {
	if kit.Int(c, "inf", 0, 9) == 0 {
		return known(zero, kit.Int(c, "tor", 0, 3))
	}
	return DrawFinite(c)
}

// DrawFor draws a point that the kind can hold.
func DrawFor(c *kit.C, k Kind) Known {
	switch {
	case k.Sub():
		return DrawSub(c)
	case k.Inf():
		return Draw(c)
	}
	return DrawFinite(c)
}

// Related draws a point that stands in a special relation to p, or any point.
func Related(c *kit.C, p Known) Known {
	neg := func(q Known) Known {
		q.Pt = Neg(q.Pt)
		if q.K != nil {
			q.K = new(Int).Mod(new(Int).Neg(q.K), Order)
		}
		return q
	}
	tor := func(q Known, i int) Known {
		q.Pt = Add(q.Pt, Torsion[i])
		if q.Tor >= 0 {
			q.Tor ^= i
		}
		return q
	}
	switch kit.Int(c, "related", 0, 7) {
	case 0:
		return p
	case 1:
		return neg(p)
	case 2:
		return tor(p, kit.Int(c, "t", 1, 3))
	case 3:
		return tor(neg(p), kit.Int(c, "t", 1, 3))
	case 4:
		q := Known{Pt: Dbl(p.Pt), Tor: 0}
		if p.K != nil {
			q.K = new(Int).Mod(new(Int).Lsh(p.K, 1), Order)
		}
		return q
	}
	return Draw(c)
}

// Fits says whether the kind can hold the point.
func Fits(k Kind, p Known) bool {
	if k.Sub() {
		return p.InSub()
	}
	return k.Inf() || !p.Inf()
}

func fe(c *kit.C, v *Int) FE { return reffe.Of(m.Mod(v), kit.Bool(c, "alt")) }

func scale(c *kit.C) *Int {
	if kit.Bool(c, "scaled") {
		if s := m.Residue(c); s.Sign() != 0 {
			return s
		}
	}
	return one
}

// Make makes a point of the kind, in some internal representation of it.
func Make(c *kit.C, k Kind, p Pt) CP {
	q := New(k)
	mode := kit.Int(c, "make", 0, 3)
	if mode > 0 && RawAvailable {
		s := scale(c)
		// a subgroup-only type may hold P or P+A
		if k.Sub() && kit.Bool(c, "flip") {
			p = Add(p, Torsion[1])
		}
		switch k {
		case AF, AS:
			x, y := p.Affine()
			SetRaw(q, [4]FE{fe(c, x), fe(c, y), fe(c, m.Mul(x, y))})
		case TF, TS:
			sc := func(a, b *Int) FE { return fe(c, m.Mul(s, m.Mul(a, b))) }
			if p.Inf() {
				SetRaw(q, [4]FE{sc(p.X, p.T), {}, sc(p.X, p.Y), {}})
				break
			}
			x, y := p.Affine()
			SetRaw(q, [4]FE{sc(x, one), sc(y, one), sc(x, y), sc(one, one)})
		case EF, ES:
			s2 := scale(c)
			x, z, y, t := one, zero, p.Y, p.T
			if !p.Inf() {
				x, y = p.Affine()
				z, t = one, one
			}
			SetRaw(q, [4]FE{fe(c, m.Mul(s, x)), fe(c, m.Mul(s2, t)), fe(c, m.Mul(s, z)), fe(c, m.Mul(s2, y))})
		}
		return q
	}
	if p.Inf() {
		i := 2
		if Eq(p, Torsion[3]) {
			i = 3
		}
		var w interface {
			CP
			SetE1()
			SetE2()
		}
		switch k {
		case TF:
			w = new(curvePoints.Point_xtw_full)
		default:
			w = new(curvePoints.Point_efgh_full)
		}
		if i == 2 {
			w.SetE1()
		} else {
			w.SetE2()
		}
		return w
	}
	if mode == 2 { // without raw access: a representative that arithmetic leaves behind
		a, b := viaAPI(c, k, Sub(p, Gen)), viaAPI(c, k, Gen)
		if a != nil && b != nil {
			q.Add(a, b)
			return q
		}
	}
	return viaAPI(c, k, p)
}

func viaAPI(c *kit.C, k Kind, p Pt) CP {
	if p.Inf() {
		return nil
	}
	x, y := p.Affine()
	xf, yf := fe(c, x), fe(c, y)
	a, err := curvePoints.CurvePointFromXYAffine_full(&xf, &yf, common.TrustedInput)
	if err != nil {
		c.Fatalf("making the point (%x,%x) fails: %v", x, y, err)
	}
	if k == AF {
		return &a
	}
	q := New(k)
	if k.Sub() {
		if !q.SetFromSubgroupPoint(&a, common.TrustedInput) {
			c.Fatalf("making the subgroup point (%x,%x) fails", x, y)
		}
	} else {
		q.SetFrom(&a)
	}
	return q
}

// Watch installs a handler that counts the reports of invalid points; restore with the returned function.
func Watch() (count *int, restore func()) {
	n := 0
	old := curvePoints.SetNaPErrorHandler(func(string, bool, ...curvePoints.CurvePointPtrInterfaceBaseRead) bool { n++; return false })
	return &n, func() { curvePoints.SetNaPErrorHandler(old) }
}

// Exceptional draws a field element at which a term of a formula of the curve vanishes, or one of its constants. At the first, no
// finite point has this Y, since the denominator is zero.
func Exceptional(c *kit.C) *Int {
	v := kit.Oneof(c, "constant", m.Inv(root), m.Inv(root), root, A, D, m.Mul(A, D))
	switch kit.Int(c, "turned", 0, 4) {
	case 0, 1:
		v = m.Neg(v)
	case 2:
		v = m.Inv(v)
	}
	return new(Int).Set(v)
}
