//go:build go1.23

package curve

import (
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
)

func TestP16(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "normalise", Quick: 4000, Fn: batchNormalise},
		kit.Sub{Name: "views", Quick: 2000, Fn: views},
	)
}

type pslice interface {
	GetByIndex(int) curvePoints.CurvePointPtrInterface
	Len() int
}

type ptr[T any] interface {
	*T
	curvePoints.CurvePointPtrInterface
}

// box keeps a slice of points of one type and the window of it that is looked at.
type box interface {
	at(i int) CP // of the window
	outside() []CP
	view() curvePoints.CurvePointSlice
	size() int
	typed(v any, i int) any
	ptrs() (curvePoints.CurvePointSlice, func(i int) any)
	set(i int, p CP)
}

type boxOf[T any, P ptr[T]] struct {
	all    []T
	lo, hi int
}

func (b *boxOf[T, P]) at(i int) CP { return P(&b.all[b.lo:b.hi:b.hi][i]) }
func (b *boxOf[T, P]) outside() (r []CP) {
	for i := range b.all {
		if i < b.lo || i >= b.hi {
			r = append(r, P(&b.all[i]))
		}
	}
	return
}
func (b *boxOf[T, P]) view() curvePoints.CurvePointSlice {
	return curvePoints.AsCurvePointSlice[T, P](b.all[b.lo:b.hi])
}
func (b *boxOf[T, P]) size() int { return b.hi - b.lo }
func (b *boxOf[T, P]) typed(v any, i int) any {
	if w, ok := v.(interface{ GetByIndexTyped(int) *T }); ok {
		return w.GetByIndexTyped(i)
	}
	return nil
}
func (b *boxOf[T, P]) ptrs() (curvePoints.CurvePointSlice, func(i int) any) {
	var l []P
	for i := b.lo; i < b.hi; i++ {
		l = append(l, P(&b.all[i]))
	}
	w := curvePoints.AsCurvePointPtrSlice[P](l)
	return w, func(i int) any { return w.GetByIndexTyped(i) }
}
func (b *boxOf[T, P]) set(i int, p CP) { b.all[i] = *any(p).(P) }

func newBox(c *kit.C, k rc.Kind, n int) box {
	lo := kit.Int(c, "before", 0, 2)
	total := lo + n + kit.Int(c, "after", 0, 2)
	switch k {
	case rc.AF:
		return &boxOf[curvePoints.Point_axtw_full, *curvePoints.Point_axtw_full]{make([]curvePoints.Point_axtw_full, total), lo, lo + n}
	case rc.AS:
		return &boxOf[curvePoints.Point_axtw_subgroup, *curvePoints.Point_axtw_subgroup]{make([]curvePoints.Point_axtw_subgroup, total), lo, lo + n}
	case rc.TF:
		return &boxOf[curvePoints.Point_xtw_full, *curvePoints.Point_xtw_full]{make([]curvePoints.Point_xtw_full, total), lo, lo + n}
	case rc.TS:
		return &boxOf[curvePoints.Point_xtw_subgroup, *curvePoints.Point_xtw_subgroup]{make([]curvePoints.Point_xtw_subgroup, total), lo, lo + n}
	case rc.EF:
		return &boxOf[curvePoints.Point_efgh_full, *curvePoints.Point_efgh_full]{make([]curvePoints.Point_efgh_full, total), lo, lo + n}
	}
	return &boxOf[curvePoints.Point_efgh_subgroup, *curvePoints.Point_efgh_subgroup]{make([]curvePoints.Point_efgh_subgroup, total), lo, lo + n}
}

func batchNormalise(c *kit.C) {
	k := kit.Oneof(c, "kind", rc.AF, rc.AS, rc.TF, rc.TF, rc.TF, rc.TS, rc.TS)
	forY := kit.Bool(c, "forY") && (k == rc.TF || k == rc.TS)
	n := kit.Oneof(c, "len", 0, 1, 2, 3, 3, 4, 5, 8, 13)
	if kit.Int(c, "long", 0, 99) == 0 {
		n = kit.Oneof(c, "longlen", 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400)
		if kit.Int(c, "longer", 0, 3) == 0 {
			n = kit.Oneof(c, "longerlen", kit.Int(c, "anylen", 14, 700), 511, 512, 513, 1000, 1023, 1024, 1025, 2049)
		}
	}
	b := newBox(c, k, n)
	failRate := kit.Int(c, "failures", 0, 3)
	var pts []Pt
	nap := make([]bool, n)
	var expect []int
	xtw := k == rc.TF || k == rc.TS
	naps := 0
	for i := 0; i < n; i++ {
		var p rc.Known
		if i < 13 {
			p = rc.DrawFor(c, k)
		} else {
			p = rc.Known{Pt: pts[kit.Int(c, "same as", 0, i-1)]}
		}
		if failRate > 0 && k == rc.TF && kit.Int(c, "inf", 0, 3) < failRate {
			p = rc.Known{Pt: rc.Torsion[kit.Int(c, "E", 2, 3)]}
		}
		pts = append(pts, p.Pt)
		if failRate > 0 && xtw && kit.Int(c, "nap", 0, 7) < failRate {
			nap[i] = true
			naps++
			expect = append(expect, i)
			continue // stays uninitialised
		}
		rc.Assign(b.at(i), rc.Make(c, k, p.Pt))
		if p.Inf() {
			expect = append(expect, i)
		}
	}
	type pair struct{ now, before CP }
	var rest []pair
	for _, q := range b.outside() {
		rc.Assign(q, rc.Make(c, k, rc.DrawFor(c, k).Pt))
		rest = append(rest, pair{q, rc.Copy(q)})
	}
	desc := fmt.Sprintf("%d points of type %v, forY=%v, failing %v", n, k, forY, expect)
	c.Case(n >= 2, "%s: %v", desc, pts)
	c.LabelIf(len(expect) > 1, "several failures")
	count, restore := rc.Watch()
	defer restore()
	v := b.view()
	var got []int
	if forY {
		w, ok := v.(curvePoints.BatchNormalizerForY)
		c.Check(ok, "%v has no BatchNormalizeForY", k)
		got = w.BatchNormalizeForY()
	} else {
		w, ok := v.(curvePoints.BatchNormalizerForZ)
		c.Check(ok, "%v has no BatchNormalizeForZ", k)
		got = w.BatchNormalizeForZ()
	}
	c.Check(sort.IntsAreSorted(got) && (len(got) == len(expect)) && fmt.Sprint(got) == fmt.Sprint(append([]int{}, expect...)), "%s: reports %v", desc, got)
	c.Check((*count > 0) == (naps > 0), "%s: calls the handler %d times, has %d invalid points", desc, *count, naps)
	for i := 0; i < n; i++ {
		x := b.at(i)
		if nap[i] {
			c.Check(x.IsNaP() && !validate(x), "%s: point %d, invalid, becomes %v", desc, i, x)
			continue
		}
		rc.Is(c, x, pts[i], "%s: point %d", desc, i)
		c.Check(validate(x), "%s: point %d is not valid", desc, i)
		// one by one
		y := rc.Make(c, k, pts[i])
		var ok bool
		var co FE
		if forY {
			ok = y.(curvePoints.NormalizerForY).NormalizeForY()
			co = x.Y_decaf_projective()
		} else {
			ok = y.(curvePoints.NormalizerForZ).NormalizeForZ()
			co = x.Z_decaf_projective()
		}
		c.Check(ok == !pts[i].Inf(), "%s: point %d on its own: %v", desc, i, ok)
		c.Check(!ok || co.IsOne(), "%s: point %d has the coordinate %v", desc, i, &co)
		c.Check(x.IsEqual(y), "%s: point %d is not what it becomes on its own", desc, i)
	}
	for _, q := range rest {
		c.Check(reflect.DeepEqual(q.now, q.before), "%s: changes points that are not in the list", desc)
	}
	if again, ok := v.(curvePoints.BatchNormalizerForZ); ok && kit.Bool(c, "again") {
		got2 := again.BatchNormalizeForZ()
		c.Check(len(got2) == len(expect), "%s: the second time reports %v", desc, got2)
		for i := 0; i < n; i++ {
			if !nap[i] {
				rc.Is(c, b.at(i), pts[i], "%s, then once more: point %d", desc, i)
			}
		}
	}
}

// wrapped is a point type of the user's own.
type wrapped struct{ curvePoints.Point_xtw_full }

func ownType(c *kit.C) {
	l := make([]wrapped, kit.Size(c, "len", 0, 5, 300))
	v := curvePoints.AsCurvePointSlice[wrapped, *wrapped](l)
	c.Case(len(l) >= 2, "view of %d points of another type", len(l))
	c.Check(v.Len() == len(l), "view of %d points of another type has length %d", len(l), v.Len())
	for i := range l {
		c.Check(v.GetByIndex(i) == curvePoints.CurvePointPtrInterface(&l[i]), "view of points of another type: element %d is another", i)
		p := rc.DrawFor(c, rc.TF).Pt
		v.GetByIndex(i).SetFrom(rc.Make(c, rc.TF, p))
		rc.Is(c, &l[i].Point_xtw_full, p, "element %d set through the view", i)
	}
	_, did := kit.Panics(func() { v.GetByIndex(len(l)) })
	c.Check(did, "view of %d points of another type: one more element exists", len(l))
}

func views(c *kit.C) {
	if kit.Int(c, "own", 0, 15) == 0 {
		ownType(c)
		return
	}
	k := kind(c, "kind")
	n := kit.Size(c, "len", 0, 6, 60)
	b := newBox(c, k, n)
	var pts []Pt
	for i := 0; i < n; i++ {
		p := rc.DrawFor(c, k).Pt
		pts = append(pts, p)
		rc.Assign(b.at(i), rc.Make(c, k, p))
	}
	var v curvePoints.CurvePointSlice
	typed := func(int) any { return nil }
	how := kit.Int(c, "how", 0, 3)
	switch how {
	case 0:
		v = b.view()
		typed = func(i int) any { return b.typed(v, i) }
	case 1:
		v, typed = b.ptrs()
	case 2:
		var g curvePoints.GenericPointSlice
		for i := 0; i < n; i++ {
			g = append(g, b.at(i))
		}
		v = g
	case 3:
		var g []curvePoints.CurvePointPtrInterface
		for i := 0; i < n; i++ {
			g = append(g, b.at(i))
		}
		v = curvePoints.AsCurvePointPtrSlice(g)
	}
	c.Case(n >= 2, "view %d of %d points of type %v: %v", how, n, k, pts)
	c.Check(v.Len() == n, "view %d has length %d of %d", how, v.Len(), n)
	for i := 0; i < n; i++ {
		c.Check(v.GetByIndex(i) == b.at(i), "view %d of %v: element %d is another", how, k, i)
		if x := typed(i); how < 2 {
			c.Check(x == any(b.at(i)), "view %d of %v: typed element %d is another", how, k, i)
		}
	}
	for _, i := range []int{-1, n, n + 1} {
		_, did := kit.Panics(func() { v.GetByIndex(i) })
		c.Check(did, "view %d of %d elements: element %d exists", how, n, i)
	}
	// changes are seen on both sides
	for s := kit.Int(c, "changes", 0, 3); s > 0 && n > 0; s-- {
		i := kit.Int(c, "which", 0, n-1)
		p := rc.DrawFor(c, k).Pt
		if kit.Bool(c, "through the view") {
			v.GetByIndex(i).SetFrom(rc.Make(c, k, p))
		} else {
			rc.Assign(b.at(i), rc.Make(c, k, p))
		}
		pts[i] = p
	}
	for i := 0; i < n; i++ {
		rc.Is(c, b.at(i), pts[i], "element %d of the list", i)
		rc.Is(c, v.GetByIndex(i), pts[i], "element %d of view %d", i, how)
	}
}
