//go:build go1.23

package curve

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

func TestP18(t *testing.T) {
	kit.Run(t, append(p18samplers,
		kit.Sub{Name: "queries", Quick: 4000, Fn: napQueries},
		kit.Sub{Name: "operations", Quick: 8000, Fn: napOps},
		kit.Sub{Name: "chains", Quick: 1500, Fn: napChain},
		kit.Sub{Name: "handler", Quick: 500, Fn: handlers},
	)...)
}

// makeNaP makes something of the type that is not a point: uninitialised, or with coordinates that sampling and arithmetic leave behind.
func makeNaP(c *kit.C, k rc.Kind) (CP, string) {
	p := rc.New(k)
	if !rc.RawAvailable || kit.Int(c, "zero", 0, 2) == 0 {
		return p, "uninitialised " + k.String()
	}
	any := func(label string) FE {
		switch kit.Int(c, label, 0, 3) {
		case 0:
			return FE{}
		case 1:
			return reffe.Of(big1, kit.Bool(c, "alt"))
		}
		f, _ := reffe.Draw(c)
		return f
	}
	z := reffe.Of(new(Int), kit.Bool(c, "altzero"))
	var v [4]FE
	switch k {
	case rc.AF, rc.AS:
		v = [4]FE{z, z, any("t"), {}}
	case rc.TF, rc.TS:
		v = [4]FE{z, z, any("t"), any("z")}
	default:
		a, b := any("a"), any("b")
		switch kit.Int(c, "pattern", 0, 2) {
		case 0:
			v = [4]FE{a, z, b, z}
		case 1:
			v = [4]FE{z, a, z, b}
		case 2:
			v = [4]FE{z, a, b, z}
		}
	}
	rc.SetRaw(p, v)
	return p, fmt.Sprintf("%v with coordinates (%v,%v,%v,%v)", k, &v[0], &v[1], &v[2], &v[3])
}

// answering is a handler that gives an answer to comparisons.
type watcher struct {
	calls  int
	answer bool
	old    curvePoints.NaPErrorHandler
}

func (w *watcher) restore() { curvePoints.SetNaPErrorHandler(w.old) }

func answering(answer bool) *watcher {
	w := &watcher{answer: answer}
	w.old = curvePoints.SetNaPErrorHandler(func(_ string, comparison bool, _ ...curvePoints.CurvePointPtrInterfaceBaseRead) bool {
		w.calls++
		return comparison && w.answer
	})
	return w
}

func napQueries(c *kit.C) {
	k := kind(c, "kind")
	x, desc := makeNaP(c, k)
	l := kind(c, "other")
	var y CP
	var p rc.Known
	other := ""
	if kit.Int(c, "both", 0, 3) == 0 {
		y, other = makeNaP(c, l)
	} else {
		p = rc.DrawFor(c, l)
		y = rc.Make(c, l, p.Pt)
		other = fmt.Sprintf("%v %v", l, p)
	}
	c.Case(true, "%s; %s", desc, other)
	c.Label(k.String())
	answer := kit.Bool(c, "answer") // of the handler to comparisons, whose result it is
	n := answering(answer)
	defer n.restore()
	step := func(name string, f func() bool, report, comparison bool) {
		n.calls = 0
		var got bool
		e, did := kit.Panics(func() { got = f() })
		c.Check(!did, "%s of %s panics: %v", name, desc, e)
		if comparison {
			c.Check(got == answer, "%s of %s is %v, the handler answers %v", name, desc, got, answer)
		} else if !answer {
			c.Check(!got, "%s of %s is true", name, desc)
		}
		c.Check(n.calls > 0 || !report, "%s of %s is not reported", name, desc)
	}
	for i := kit.Int(c, "queries", 1, 4); i > 0; i-- {
		switch kit.Int(c, "query", 0, 7) {
		case 0:
			step("IsNeutralElement", x.IsNeutralElement, true, true)
		case 1:
			step("IsAtInfinity", x.IsAtInfinity, true, false)
		case 2:
			step("IsInSubgroup", x.IsInSubgroup, true, false)
		case 3:
			if d, ok := x.(distinguish); ok && k.Inf() {
				step("IsE1", d.IsE1, true, false)
				step("IsE2", d.IsE2, true, false)
			}
		case 4:
			step("IsEqual to "+other, func() bool { return x.IsEqual(y) }, true, true)
		case 5:
			step("IsEqual from "+other, func() bool { return y.IsEqual(x) }, true, true)
		case 6:
			step("Validate", func() bool { return validate(x) }, false, false)
		case 7:
			step("IsEqual to itself", func() bool { return x.IsEqual(x) }, true, true)
		}
		c.Check(x.IsNaP(), "%s: IsNaP is false", desc)
	}
}

// napOps: an operation with an invalid operand gives an invalid result, or none.
func napOps(c *kit.C) {
	zk, xk, yk := kind(c, "zkind"), kind(c, "xkind"), kind(c, "ykind")
	which := kit.Int(c, "nap", 1, 3) // bit 0: x, bit 1: y
	o := kit.Int(c, "op", 0, 16)
	names := [...]string{"Add", "Sub", "Neg", "Double", "Endo", "SetFrom", "AddEq", "SubEq", "NegEq", "DoubleEq", "EndoEq", "SetFromSubgroupPoint untrusted", "SetFromSubgroupPoint trusted", "Clone", "NormalizeForZ", "NormalizeForY", "MapToFieldElement"}
	// a receiver for the subgroup takes operands of such types only, mostly
	if zk.Sub() && kit.Int(c, "mix", 0, 7) != 0 && o != 3 && o != 11 && o != 12 {
		xk, yk = xk|1, yk|1
	}
	inPlace := o >= 6 && o <= 10
	binary := o == 0 || o == 1 || o == 6 || o == 7
	if !binary {
		which = 1
	}
	if inPlace {
		xk = zk
	}
	var x, y CP
	var dx, dy string
	if which&1 != 0 {
		x, dx = makeNaP(c, xk)
	} else {
		p := rc.DrawFor(c, xk)
		x, dx = rc.Make(c, xk, p.Pt), fmt.Sprintf("%v %v", xk, p)
	}
	if which&2 != 0 {
		y, dy = makeNaP(c, yk)
	} else {
		p := rc.DrawFor(c, yk)
		y, dy = rc.Make(c, yk, p.Pt), fmt.Sprintf("%v %v", yk, p)
	}
	same := binary && which == 3 && (!zk.Sub() || xk.Sub()) && kit.Int(c, "same", 0, 1) == 0 // both operands are one variable
	if same {
		y, yk, dy = x, xk, "itself"
	}
	q := rc.DrawFor(c, zk).Pt
	z := rc.Make(c, zk, q)
	if inPlace {
		z = x
	} else if xk == zk && kit.Int(c, "alias", 0, 5) == 0 && which&1 != 0 && o < 11 {
		z = x
	}
	desc := fmt.Sprintf("%s of %s", names[o], dx)
	if binary {
		desc += " and " + dy
	}
	desc += fmt.Sprintf(" into %v", zk)
	c.Case(true, "%s", desc)
	c.Label(names[o])
	h := answering(kit.Bool(c, "answer"))
	defer h.restore()
	var ok bool
	_, did := kit.Panics(func() {
		switch o {
		case 0:
			z.Add(x, y)
		case 1:
			z.Sub(x, y)
		case 2:
			z.Neg(x)
		case 3:
			z.Double(x)
		case 4:
			z.Endo(x)
		case 5:
			z.SetFrom(x)
		case 6:
			z.AddEq(y)
		case 7:
			z.SubEq(y)
		case 8:
			z.NegEq()
		case 9:
			z.DoubleEq()
		case 10:
			z.EndoEq()
		case 11:
			ok = z.SetFromSubgroupPoint(x, untrusted)
		case 12:
			ok = z.SetFromSubgroupPoint(x, trusted)
		case 13:
			z = x.Clone()
		case 14:
			if w, has := x.(curvePoints.NormalizerForZ); has {
				ok = w.NormalizeForZ()
				z = x
			} else {
				z = x
				h.calls = 1
			}
		case 15:
			if w, has := x.(curvePoints.NormalizerForY); has {
				ok = w.NormalizeForY()
				z = x
			} else {
				z = x
				h.calls = 1
			}
		case 16:
			curvePoints.MapToFieldElement(x)
		}
	})
	if did {
		c.Label("refused")
		if o >= 11 && o <= 15 {
			c.Fatalf("%s panics", desc)
		}
		return
	}
	switch o {
	case 11, 12:
		c.Check(!ok, "%s succeeds", desc)
		c.Check(h.calls > 0, "%s is not reported", desc)
		if which&1 != 0 && z != x {
			rc.Is(c, z, q, "%s: the receiver afterwards", desc)
		}
		return
	case 14, 15:
		c.Check(!ok, "%s succeeds", desc)
		c.Check(h.calls > 0, "%s is not reported", desc)
	case 16:
		c.Fatalf("%s succeeds", desc)
	}
	h.answer = false
	c.Check(z.IsNaP(), "%s gives %v", desc, z)
	c.Check(!validate(z), "%s gives a valid point", desc)
	for _, w := range [...]rc.Kind{xk, yk, zk} {
		t := rc.New(w)
		t.SetNeutral()
		c.Check(!z.IsEqual(t) && !t.IsEqual(z), "%s gives something equal to the neutral element", desc)
	}
}

// napChain: once invalid, always invalid.
func napChain(c *kit.C) {
	k := kind(c, "kind")
	x, desc := makeNaP(c, k)
	c.Case(true, "%s", desc)
	_, restore := rc.Watch()
	defer restore()
	for i := kit.Int(c, "steps", 2, 12); i > 0; i-- {
		yk := kind(c, "ykind")
		if k.Sub() {
			yk |= 1
		}
		y := rc.Make(c, yk, rc.DrawFor(c, yk).Pt)
		s := kit.Int(c, "step", 0, 10)
		e, did := kit.Panics(func() {
			switch s {
			case 0:
				x.AddEq(y)
			case 1:
				x.SubEq(y)
			case 2:
				x.NegEq()
			case 3:
				x.DoubleEq()
			case 4:
				x.EndoEq()
			case 5:
				z := rc.New(k)
				z.Add(y, x)
				x = z
			case 6:
				z := rc.New(k)
				z.Sub(y, x)
				x = z
			case 7:
				l := kind(c, "to")
				if k.Sub() == l.Sub() {
					z := rc.New(l)
					z.SetFrom(x)
					x, k = z, l
				}
			case 8:
				x.IsNeutralElement()
				x = x.Clone()
			case 9:
				x.SubEq(x)
			case 10:
				x.AddEq(x)
			}
		})
		_ = e
		if did {
			return
		}
		c.Check(x.IsNaP() && !validate(x), "%s becomes %v by operation %d", desc, x, s)
		c.Check(!x.IsEqual(y) && !x.IsNeutralElement() && !x.IsAtInfinity() && !x.IsInSubgroup(), "%s becomes %v by operation %d, which passes for a point", desc, x, s)
	}
}

// handlers: installing returns the previous handler; only the latest is called.
func handlers(c *kit.C) {
	_, restore := rc.Watch()
	defer restore()
	steps := kit.Int(c, "steps", 1, 6)
	c.Case(steps > 1, "%d handlers", steps)
	last := -1
	called := -1
	comparison := false
	answer := false
	mk := func(i int) curvePoints.NaPErrorHandler {
		return func(reason string, cmp bool, pts ...curvePoints.CurvePointPtrInterfaceBaseRead) bool {
			called = i
			comparison = cmp
			return answer
		}
	}
	for i := 0; i < steps; i++ {
		old := curvePoints.SetNaPErrorHandler(mk(i))
		c.Check(old != nil, "installing handler %d returns nil", i)
		if last >= 0 {
			called = -1
			old("test", false)
			c.Check(called == last, "installing handler %d returns handler %d, expected %d", i, called, last)
		}
		last = i
		called = -1
		curvePoints.GetNaPErrorHandler()("test", true)
		c.Check(called == last && comparison, "the current handler is %d, expected %d", called, last)
		called = -1
		k := kind(c, "kind")
		x, desc := makeNaP(c, k)
		answer = kit.Bool(c, "answer")
		got := x.IsEqual(rc.Make(c, k, rc.DrawFor(c, k).Pt))
		c.Check(called == last, "%s: comparison reported to handler %d, expected %d", desc, called, last)
		c.Check(comparison && got == answer, "%s: the comparison gives %v, the handler answers %v (comparison=%v)", desc, got, answer, comparison)
	}
	// a handler may panic, and further uses work
	curvePoints.SetNaPErrorHandler(func(string, bool, ...curvePoints.CurvePointPtrInterfaceBaseRead) bool { panic("invalid point") })
	k := kind(c, "kind")
	x, desc := makeNaP(c, k)
	_, did := kit.Panics(func() { x.IsNeutralElement() })
	c.Check(did, "%s: the handler's panic is lost", desc)
}

func TestP19(t *testing.T) {
	kit.Run(t, append(p19samplers,
		kit.Sub{Name: "field", Quick: 600, Fn: sampleField},
		kit.Sub{Name: "points", Quick: 200, Fn: samplePoints},
	)...)
}

const nSamples = 160

func sampleField(c *kit.C) {
	seed := int64(kit.U64(c, "seed"))
	nonzero := kit.Bool(c, "nonzero")
	how := kit.Int(c, "how", 0, 2)
	c.Case(true, "seed %d, nonzero=%v, how=%d", seed, nonzero, how)
	draw := func(r *rand.Rand) FE {
		var f FE
		if kit.Bool(c, "dirty") && how == 0 {
			f, _ = reffe.Draw(c)
		}
		switch {
		case how == 0 && nonzero:
			f.SetRandomUnsafeNonZero(r)
		case how == 0:
			f.SetRandomUnsafe(r)
		case nonzero:
			f = fieldElements.CreateRandomNonZeroFieldElement_Unsafe[FE](r)
		default:
			f = fieldElements.CreateRandomFieldElement_Unsafe[FE](r)
		}
		return f
	}
	r1, r2 := rand.New(rand.NewSource(seed)), rand.New(rand.NewSource(seed))
	n := 6
	if kit.Int(c, "long", 0, 19) == 0 {
		n = nSamples
	}
	var vals []*Int
	for i := 0; i < n; i++ {
		a, b := draw(r1), draw(r2)
		v := a.ToBigInt()
		c.Check(v.Sign() >= 0 && v.Cmp(m.P) < 0, "sample %d from seed %d is %x", i, seed, v)
		c.Check(a.IsEqual(&b) && v.Cmp(b.ToBigInt()) == 0, "sample %d from seed %d is not reproducible: %v and %v", i, seed, &a, &b)
		c.Check(!nonzero || !a.IsZero(), "sample %d from seed %d is zero", i, seed)
		s, s2 := a, b
		s.Add(&a, &b)
		c.Check(s.ToBigInt().Cmp(m.Add(v, v)) == 0, "sample %d from seed %d does not add up", i, seed)
		s2.Mul(&a, &b)
		c.Check(s2.ToBigInt().Cmp(m.Mul(v, v)) == 0, "sample %d from seed %d does not multiply", i, seed)
		vals = append(vals, v)
	}
	if n < nSamples {
		return
	}
	c.Label("statistics")
	spread(c, vals, fmt.Sprintf("%d field elements from seed %d", n, seed))
	qr := [3]int{}
	for _, v := range vals {
		qr[m.Legendre(v)+1]++
	}
	c.Check(qr[0] > 0 && qr[2] > 0, "%d field elements from seed %d: quadratic characters %v", n, seed, qr)
}

// spread: no bit and no residue modulo a small number is fixed; no repetitions.
func spread(c *kit.C, vals []*Int, desc string) {
	for b := 0; b < m.P.BitLen(); b++ {
		ones := 0
		for _, v := range vals {
			ones += int(v.Bit(b))
		}
		c.Check(ones > 0 && ones < len(vals), "%s: bit %d is the same in all", desc, b)
	}
	for _, q := range []int64{3, 5, 7} {
		seen := map[int64]bool{}
		for _, v := range vals {
			seen[new(Int).Mod(v, new(Int).SetInt64(q)).Int64()] = true
		}
		c.Check(int64(len(seen)) == q, "%s: residues modulo %d: %v", desc, q, seen)
	}
	seen := map[string]bool{}
	for _, v := range vals {
		c.Check(!seen[v.String()], "%s: %x occurs twice", desc, v)
		seen[v.String()] = true
	}
}

func samplePoints(c *kit.C) {
	seed := int64(kit.U64(c, "seed"))
	sub := kit.Bool(c, "sub")
	c.Case(true, "seed %d, subgroup=%v", seed, sub)
	draw := func(r *rand.Rand) (CP, bool) {
		if sub {
			p := curvePoints.MakeRandomPointUnsafe_xtw_subgroup(r)
			return &p, p.IsInSubgroup()
		}
		p := curvePoints.MakeRandomPointUnsafe_xtw_full(r)
		return &p, p.IsInSubgroup()
	}
	r1, r2 := rand.New(rand.NewSource(seed)), rand.New(rand.NewSource(seed))
	n := 3
	if kit.Int(c, "long", 0, 9) == 0 {
		n = nSamples
	}
	count, restore := rc.Watch()
	defer restore()
	var xs, ys []*Int
	cosets := map[string]int{}
	signs := map[[2]int]int{}
	for i := 0; i < n; i++ {
		p, in := draw(r1)
		q, _ := draw(r2)
		a, err := rc.Decode(p)
		c.Check(err == nil && a.OnCurve(), "sample %d from seed %d (subgroup=%v): %v", i, seed, sub, err)
		b, err := rc.Decode(q)
		c.Check(err == nil && rc.Eq(a, b), "sample %d from seed %d (subgroup=%v) is not reproducible: %v and %v", i, seed, sub, a, b)
		c.Check(validate(p) && p.IsEqual(q), "sample %d from seed %d (subgroup=%v) is not valid", i, seed, sub)
		x, y := a.Affine()
		xs, ys = append(xs, x), append(ys, y)
		signs[[2]int{m.Sign(x), m.Sign(y)}]++
		if i < 3 || !sub {
			want := rc.InSubgroup(a)
			c.Check(!sub || want, "sample %d from seed %d is outside the subgroup: %v", i, seed, a)
			c.Check(in == want, "sample %d from seed %d: IsInSubgroup is %v", i, seed, in)
			if !sub {
				cl := "another"
				if n == nSamples {
					// which coset: multiply by the order
					t := rc.Mul(rc.Order, a)
					for j := range rc.Torsion {
						if rc.Eq(t, rc.Torsion[j]) {
							cl = fmt.Sprint(j)
						}
					}
				}
				cosets[cl]++
			}
		}
	}
	c.Check(*count == 0, "seed %d: reports invalid points", seed)
	if n < nSamples {
		return
	}
	c.Label("statistics")
	desc := fmt.Sprintf("%d points from seed %d, subgroup=%v", n, seed, sub)
	spread(c, xs, desc+": X")
	spread(c, ys, desc+": Y")
	c.Check(len(signs) == 4, "%s: signs of X and Y: %v", desc, signs)
	c.Check(sub || len(cosets) == 4, "%s: by cosets: %v", desc, cosets)
}

var _ = common.TrustedInput
