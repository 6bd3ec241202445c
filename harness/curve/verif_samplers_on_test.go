//go:build go1.23 && verif_samplers

package curve

import (
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
)

var (
	p18samplers = []kit.Sub{{Name: "detectors", Quick: 1500, Fn: detectors}}
	p19samplers = []kit.Sub{{Name: "samplers", Quick: 600, Fn: samplers}}
)

// samplers: the samplers of each type of points.
func samplers(c *kit.C) {
	k := kind(c, "kind")
	seed := int64(kit.U64(c, "seed"))
	c.Case(true, "%v, seed %d", k, seed)
	c.Label(k.String())
	n, restore := rc.Watch()
	defer restore()
	r1, r2 := rand.New(rand.NewSource(seed)), rand.New(rand.NewSource(seed))
	seen := map[string]bool{}
	for i := 0; i < 3; i++ {
		p, q := rc.New(k), rc.New(k)
		curvePoints.VerifSample(p, r1)
		curvePoints.VerifSample(q, r2)
		a, err := rc.Decode(p)
		c.Check(err == nil && a.OnCurve(), "%v, seed %d, sample %d: %v, %v", k, seed, i, a, err)
		c.Check(!k.Sub() || rc.InSubgroup(a), "%v, seed %d, sample %d: %v is outside the subgroup", k, seed, i, a)
		c.Check(validate(p) && !p.IsNaP(), "%v, seed %d, sample %d: %v is not valid", k, seed, i, a)
		rc.Is(c, q, a, "%v, seed %d, sample %d with a second source", k, seed, i)
		c.Check(!seen[a.String()], "%v, seed %d: %v again", k, seed, a)
		seen[a.String()] = true
		for j := 0; j < 3; j++ {
			curvePoints.VerifRerandomize(p, r1)
			curvePoints.VerifRerandomize(q, r2)
			rc.Is(c, p, a, "%v, seed %d, sample %d in another representation", k, seed, i)
			c.Check(validate(p) && p.IsEqual(q), "%v, seed %d, sample %d in another representation: not valid", k, seed, i)
		}
	}
	c.Check(*n == 0, "%v, seed %d: reports invalid points", k, seed)
	// what is not a point
	i := kit.Int(c, "index", 0, 60)
	p := rc.New(k)
	curvePoints.VerifSampleNaP(p, r1, i)
	c.Check(p.IsNaP(), "%v: the sample number %d of what is not a point is one", k, i)
}

// detectors: the detectors of invalid points report them, hand them on and leave the handler as it was.
func detectors(c *kit.C) {
	k := kind(c, "kind")
	p := rc.New(k) // uninitialised
	bad := kit.Bool(c, "bad")
	if !bad {
		p = rc.Make(c, k, rc.DrawFor(c, k).Pt)
	}
	q := rc.Copy(p)
	c.Case(bad, "%v, invalid %v", k, bad)
	n, restore := rc.Watch()
	defer restore()
	p.IsEqual(q)
	each := *n // the number of reports of a comparison
	c.Check((each > 0) == bad, "%v, invalid %v: %d reports", k, bad, each)
	*n = 0
	times := kit.Int(c, "times", 0, 3)
	got := curvePoints.VerifWasInvalid(func() {
		for i := 0; i < times; i++ {
			p.IsEqual(q)
		}
	})
	c.Check(got == (bad && times > 0), "%v, invalid %v, compared %d times: detects %v", k, bad, times, got)
	want := times * each
	c.Check(*n == want, "%v, invalid %v: %d reports are handed on, expected %d", k, bad, *n, want)
	p.IsEqual(q)
	want += each
	c.Check(*n == want, "%v, invalid %v: the handler afterwards is another one", k, bad)
	// the handler of these comparisons says no
	for _, expected := range []bool{false, true} {
		for _, singular := range []bool{false, true} {
			ok, msg := curvePoints.VerifGuard(expected, singular, "message", func(x, y CP) bool { return x.IsEqual(y) }, p, q)
			right := expected == !bad && singular == bad
			c.Check(ok == right && (msg == "") == right, "%v, invalid %v: guarded against %v,%v: %v, %q", k, bad, expected, singular, ok, msg)
			want += each
			c.Check(*n == want, "%v, invalid %v: %d reports are handed on, expected %d", k, bad, *n, want)
		}
	}
}
