//go:build go1.23

// Package counted is built with the tag callcounters, with which the library counts its field operations.
package counted

import (
	"flag"
	"fmt"
	"math/big"
	"strings"
	"testing"

	bs "github.com/GottfriedHerold/Bandersnatch/bandersnatch"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/callcounters"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type Int = big.Int
type FE = fe.FieldElement

func TestP42(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "operations", Quick: 20000, Fn: operations},
		kit.Sub{Name: "increments", Quick: 8000, Fn: increments},
		kit.Sub{Name: "points", Quick: 800, Fn: points},
		kit.Sub{Name: "benchmarks", Quick: 800, Fn: benchmarks},
	)
}

// operation is a basic operation on field elements: z, with arguments x and y that may be z.
type operation struct {
	name     string
	counters string // what it adds one to, beside the total
	nonzero  int    // the argument that must not be zero, or -1: 0 is z, 1 is x, 2 is y
	run      func(z, x, y *FE)
	model    func(z, x, y *Int) *Int
}

var all = []operation{
	{"Add", "AddFe AddSubFe", -1, func(z, x, y *FE) { z.Add(x, y) }, func(z, x, y *Int) *Int { return m.Add(x, y) }},
	{"AddEq", "AddFe AddSubFe AddEqFe", -1, func(z, x, y *FE) { z.AddEq(x) }, func(z, x, y *Int) *Int { return m.Add(z, x) }},
	{"Sub", "SubFe AddSubFe", -1, func(z, x, y *FE) { z.Sub(x, y) }, func(z, x, y *Int) *Int { return m.Sub(x, y) }},
	{"SubEq", "SubFe AddSubFe SubEqFe", -1, func(z, x, y *FE) { z.SubEq(x) }, func(z, x, y *Int) *Int { return m.Sub(z, x) }},
	{"Neg", "NegFe OtherFe", -1, func(z, x, y *FE) { z.Neg(x) }, func(z, x, y *Int) *Int { return m.Neg(x) }},
	{"NegEq", "NegFe OtherFe NegEqFe", -1, func(z, x, y *FE) { z.NegEq() }, func(z, x, y *Int) *Int { return m.Neg(z) }},
	{"Mul", "MulFe Multiplications", -1, func(z, x, y *FE) { z.Mul(x, y) }, func(z, x, y *Int) *Int { return m.Mul(x, y) }},
	{"MulEq", "MulFe Multiplications MulEqFe", -1, func(z, x, y *FE) { z.MulEq(x) }, func(z, x, y *Int) *Int { return m.Mul(z, x) }},
	{"MulFive", "MulByFive Multiplications", -1, func(z, x, y *FE) { z.MulFive(x) }, func(z, x, y *Int) *Int { return m.Mul(x, big.NewInt(5)) }},
	{"MulEqFive", "MulByFive Multiplications", -1, func(z, x, y *FE) { z.MulEqFive() }, func(z, x, y *Int) *Int { return m.Mul(z, big.NewInt(5)) }},
	{"Square", "Squarings Multiplications", -1, func(z, x, y *FE) { z.Square(x) }, func(z, x, y *Int) *Int { return m.Mul(x, x) }},
	{"SquareEq", "Squarings Multiplications", -1, func(z, x, y *FE) { z.SquareEq() }, func(z, x, y *Int) *Int { return m.Mul(z, z) }},
	{"Double", "AddFe AddSubFe", -1, func(z, x, y *FE) { z.Double(x) }, func(z, x, y *Int) *Int { return m.Add(x, x) }},
	{"DoubleEq", "AddFe AddSubFe", -1, func(z, x, y *FE) { z.DoubleEq() }, func(z, x, y *Int) *Int { return m.Add(z, z) }},
	{"Inv", "InvFe Divisions", 1, func(z, x, y *FE) { z.Inv(x) }, func(z, x, y *Int) *Int { return m.Inv(x) }},
	{"InvEq", "InvFe Divisions", 0, func(z, x, y *FE) { z.InvEq() }, func(z, x, y *Int) *Int { return m.Inv(z) }},
	{"Divide", "DivideFe Divisions", 2, func(z, x, y *FE) { z.Divide(x, y) }, func(z, x, y *Int) *Int { return m.Mul(x, m.Inv(y)) }},
	{"DivideEq", "DivideFe Divisions", 1, func(z, x, y *FE) { z.DivideEq(x) }, func(z, x, y *Int) *Int { return m.Mul(z, m.Inv(x)) }},
	{"Jacobi", "Jacobi OtherFe", -1, func(z, x, y *FE) { z.Jacobi() }, func(z, x, y *Int) *Int { return z }},
}

func get(c *kit.C, id callcounters.Id) int {
	n, ok := id.Get()
	c.Check(ok, "there is no counter %v", id)
	return n
}

// operations: each of a sequence of basic operations counts once, in total and in its categories, and computes what it computes.
func operations(c *kit.C) {
	callcounters.ResetAllCounters()
	vars, vals := make([]FE, 4), make([]*Int, 4)
	for i := range vars {
		vars[i], vals[i] = reffe.Draw(c)
	}
	total := 0
	did := map[string]int{}
	n := kit.Int(c, "steps", 1, 16)
	var log []string
	for range n {
		if kit.Int(c, "reset", 0, 15) == 0 {
			callcounters.ResetAllCounters()
			total, did = 0, map[string]int{}
			log = append(log, "reset")
		}
		op := kit.Oneof(c, "op", all...)
		a := [3]int{kit.Int(c, "z", 0, 3), kit.Int(c, "x", 0, 3), kit.Int(c, "y", 0, 3)}
		if op.nonzero >= 0 && vals[a[op.nonzero]].Sign() == 0 {
			continue
		}
		want := op.model(vals[a[0]], vals[a[1]], vals[a[2]])
		log = append(log, fmt.Sprintf("v%d.%s(v%d,v%d)", a[0], op.name, a[1], a[2]))
		before := map[string]int{}
		names := strings.Fields(op.counters)
		for _, id := range names {
			before[id] = get(c, callcounters.Id(id))
		}
		op.run(&vars[a[0]], &vars[a[1]], &vars[a[2]])
		vals[a[0]] = want
		total++
		did[op.name]++
		for _, id := range names {
			if now := get(c, callcounters.Id(id)); now != before[id]+1 {
				c.Fatalf("%s: the counter %s goes from %d to %d", strings.Join(log, "; "), id, before[id], now)
			}
		}
		if now := get(c, "FieldOps"); now != total {
			c.Fatalf("%s: %d field operations are counted after %d", strings.Join(log, "; "), now, total)
		}
	}
	c.Case(len(did) > 1, "%s", strings.Join(log, "; "))
	for i := range vars {
		c.Check(vars[i].ToBigInt().Cmp(vals[i]) == 0, "%s: v%d is %v and not %v", strings.Join(log, "; "), i, &vars[i], vals[i])
	}
	for _, r := range callcounters.ReportCallCounters(kit.Bool(c, "positive"), kit.Bool(c, "names")) {
		if r.Tag == "FieldOps" || r.Tag == "Field Operations" {
			c.Check(r.Calls == total, "%s: %d field operations are reported after %d", strings.Join(log, "; "), r.Calls, total)
		}
	}
}

// leaves are counters that no other operation of the package adds to.
var leaves = []callcounters.Id{"AddFe", "SubFe", "NegFe", "MulFe", "MulByFive", "Squarings", "Jacobi", "SqrtFe", "AddEqFe", "NegEqFe", "DivideFe"}

var incrementers = []struct {
	name   string
	f      func(callcounters.Id)
	active bool
}{
	{"fieldElements", fe.IncrementCallCounter, fe.CallCountersActive},
	{"curvePoints", curvePoints.IncrementCallCounter, curvePoints.CallCountersActive},
	{"bandersnatch", bs.IncrementCallCounter, bs.CallCountersActive},
}

// increments: the functions the packages count with add one to the counter that is named.
func increments(c *kit.C) {
	callcounters.ResetAllCounters()
	want := map[callcounters.Id]int{}
	var log []string
	for range kit.Int(c, "steps", 1, 20) {
		inc := kit.Oneof(c, "package", incrementers...)
		c.Check(inc.active, "%s: built with the tag callcounters, but not active", inc.name)
		id := kit.Oneof(c, "counter", leaves...)
		switch kit.Int(c, "how", 0, 7) {
		case 0:
			id.Reset()
			want[id] = 0
			log = append(log, "reset "+string(id))
		case 1: // an operation that is not counted
			x, v := reffe.Draw(c)
			c.Check(x.IsZero() == (v.Sign() == 0), "IsZero of %v", v)
		default:
			before, _ := id.Get()
			inc.f(id)
			log = append(log, inc.name+" increments "+string(id))
			if now := get(c, id); now != before+1 {
				c.Fatalf("%s: the counter goes from %d to %d", strings.Join(log, "; "), before, now)
			}
			want[id]++
		}
	}
	c.Case(len(want) > 1, "%s", strings.Join(log, "; "))
}

// points: what is computed does not depend on the operations being counted, and the total never falls.
func points(c *kit.C) {
	p := rc.Draw(c)
	q := rc.Related(c, p)
	kinds := [3]rc.Kind{}
	for i, pt := range []rc.Known{p, q} {
		kinds[i] = rc.Kind(kit.Int(c, "kind", 0, 5))
		if !rc.Fits(kinds[i], pt) {
			c.Skip("the type does not hold the point")
		}
	}
	kinds[2] = kit.Oneof(c, "result", rc.Kind(kit.Int(c, "kind", 0, 5)))
	x, y := rc.Make(c, kinds[0], p.Pt), rc.Make(c, kinds[1], q.Pt)
	z := rc.New(kinds[2])
	op := kit.Oneof(c, "op", "add", "sub", "double", "neg", "equal")
	desc := fmt.Sprintf("%s of %v %v and %v %v in %v", op, kinds[0], p, kinds[1], q, kinds[2])
	want := map[string]rc.Pt{"add": rc.Add(p.Pt, q.Pt), "sub": rc.Sub(p.Pt, q.Pt), "double": rc.Dbl(p.Pt), "neg": rc.Sub(rc.Torsion[0], p.Pt)}
	if op != "equal" && !rc.Fits(kinds[2], rc.Known{Pt: want[op], Tor: -1}) || kinds[2].Sub() && !(kinds[0].Sub() && kinds[1].Sub()) {
		c.Skip("the type does not hold the result")
	}
	c.Case(true, "%s", desc)
	before := get(c, "FieldOps")
	switch op {
	case "add":
		z.Add(x, y)
	case "sub":
		z.Sub(x, y)
	case "double":
		z.Double(x)
	case "neg":
		z.Neg(x)
	case "equal":
		c.Check(x.IsEqual(y) == rc.Eq(p.Pt, q.Pt), "%s", desc)
	}
	c.Check(get(c, "FieldOps") >= before, "%s: the total falls", desc)
	if op != "equal" {
		rc.Is(c, z, want[op], "%s", desc)
	}
}

// benchmarks: the numbers of a benchmark are those of the counters, divided by the number of rounds.
func benchmarks(c *kit.C) {
	n := kit.Int(c, "rounds", 1, 9)
	if err := flag.Set("test.benchtime", fmt.Sprintf("%dx", n)); err != nil {
		panic(err)
	}
	defer flag.Set("test.benchtime", "1s")
	type part struct {
		op    operation
		times int
	}
	var parts []part
	total, rounds := 0, 0
	for range kit.Int(c, "parts", 0, 3) {
		pt := part{kit.Oneof(c, "op", all...), kit.Int(c, "times", 1, 4)}
		parts = append(parts, pt)
		total += pt.times
	}
	once := kit.Int(c, "once", 0, 5) // operations that are not done in every round
	report := kit.Oneof(c, "package", fe.BenchmarkWithCallCounters, curvePoints.BenchmarkWithCallCounters, bs.BenchmarkWithCallCounters)
	var calls map[string]int
	r := testing.Benchmark(func(b *testing.B) {
		callcounters.ResetAllCounters()
		rounds = b.N
		for range once {
			z := reffe.Of(big.NewInt(3), false)
			z.DoubleEq()
		}
		for range b.N {
			for _, pt := range parts {
				for range pt.times {
					z, x, y := reffe.Of(big.NewInt(3), false), reffe.Of(big.NewInt(4), false), reffe.Of(big.NewInt(5), false)
					pt.op.run(&z, &x, &y)
				}
			}
		}
		calls = map[string]int{}
		for _, r := range callcounters.ReportCallCounters(true, false) {
			calls[r.Tag] = r.Calls
		}
		report(b)
	})
	desc := fmt.Sprintf("%d rounds of %d operations and %d more", rounds, total, once)
	c.Case(total > 1, "%s", desc)
	for tag, k := range calls {
		got, ok := r.Extra[tag+"/op"]
		c.Check(ok && got == float64(k)/float64(rounds), "%s: %v of %s per round are reported, %d were counted", desc, got, tag, k)
	}
	for unit := range r.Extra {
		_, ok := calls[strings.TrimSuffix(unit, "/op")]
		c.Check(ok, "%s: %s is reported, which did not happen", desc, unit)
	}
	if total > 0 || once > 0 {
		c.Check(r.Extra["FieldOps/op"] == float64(total*rounds+once)/float64(rounds), "%s: %v field operations per round are reported", desc, r.Extra["FieldOps/op"])
	}
}
