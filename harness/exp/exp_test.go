//go:build go1.23

package exp

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"reflect"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	ex "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type Int = big.Int
type E = ex.Exponent

func num(s string) *Int {
	x, ok := new(Int).SetString(s, 0)
	if !ok {
		panic("VERIF-HARNESS bad constant")
	}
	return x
}

var (
	N      = num("0x1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1") // order of the subgroup
	TwoN   = new(Int).Lsh(N, 1)
	Lambda = func() *Int { // the square root of -2 that is the eigenvalue of the endomorphism
		return num("0x13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05")
	}()
	b1  = [2]*Int{num("113482231691339203864511368254957623327"), num("10741319382058138887739339959866629956")}
	b2  = [2]*Int{num("-21482638764116277775478679919733259912"), num("113482231691339203864511368254957623327")}
	Max = num("62111775536698671376125354107412126641")
)

func i64(x int64) *Int         { return big.NewInt(x) }
func mod(x, n *Int) *Int       { return new(Int).Mod(x, n) }
func add(x, y *Int) *Int       { return new(Int).Add(x, y) }
func sub(x, y *Int) *Int       { return new(Int).Sub(x, y) }
func mul(x, y *Int) *Int       { return new(Int).Mul(x, y) }
func eq(x, y *Int) bool        { return x.Cmp(y) == 0 }
func pow(k uint) *Int          { return new(Int).Lsh(m.One, k) }
func div(x *Int, k int64) *Int { return new(Int).Div(x, i64(k)) }

func small(c *kit.C) *Int {
	switch kit.Int(c, "smallkind", 0, 3) {
	case 0:
		return i64(int64(kit.Int(c, "delta", -4, 4)))
	case 1:
		return i64(int64(kit.U64(c, "delta")))
	case 2:
		x := m.Random(c, 2)
		x.Rsh(x, uint(kit.Int(c, "back", 0, 127)))
		return x
	default:
		return new(Int)
	}
}

// draw gives an integer of any sign and size.
func draw(c *kit.C) *Int {
	switch kit.Int(c, "exponent", 0, 9) {
	case 0, 1:
		return add(mul(N, i64(int64(kit.Int(c, "multiple", -3, 5)))), small(c))
	case 2:
		return add(pow(uint(kit.Oneof(c, "bit", 64, 128, 192, 252, 253, 254, 255, 256))), small(c))
	case 3:
		return m.AnyInt(c, TwoN)
	case 4:
		return m.AnyInt(c, N)
	case 5:
		return add(div(N, int64(kit.Int(c, "divisor", 2, 8))), small(c))
	case 6: // limbs as those of the moduli, except some
		x := new(Int)
		l := kit.Oneof(c, "like", N, TwoN)
		for i := 3; i >= 0; i-- {
			w := new(Int).And(new(Int).Rsh(l, uint(64*i)), new(Int).SetUint64(math.MaxUint64)).Uint64()
			switch kit.Int(c, "limb", 0, 5) {
			case 0:
				w = kit.U64(c, "w")
			case 1:
				w++
			case 2:
				w--
			case 3:
				w = kit.Oneof(c, "ends", uint64(0), math.MaxUint64)
			}
			x.Or(x.Lsh(x, 64), new(Int).SetUint64(w))
		}
		return x
	case 7:
		return m.U256(c)
	default:
		return mod(m.Random(c, 6), TwoN)
	}
}

func of(c *kit.C, x *Int) (e E) {
	e.SetBigInt(x)
	return
}

func is(e *E, x *Int) bool {
	got := e.ToBigInt_Full()
	return got.Sign() >= 0 && got.Cmp(TwoN) < 0 && eq(got, mod(x, TwoN))
}

func TestP25(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "constants", Quick: 16, Fn: func(c *kit.C) {
			c.Case(true, "constants")
			c.Check(!(!eq(ex.GroupOrder_Int, N) || !eq(ex.CurveExponent_Int, TwoN) || !eq(common.GroupOrder_Int, N) || !eq(common.CurveExponent_Int, TwoN) ||
				!eq(ex.CurveOrder_Int, new(Int).Lsh(N, 2)) || !eq(mod(mul(ex.EndomorphismEigenvalue_Int, ex.EndomorphismEigenvalue_Int), N), sub(N, i64(2)))), "the constants of the exponents are wrong")
		}},
		kit.Sub{Name: "set", Quick: 100000, Fn: func(c *kit.C) {
			x := draw(c)
			before := new(Int).Set(x)
			e := of(c, sub(N, i64(5)))
			e.SetBigInt(x)
			c.Case(x.Sign() < 0 || x.Cmp(N) >= 0, "x=%v", x)
			c.Check(eq(x, before), "SetBigInt changed its argument %v to %v", before, x)
			c.Check(is(&e, x), "SetBigInt(%v) reads back as %v", x, e.ToBigInt_Full())
			old := e
			r := e.ToBigInt_Subgroup()
			c.Check(eq(r, mod(x, N)), "%v reads back as %v in the subgroup", x, r)
			p := e.ModuloP253()
			c.Check(eq(p.ToBigInt_Full(), mod(x, N)), "ModuloP253 of %v is %v", x, p.ToBigInt_Full())
			q := p.ModuloP253()
			c.Check(q == p && e == old, "ModuloP253 is not idempotent or changed its receiver at %v", x)
			c.Check(e.IsZero_Full() == (mod(x, TwoN).Sign() == 0), "IsZero_Full of %v", x)
			c.Check(e.IsZero_Subgroup() == (mod(x, N).Sign() == 0), "IsZero_Subgroup of %v", x)
			c.Check(e.IsOne_Full() == eq(mod(x, TwoN), m.One), "IsOne_Full of %v", x)
			c.Check(e.IsOne_Subgroup() == eq(mod(x, N), m.One), "IsOne_Subgroup of %v", x)
			c.Check(e == old, "a query changed the exponent %v", x)
			c.LabelIf(mod(x, N).Sign() == 0, "zero in the subgroup")
			c.LabelIf(eq(mod(x, N), m.One), "one in the subgroup")
			// results handed out are not tied to the exponent
			out := e.ToBigInt_Full()
			out.Add(out, m.One)
			c.Check(e == old, "changing the result of ToBigInt_Full changed the exponent %v", x)
			e2 := of(c, x)
			c.Check(e2 == e, "the representation of %v is not unique", x)
			// text
			want := mod(x, TwoN)
			c.Check(e.String() == want.String(), "String of %v is %v", x, e.String())
			f := kit.Oneof(c, "format", "%v", "%d", "%x", "%X", "%#x", "%o", "%b", "%+d", "%90d", "%-90x", "%090d", "%s", "% d", "%#o", "%.80d", "%q")
			c.Check(fmt.Sprintf(f, e) == fmt.Sprintf(f, want), "%v formatted with %v is %v", x, f, fmt.Sprintf(f, e))
			c.Check(fmt.Sprintf(f, &e) == fmt.Sprintf(f, want), "%v formatted with %v by pointer is %v", x, f, fmt.Sprintf(f, &e))
		}},
		kit.Sub{Name: "set-small", Quick: 40000, Fn: func(c *kit.C) {
			var v uint64
			switch kit.Int(c, "machine", 0, 3) {
			case 0:
				v = kit.Oneof(c, "end", uint64(0), 1<<63, math.MaxUint64, 1<<32, 0x74fd06b52876e7e1, 0xe9fa0d6a50edcfc2)
				v += uint64(kit.Int(c, "delta", -2, 2))
			case 1:
				v = m.Limb(c)
			default:
				v = kit.U64(c, "v")
			}
			e := of(c, draw(c))
			e.SetUInt(v)
			c.Case(v > math.MaxInt64, "v=%v", v)
			c.Check(is(&e, new(Int).SetUint64(v)), "SetUInt(%v) gives %v", v, e.ToBigInt_Full())
			e = of(c, draw(c))
			e.SetInt(int64(v))
			c.Check(is(&e, i64(int64(v))), "SetInt(%v) gives %v", int64(v), e.ToBigInt_Full())
			e.SetZero()
			c.Check(is(&e, new(Int)) && e.IsZero_Full() && e.IsZero_Subgroup() && !e.IsOne_Full() && !e.IsOne_Subgroup(), "SetZero")
			e = of(c, i64(int64(v)))
			e.SetOne()
			c.Check(is(&e, m.One) && e.IsOne_Full() && e.IsOne_Subgroup() && !e.IsZero_Full() && !e.IsZero_Subgroup(), "SetOne")
			var zero E
			c.Check(is(&zero, new(Int)), "the zero value is not zero")
		}},
		kit.Sub{Name: "arithmetic", Quick: 100000, Fn: func(c *kit.C) {
			x := draw(c)
			y := draw(c)
			switch kit.Int(c, "related", 0, 7) {
			case 0:
				y = add(x, small(c))
			case 1:
				y = sub(small(c), x)
			case 2:
				y = add(add(x, N), small(c))
			case 3:
				if i := new(Int).ModInverse(mod(x, N), N); i != nil {
					y = add(i, small(c))
				}
			}
			X, Y := mod(x, TwoN), mod(y, TwoN)
			c.Case(add(X, Y).Cmp(TwoN) >= 0 || X.Cmp(Y) < 0, "x=%v y=%v", x, y)
			c.LabelIf(eq(add(X, Y), TwoN), "sum is the modulus")
			c.LabelIf(eq(X, Y), "equal")
			for _, op := range []struct {
				name string
				f    func(z, x, y *E)
				want func(x, y *Int) *Int
			}{{"Add", (*E).Add, add}, {"Sub", (*E).Sub, sub}, {"Mul", (*E).Mul, mul},
				{"Neg", func(z, x, y *E) { z.Neg(x) }, func(x, y *Int) *Int { return new(Int).Neg(x) }}} {
				ex, ey := of(c, x), of(c, y)
				z, a, b := of(c, i64(77)), ex, ey
				op.f(&z, &a, &b)
				c.Check(is(&z, op.want(x, y)), "%v of %v and %v is %v", op.name, x, y, z.ToBigInt_Full())
				c.Check(a == ex && b == ey, "%v of %v and %v changed an operand", op.name, x, y)
				a, b = ex, ey
				op.f(&a, &a, &b)
				c.Check(is(&a, op.want(x, y)) && b == ey, "%v of %v and %v in the first operand is %v", op.name, x, y, a.ToBigInt_Full())
				a, b = ex, ey
				op.f(&b, &a, &b)
				c.Check(is(&b, op.want(x, y)) && a == ex, "%v of %v and %v in the second operand is %v", op.name, x, y, b.ToBigInt_Full())
				a, z = ex, of(c, i64(-3))
				op.f(&z, &a, &a)
				c.Check(is(&z, op.want(x, x)) && a == ex, "%v of %v with itself is %v", op.name, x, z.ToBigInt_Full())
				op.f(&a, &a, &a)
				c.Check(is(&a, op.want(x, x)), "%v of %v with itself in place is %v", op.name, x, a.ToBigInt_Full())
			}
		}},
		kit.Sub{Name: "histories", Quick: 12000, Fn: func(c *kit.C) {
			var regs [4]E
			var want [4]*Int
			for i := range regs {
				x := draw(c)
				regs[i].SetBigInt(x)
				want[i] = mod(x, TwoN)
			}
			log := ""
			n := kit.Int(c, "steps", 1, 30)
			for s := 0; s < n; s++ {
				z, x, y := kit.Int(c, "z", 0, 3), kit.Int(c, "x", 0, 3), kit.Int(c, "y", 0, 3)
				op := kit.Int(c, "op", 0, 8)
				log += fmt.Sprintf(" %d:%d,%d,%d", op, z, x, y)
				switch op {
				case 0, 1:
					regs[z].Add(&regs[x], &regs[y])
					want[z] = mod(add(want[x], want[y]), TwoN)
				case 2, 3:
					regs[z].Sub(&regs[x], &regs[y])
					want[z] = mod(sub(want[x], want[y]), TwoN)
				case 4:
					regs[z].Mul(&regs[x], &regs[y])
					want[z] = mod(mul(want[x], want[y]), TwoN)
				case 5:
					regs[z].Neg(&regs[x])
					want[z] = mod(new(Int).Neg(want[x]), TwoN)
				case 6:
					regs[z] = regs[x].ModuloP253()
					want[z] = mod(want[x], N)
				case 7:
					v := int64(kit.U64(c, "v"))
					regs[z].SetInt(v)
					want[z] = mod(i64(v), TwoN)
				default:
					regs[z].SetBigInt(sub(new(Int), regs[x].ToBigInt_Subgroup()))
					want[z] = mod(new(Int).Neg(mod(want[x], N)), TwoN)
				}
				for i := range regs {
					c.Check(is(&regs[i], want[i]), "after%v register %v is %v instead of %v", log, i, regs[i].ToBigInt_Full(), want[i])
				}
			}
			c.Case(n >= 4, "steps%v", log)
		}})
}

// glvTarget draws exponents with a bias to the boundaries in the lattice.
func glvTarget(c *kit.C) *Int {
	at := func(u, v *Int) *Int { return add(u, mul(v, Lambda)) }
	switch kit.Int(c, "target", 0, 8) {
	case 0, 1:
		return draw(c)
	case 2: // rational multiples of the basis vectors, between rounding cases
		den := int64(kit.Int(c, "den", 2, 7))
		i, j := int64(kit.Int(c, "i", -8, 8)), int64(kit.Int(c, "j", -8, 8))
		u := div(add(mul(b1[0], i64(i)), mul(b2[0], i64(j))), den)
		v := div(add(mul(b1[1], i64(i)), mul(b2[1], i64(j))), den)
		return at(add(u, small(c)), add(v, small(c)))
	case 3: // coefficients with respect to the basis as wanted: t*b22/n or -t*b12/n just at a half
		b := kit.Oneof(c, "coefficient", b1[0], b1[1])
		h := add(new(Int).Rsh(N, 1), small(c))
		return add(mul(h, new(Int).ModInverse(b, N)), mul(N, i64(int64(kit.Int(c, "k", 0, 1)))))
	case 4: // components as large as possible
		edge := func() *Int {
			x := new(Int).Set(Max)
			if kit.Bool(c, "neg") {
				x.Neg(x)
			}
			return add(x, small(c))
		}
		if kit.Bool(c, "first") {
			return at(edge(), m.AnyInt(c, Max))
		}
		if kit.Bool(c, "second") {
			return at(m.AnyInt(c, Max), edge())
		}
		return at(edge(), edge())
	case 5: // equal absolute values, zeros
		x := m.AnyInt(c, Max)
		x.Rem(x, Max)
		return at(x, add(mul(x, i64(int64(kit.Int(c, "ratio", -1, 1)))), small(c)))
	case 6: // midpoints between this point and a neighbour in the maximum norm
		d := b1
		switch kit.Int(c, "neighbour", 0, 2) {
		case 1:
			d = b2
		case 2:
			d = [2]*Int{add(b1[0], b2[0]), add(b1[1], b2[1])}
		}
		k := 0
		if new(Int).Abs(d[1]).Cmp(new(Int).Abs(d[0])) > 0 {
			k = 1
		}
		p := [2]*Int{}
		p[k] = add(new(Int).Rsh(d[k], 1), small(c))
		r := m.AnyInt(c, Max)
		p[1-k] = r.Rem(r, Max)
		return at(p[0], p[1])
	case 7:
		return at(small(c), small(c))
	default:
		return mod(m.Random(c, 6), TwoN)
	}
}

func TestP26(t *testing.T) {
	kit.Run(t, kit.Sub{Name: "split", Quick: 160000, Fn: func(c *kit.C) {
		c.Check(eq(ex.EndomorphismEigenvalue_Int, Lambda) && eq(common.EndomorphismEigenvalue_Int, Lambda), "wrong eigenvalue")
		x := glvTarget(c)
		e := of(c, x)
		old := e
		g := ex.GLV_representation(&e)
		c.Check(e == old, "the decomposition changed its argument %v", x)
		u, v := g.U.ToBigInt(), g.V.ToBigInt()
		au, av := new(Int).Abs(u), new(Int).Abs(v)
		norm := au
		if av.Cmp(au) > 0 {
			norm = av
		}
		second := (*Int)(nil)
		for i := int64(-2); i <= 2; i++ {
			for j := int64(-2); j <= 2; j++ {
				if i == 0 && j == 0 {
					continue
				}
				a := add(u, add(mul(b1[0], i64(i)), mul(b2[0], i64(j))))
				b := add(v, add(mul(b1[1], i64(i)), mul(b2[1], i64(j))))
				if a.CmpAbs(b) < 0 {
					a = b
				}
				a.Abs(a)
				if second == nil || a.Cmp(second) < 0 {
					second = a
				}
			}
		}
		// near the boundary: another pair is almost as short, by less than 1/1000
		c.Case(mul(sub(second, norm), i64(1000)).Cmp(norm) < 0, "t=%v u=%v v=%v", x, u, v)
		c.LabelIf(mul(sub(second, norm), i64(1000000)).Cmp(norm) < 0, "nearly a tie")
		c.LabelIf(x.Cmp(N) >= 0, "not reduced for the subgroup")
		c.LabelIf(u.Sign() == 0 || v.Sign() == 0, "a component is zero")
		c.Check(eq(mod(add(u, mul(v, Lambda)), N), mod(x, N)), "t=%v decomposes into %v, %v, which represents another exponent", x, u, v)
		c.Check(norm.Cmp(Max) <= 0, "t=%v decomposes into %v, %v, exceeding the bound", x, u, v)
		c.Check(norm.Cmp(second) <= 0, "t=%v decomposes into %v, %v, but there is a pair with maximum %v", x, u, v, second)
		for _, p := range []struct {
			got interface {
				Sign() int
				IsNegative() bool
				Bit(uint) uint
			}
			want *Int
		}{{&g.U, u}, {&g.V, v}} {
			c.Check(p.got.Sign() == p.want.Sign(), "sign of a component of the decomposition of %v", x)
			c.Check(p.want.Sign() == 0 || p.got.IsNegative() == (p.want.Sign() < 0), "IsNegative of a component of the decomposition of %v", x)
			abs := new(Int).Abs(p.want)
			for i := 0; i < 128; i++ {
				c.Check(p.got.Bit(uint(i)) == abs.Bit(i), "bit %v of a component of the decomposition of %v", i, x)
			}
		}
	}})
}

// bits with long runs and isolated ones
func runs(c *kit.C, n int) *Int {
	x := new(Int)
	switch kit.Int(c, "bits", 0, 5) {
	case 0:
		pos, bit := 0, kit.Bool(c, "start")
		for pos < n {
			l := kit.Int(c, "run", 1, 40)
			for k := 0; k < l && pos < n; k++ {
				if bit {
					x.SetBit(x, pos, 1)
				}
				pos++
			}
			bit = !bit
		}
	case 1:
		for k := kit.Int(c, "ones", 0, 8); k > 0; k-- {
			x.SetBit(x, kit.Int(c, "at", 0, n-1), 1)
		}
	case 2: // all ones but some
		x.Sub(pow(uint(n)), m.One)
		for k := kit.Int(c, "zeros", 0, 8); k > 0; k-- {
			x.SetBit(x, kit.Int(c, "at", 0, n-1), 0)
		}
	case 3:
		for i := 0; i < n; i += 64 {
			x.Or(x, new(Int).Lsh(new(Int).SetUint64(m.Limb(c)), uint(i)))
		}
	case 4:
		a := add(pow(uint(kit.Int(c, "power", 0, n-1))), small(c))
		x.Abs(a)
	default:
		x = m.Random(c, n/64)
	}
	x.Rem(x, pow(uint(n)))
	return x
}

func sliding(c *kit.C) {
	x := runs(c, 256)
	if kit.Int(c, "kind", 0, 4) == 0 {
		x = m.U256(c)
	}
	w := uint8(kit.Oneof(c, "window", kit.Int(c, "w", 1, 63), kit.Int(c, "w", 1, 8), 63, 64-kit.Int(c, "w", 1, 10)))
	var z, old fe.Uint256
	for i := range z {
		z[i] = new(Int).And(new(Int).Rsh(x, uint(64*i)), new(Int).SetUint64(math.MaxUint64)).Uint64()
	}
	old = z
	d := reflect.ValueOf(z.SlidingWindowDecomposition(w))
	c.Check(z == old, "SlidingWindowDecomposition of %#x with window size %v changed its receiver", x, w)
	sum, last, text := new(Int), uint64(math.MaxUint64), ""
	for i := 0; i < d.Len(); i++ {
		exp, pos := d.Index(i).FieldByName("exp").Uint(), d.Index(i).FieldByName("pos").Uint()
		text += fmt.Sprintf(" %#x<<%d", exp, pos)
		c.Check(i == 0 || pos < last, "positions not decreasing: %#x with window size %v is%v", x, w, text)
		c.Check(exp&1 == 1 && bits.Len64(exp) <= int(w), "digit not odd or too large: %#x with window size %v is%v", x, w, text)
		c.Check(pos < 256, "position: %#x with window size %v is%v", x, w, text)
		last = pos
		sum.Add(sum, new(Int).Lsh(new(Int).SetUint64(exp), uint(pos)))
	}
	c.Check(eq(sum, x), "%#x with window size %v is%v, which is %#x", x, w, text, sum)
	cross := false
	for i := 64; i < 256; i += 64 {
		cross = cross || x.Bit(i) == 1 && x.Bit(i-1) == 1
	}
	c.Case(d.Len() >= 2 && cross, "x=%#x window=%v", x, w)
}

func slidingDomain(c *kit.C) {
	z := fe.Uint256{kit.U64(c, "a"), kit.U64(c, "b"), 0, kit.U64(c, "d")}
	w := uint8(kit.Oneof(c, "window", 0, 64, kit.Int(c, "w", 64, 255)))
	c.Case(w != 0, "window=%v", w)
	_, did := kit.Panics(func() { z.SlidingWindowDecomposition(w) })
	c.Check(did, "window size %v was accepted", w)
}

func TestP27(t *testing.T) {
	kit.Run(t, append([]kit.Sub{{Name: "sliding", Quick: 150000, Fn: sliding}, {Name: "sliding-domain", Quick: 500, Fn: slidingDomain}}, p27extra...)...)
}
