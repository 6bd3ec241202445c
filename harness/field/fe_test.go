//go:build go1.23

package field

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type F = fe.FieldElement

type felt[T any] interface {
	*T
	fe.FieldElementInterface[*T]
}

// of makes a field element of the value v; alt asks for another internal representation, where there is one.
func of[T any, P felt[T]](v *Int, alt bool) T {
	var z T
	P(&z).SetBigInt(v)
	P(&z).RerandomizeRepresentation(map[bool]uint64{false: 0, true: 1}[alt])
	return z
}

func val[T any, P felt[T]](z *T) *Int { return P(z).ToBigInt() }

func raw[T any, P felt[T]](z *T) string {
	b := make([]byte, P(z).BytesLength())
	P(z).ToBytes(b)
	return string(b)
}

// is checks, without relying on one kind of read-out only, that z has value v.
func is[T any, P felt[T]](z *T, v *Int) bool {
	w := m.Mod(v)
	var u U
	P(z).ToUint256(&u)
	return P(z).ToBigInt().Cmp(w) == 0 && eq(toInt(u), w)
}

// hasTwo says whether residues of this value have a second representation below 2^256-p in Montgomery form.
func hasTwo(v *Int) bool {
	return m.Mul(v, m.R256).Cmp(new(Int).Sub(m.R256, m.TwoP)) < 0
}

type fePair[T any] struct {
	v   *Int
	fe  T
	alt bool
}

func drawFE[T any, P felt[T]](c *kit.C, label string) fePair[T] {
	v := m.Residue(c)
	alt := kit.Bool(c, label)
	return fePair[T]{v, of[T, P](v, alt), alt}
}

func (p fePair[T]) String() string {
	if p.alt {
		return fmt.Sprintf("%#x(alt)", p.v)
	}
	return fmt.Sprintf("%#x", p.v)
}

func junk[T any, P felt[T]]() T { return of[T, P](new(Int).SetUint64(0xdeadbeefcafe), false) }

func bin[T any, P felt[T]](c *kit.C, name string, x, y fePair[T], want func(x, y *Int) *Int, f func(z, x, y P), inplace func(z, y P)) {
	w := want(x.v, y.v)
	a, b, z := x.fe, y.fe, junk[T, P]()
	rx, ry := x.v, y.v
	f(P(&z), P(&a), P(&b))
	c.Check(is[T, P](&z, w), "%s(%v, %v) = %v, want %#x", name, x, y, val[T, P](&z), w)
	c.Check(is[T, P](&a, rx) && is[T, P](&b, ry), "%s(%v, %v) changed an operand: %v %v", name, x, y, val[T, P](&a), val[T, P](&b))
	f(P(&a), P(&a), P(&b))
	c.Check(is[T, P](&a, w), "x = %s(x, y) for %v, %v gives %v, want %#x", name, x, y, val[T, P](&a), w)
	c.Check(is[T, P](&b, ry), "x = %s(x, y) for %v, %v changed y: %v", name, x, y, val[T, P](&b))
	a = x.fe
	f(P(&b), P(&a), P(&b))
	c.Check(is[T, P](&b, w), "y = %s(x, y) for %v, %v gives %v, want %#x", name, x, y, val[T, P](&b), w)
	c.Check(is[T, P](&a, rx), "y = %s(x, y) for %v, %v changed x: %v", name, x, y, val[T, P](&a))
	a, b, z = x.fe, y.fe, junk[T, P]()
	if name != "Divide" || x.v.Sign() != 0 {
		ws := want(x.v, x.v)
		f(P(&z), P(&a), P(&a))
		c.Check(is[T, P](&z, ws), "%s(x, x) for %v = %v, want %#x", name, x, val[T, P](&z), ws)
		c.Check(is[T, P](&a, rx), "%s(x, x) for %v changed x to %v", name, x, val[T, P](&a))
		f(P(&a), P(&a), P(&a))
		c.Check(is[T, P](&a, ws), "x = %s(x, x) for %v gives %v, want %#x", name, x, val[T, P](&a), ws)
		if inplace != nil {
			a = x.fe
			inplace(P(&a), P(&a))
			c.Check(is[T, P](&a, ws), "%sEq(x, x) for %v gives %v, want %#x", name, x, val[T, P](&a), ws)
		}
	}
	if inplace != nil {
		a, b = x.fe, y.fe
		inplace(P(&a), P(&b))
		c.Check(is[T, P](&a, w), "%sEq(%v, %v) gives %v, want %#x", name, x, y, val[T, P](&a), w)
		c.Check(is[T, P](&b, ry), "%sEq(%v, %v) changed y: %v", name, x, y, val[T, P](&b))
	}
}

func una[T any, P felt[T]](c *kit.C, name string, x fePair[T], w *Int, f func(z, x P), inplace func(z P)) {
	a, z := x.fe, junk[T, P]()
	f(P(&z), P(&a))
	c.Check(is[T, P](&z, w), "%s(%v) = %v, want %#x", name, x, val[T, P](&z), w)
	c.Check(is[T, P](&a, x.v), "%s(%v) changed its operand to %v", name, x, val[T, P](&a))
	f(P(&a), P(&a))
	c.Check(is[T, P](&a, w), "x = %s(x) for %v gives %v, want %#x", name, x, val[T, P](&a), w)
	if inplace != nil {
		a = x.fe
		inplace(P(&a))
		c.Check(is[T, P](&a, w), "%sEq(%v) gives %v, want %#x", name, x, val[T, P](&a), w)
	}
}

func mulK(k int64) func(x *Int) *Int { return func(x *Int) *Int { return m.Mul(x, big.NewInt(k)) } }

func p03arith[T any, P felt[T]](c *kit.C) {
	x, y := drawFE[T, P](c, "altx"), drawFE[T, P](c, "alty")
	switch kit.Int(c, "rel", 0, 7) {
	case 0: // related operands
		y.v = m.Neg(x.v)
		y.fe = of[T, P](y.v, y.alt)
	case 1:
		y.v = x.v
		y.fe = of[T, P](y.v, y.alt)
	}
	c.LabelIf(x.alt && hasTwo(x.v), "x in second representation")
	c.LabelIf(eq(x.v, y.v), "equal values")
	c.LabelIf(m.Add(x.v, y.v).Sign() == 0, "sum zero")
	c.Case(x.v.BitLen() > 64 || y.v.BitLen() > 64, "%v,%v", x, y)
	bin[T, P](c, "Add", x, y, m.Add, func(z, x, y P) { z.Add(x, y) }, func(z, y P) { z.AddEq(y) })
	bin[T, P](c, "Sub", x, y, m.Sub, func(z, x, y P) { z.Sub(x, y) }, func(z, y P) { z.SubEq(y) })
	bin[T, P](c, "Mul", x, y, m.Mul, func(z, x, y P) { z.Mul(x, y) }, func(z, y P) { z.MulEq(y) })
	una[T, P](c, "Neg", x, m.Neg(x.v), func(z, x P) { z.Neg(x) }, func(z P) { z.NegEq() })
	una[T, P](c, "Double", x, mulK(2)(x.v), func(z, x P) { z.Double(x) }, func(z P) { z.DoubleEq() })
	una[T, P](c, "Square", x, m.Mul(x.v, x.v), func(z, x P) { z.Square(x) }, func(z P) { z.SquareEq() })
	una[T, P](c, "MulFive", x, mulK(5)(x.v), func(z, x P) { z.MulFive(x) }, func(z P) { z.MulEqFive() })
	k := int64(m.Limb(c))
	ki, ku := big.NewInt(k), new(Int).SetUint64(uint64(k))
	una[T, P](c, "AddInt64", x, m.Add(x.v, ki), func(z, x P) { z.AddInt64(x, k) }, nil)
	una[T, P](c, "SubInt64", x, m.Sub(x.v, ki), func(z, x P) { z.SubInt64(x, k) }, nil)
	una[T, P](c, "MulInt64", x, m.Mul(x.v, ki), func(z, x P) { z.MulInt64(x, k) }, nil)
	una[T, P](c, "AddUint64", x, m.Add(x.v, ku), func(z, x P) { z.AddUint64(x, uint64(k)) }, nil)
	una[T, P](c, "SubUint64", x, m.Sub(x.v, ku), func(z, x P) { z.SubUint64(x, uint64(k)) }, nil)
	una[T, P](c, "MulUint64", x, m.Mul(x.v, ku), func(z, x P) { z.MulUint64(x, uint64(k)) }, nil)

	// comparisons see the residue class only
	same, neg := eq(x.v, y.v), eq(m.Neg(x.v), y.v)
	a, b := x.fe, y.fe
	c.Check(P(&a).IsEqual(P(&b)) == same && P(&b).IsEqual(P(&a)) == same, "IsEqual(%v, %v) is %v", x, y, P(&a).IsEqual(P(&b)))
	abs, ex := P(&a).CmpAbs(P(&b))
	c.Check(ex == same && abs == (same || neg), "CmpAbs(%v, %v) = %v, %v", x, y, abs, ex)
	for _, alt := range []bool{false, true} {
		o := of[T, P](x.v, alt)
		c.Check(P(&a).IsEqual(P(&o)) && P(&o).IsEqual(P(&a)), "IsEqual of two representations of %v", x)
		o = of[T, P](m.Neg(x.v), alt)
		abs, ex = P(&a).CmpAbs(P(&o))
		c.Check(abs && ex == (x.v.Sign() == 0), "CmpAbs of %v and its negative = %v, %v", x, abs, ex)
		n := of[T, P](m.Add(x.v, m.One), alt)
		c.Check(!P(&a).IsEqual(P(&n)), "IsEqual(x, x+1) for %v", x)
	}
	c.Check(P(&a).IsEqual(P(&a)), "IsEqual(x, x) for %v", x)
	c.Check(P(&a).IsZero() == (x.v.Sign() == 0), "IsZero(%v)", x)
	c.Check(P(&a).IsOne() == eq(x.v, m.One), "IsOne(%v)", x)
	c.Check(is[T, P](&a, x.v) && is[T, P](&b, y.v), "comparisons changed an operand of %v, %v", x, y)
}

// histories: a register machine whose registers are field elements, against one whose registers are integers.
func p03history[T any, P felt[T]](c *kit.C) {
	const n = 5
	var regs [n]T
	var ref [n]*Int
	for i := range regs {
		p := drawFE[T, P](c, "alt")
		regs[i], ref[i] = p.fe, p.v
	}
	steps := kit.Size(c, "steps", 1, 60, 600)
	log := ""
	alts := 0
	for s := 0; s < steps; s++ {
		i, j, k := kit.Int(c, "i", 0, n-1), kit.Int(c, "j", 0, n-1), kit.Int(c, "k", 0, n-1)
		z, x, y := P(&regs[i]), P(&regs[j]), P(&regs[k])
		op := kit.Int(c, "op", 0, 22)
		log += fmt.Sprintf("%d:%d,%d,%d ", op, i, j, k)
		set := func(v *Int) { ref[i] = v }
		switch op {
		case 0, 1:
			z.Add(x, y)
			set(m.Add(ref[j], ref[k]))
		case 2, 3:
			z.Sub(x, y)
			set(m.Sub(ref[j], ref[k]))
		case 4, 5:
			z.Mul(x, y)
			set(m.Mul(ref[j], ref[k]))
		case 6:
			z.Neg(x)
			set(m.Neg(ref[j]))
		case 7:
			z.Double(x)
			set(mulK(2)(ref[j]))
		case 8:
			z.Square(x)
			set(m.Mul(ref[j], ref[j]))
		case 9:
			z.MulFive(x)
			set(mulK(5)(ref[j]))
		case 10:
			z.AddEq(y)
			set(m.Add(ref[i], ref[k]))
		case 11:
			z.SubEq(y)
			set(m.Sub(ref[i], ref[k]))
		case 12:
			z.MulEq(y)
			set(m.Mul(ref[i], ref[k]))
		case 13:
			z.NegEq()
			set(m.Neg(ref[i]))
		case 14:
			z.DoubleEq()
			set(mulK(2)(ref[i]))
		case 15:
			z.SquareEq()
			set(m.Mul(ref[i], ref[i]))
		case 16:
			z.MulEqFive()
			set(mulK(5)(ref[i]))
		case 17:
			z.RerandomizeRepresentation(uint64(kit.Int(c, "seed", 0, 3)))
			alts++
		case 18:
			z.Normalize()
		case 19:
			regs[i] = regs[j] // plain assignment copies
			set(ref[j])
		case 20:
			p := drawFE[T, P](c, "alt")
			regs[i] = p.fe
			set(p.v)
		case 21:
			if ref[k].Sign() != 0 && ref[k].BitLen() > 0 {
				z.Divide(x, y)
				set(m.Mul(ref[j], m.Inv(ref[k])))
			}
		case 22:
			sw := kit.Bool(c, "one")
			if sw {
				z.SetOne()
				set(big.NewInt(1))
			} else {
				z.SetZero()
				set(big.NewInt(0))
			}
		}
		// cheap comparisons after each step, without normalising anything
		want := ref[i]
		c.Check(P(&regs[i]).IsZero() == (want.Sign() == 0), "after %s: IsZero of register %d = %v is wrong", log, i, want)
		c.Check(P(&regs[i]).IsOne() == eq(want, m.One), "after %s: IsOne of register %d = %v is wrong", log, i, want)
		c.Check(P(&regs[j]).IsEqual(P(&regs[k])) == eq(ref[j], ref[k]), "after %s: IsEqual of registers %d, %d = %v, %v is wrong", log, j, k, ref[j], ref[k])
	}
	c.Case(steps >= 3, "%v|%s", ref, log)
	c.LabelIf(alts > 0, "representation changed on the way")
	c.LabelIf(steps > 20, "more than 20 operations")
	for i := range regs {
		r := regs[i]
		c.Check(is[T, P](&r, ref[i]), "after %s: register %d is %v, want %v", log, i, val[T, P](&r), ref[i])
	}
}

func TestP03(t *testing.T) {
	subs := []kit.Sub{
		{Name: "arith", Quick: 128000, Fn: p03arith[F, *F]},
		{Name: "histories", Quick: 48000, Fn: p03history[F, *F]},
	}
	kit.Run(t, append(subs, p03extra...)...)
}

func p04[T any, P felt[T]](c *kit.C) {
	x, y := drawFE[T, P](c, "altx"), drawFE[T, P](c, "alty")
	if kit.Int(c, "square", 0, 2) == 0 { // with a known root
		x.v = m.Mul(y.v, y.v)
		x.fe = of[T, P](x.v, x.alt)
	} else if kit.Int(c, "dyadic", 0, 3) == 0 { // an element whose order has a chosen power of two
		s := kit.Int(c, "s", 0, 32)
		r := new(Int).Exp(dyadicRoot, new(Int).Lsh(m.One, uint(s)), m.P)
		e := new(Int).Mod(new(Int).SetUint64(kit.U64(c, "e")), new(Int).Lsh(m.One, 32))
		if kit.Bool(c, "odd") { // times an element of odd order
			r = new(Int).Exp(r, e, m.P)
		}
		if kit.Bool(c, "oddpart") {
			o := new(Int).Exp(y.v, new(Int).Lsh(m.One, 32), m.P)
			r = m.Mul(r, o)
		}
		x.v = r
		x.fe = of[T, P](x.v, x.alt)
		c.Label("chosen 2-adic order")
	}
	if kit.Int(c, "zero", 0, 30) == 0 {
		x.v = new(Int)
		x.fe = of[T, P](x.v, x.alt)
	}
	c.Case(x.v.BitLen() > 64, "%v,%v", x, y)
	leg := m.Legendre(x.v)
	a := x.fe
	// quadratic character and root
	j := P(&a).Jacobi()
	c.Check(j == leg, "Jacobi(%v) = %d, want %d", x, j, leg)
	z := junk[T, P]()
	rz := val[T, P](&z)
	ok := P(&z).SquareRoot(P(&a))
	c.LabelIf(leg == 1, "non-zero square")
	c.LabelIf(leg == -1, "non-square")
	c.Check(ok == (leg >= 0), "SquareRoot(%v) says %v for an element with character %d", x, ok, leg)
	c.Check(is[T, P](&a, x.v), "SquareRoot(%v) changed its argument to %v", x, val[T, P](&a))
	if ok {
		r := val[T, P](&z)
		c.Check(eq(m.Mul(r, r), x.v), "SquareRoot(%v) = %v is no root", x, r)
		z2 := z
		P(&z2).SquareEq()
		c.Check(P(&z2).IsEqual(P(&a)), "SquareRoot(%v) squared differs", x)
		ok2 := P(&a).SquareRoot(P(&a))
		r = val[T, P](&a)
		c.Check(ok2 && eq(m.Mul(r, r), x.v), "SquareRoot(%v) in place: %v, %v", x, ok2, r)
	} else {
		c.Check(is[T, P](&z, rz), "failed SquareRoot(%v) changed the receiver", x)
		ok2 := P(&a).SquareRoot(P(&a))
		c.Check(!ok2 && is[T, P](&a, x.v), "failed SquareRoot(%v) in place: %v, %v", x, ok2, val[T, P](&a))
	}
	// inverse and division
	a = x.fe
	if x.v.Sign() != 0 {
		w := m.Inv(x.v)
		una[T, P](c, "Inv", x, w, func(z, x P) { z.Inv(x) }, func(z P) { z.InvEq() })
		bin[T, P](c, "Divide", y, x, func(y, x *Int) *Int {
			i := m.Inv(x)
			if i == nil {
				return new(Int)
			}
			return m.Mul(y, i)
		}, func(z, x, y P) { z.Divide(x, y) }, func(z, y P) { z.DivideEq(y) })
	} else {
		c.Label("zero")
		for name, f := range map[string]func(z, x, y P){
			"Inv": func(z, x, y P) { z.Inv(x) }, "Divide": func(z, x, y P) { z.Divide(y, x) },
			"InvEq": func(z, x, y P) { *z = *x; z.InvEq() }, "DivideEq": func(z, x, y P) { z.DivideEq(x) },
			"DivideInt64":  func(z, x, y P) { z.DivideInt64(y, 0) },
			"DivideUint64": func(z, x, y P) { z.DivideUint64(y, 0) },
		} {
			z, b := junk[T, P](), y.fe
			before := val[T, P](&z)
			p, did := kit.Panics(func() { f(P(&z), P(&a), P(&b)) })
			c.Check(did, "%s by zero does not panic", name)
			err, isErr := p.(error)
			c.Check(isErr && errors.Is(err, fe.ErrDivisionByZero), "%s by zero panics with %v", name, p)
			if name != "InvEq" {
				c.Check(is[T, P](&z, before), "%s by zero changed the receiver", name)
			}
			c.Check(is[T, P](&a, x.v) && is[T, P](&b, y.v), "%s by zero changed an operand", name)
		}
	}
	k := int64(m.Limb(c))
	if k != 0 {
		una[T, P](c, "DivideInt64", y, m.Mul(y.v, m.Inv(m.Mod(big.NewInt(k)))), func(z, x P) { z.DivideInt64(x, k) }, nil)
		una[T, P](c, "DivideUint64", y, m.Mul(y.v, m.Inv(new(Int).SetUint64(uint64(k)))), func(z, x P) { z.DivideUint64(x, uint64(k)) }, nil)
	}
}

func p04exp[T any, P felt[T]](c *kit.C) {
	x := drawFE[T, P](c, "altx")
	e := exponent(c)
	E := toU(e)
	w := new(Int).Exp(x.v, e, m.P)
	c.Case(e.BitLen() > 64, "%v^%#x", x, e)
	c.LabelIf(e.Sign() == 0, "zero exponent")
	c.LabelIf(e.Sign() == 0 && x.v.Sign() == 0, "0^0")
	una[T, P](c, fmt.Sprintf("Exp by %#x", e), x, w, func(z, x P) { z.Exp(x, &E) }, nil)
	c.Check(E == toU(e), "Exp changed the exponent %#x", e)
	// laws: x^(e+f) = x^e x^f
	f := exponent(c)
	s := new(Int).Add(e, f)
	if s.Cmp(m.R256) < 0 {
		a, ef, ee := x.fe, junk[T, P](), junk[T, P]()
		Fu, S := toU(f), toU(s)
		P(&ef).Exp(P(&a), &Fu)
		P(&ee).Exp(P(&a), &E)
		P(&ef).MulEq(P(&ee))
		P(&ee).Exp(P(&a), &S)
		c.Check(P(&ee).IsEqual(P(&ef)), "x^(e+f) != x^e x^f for %v, %#x, %#x", x, e, f)
		c.Label("law of exponents")
	}
}

var dyadicRoot, _ = new(Int).SetString("25609050042867742175647027564004846496793091465619562978882159513284", 10)

func TestP04(t *testing.T) {
	subs := []kit.Sub{
		{Name: "root-inverse", Quick: 48000, Fn: p04[F, *F]},
		{Name: "exp", Quick: 24000, Fn: p04exp[F, *F]},
	}
	kit.Run(t, append(append(subs, p04extra...), p04alg...)...)
}

func TestP05(t *testing.T) {
	type list struct {
		v   []*Int
		fe  []F
		key string
	}
	draw := func(c *kit.C, max int, zeros bool) (l list) {
		n := max
		if max <= 40 {
			n = kit.Int(c, "n", 0, max)
		} else if kit.Int(c, "any", 0, 3) == 0 {
			n = kit.Int(c, "n", 41, max)
		} else if kit.Bool(c, "off") {
			n += kit.Int(c, "by", -1, 1)
		}
		pz := 0
		if zeros {
			pz = kit.Oneof(c, "pz", 0, 1, 3, 10)
		}
		for i := 0; i < n; i++ {
			v := m.Residue(c)
			switch k := kit.Int(c, "special", 0, 9); {
			case k < pz:
				v = new(Int)
			case k == 9:
				v = big.NewInt(1)
			case k == 8:
				v = m.Neg(m.One)
			}
			l.v = append(l.v, v)
			l.fe = append(l.fe, of[F, *F](v, kit.Bool(c, "alt")))
		}
		l.key = fmt.Sprintf("%x", l.v)
		return
	}
	key := func(l list) string { return l.key }
	ptrs := func(s []F) (r []*F) {
		for i := range s {
			r = append(r, &s[i])
		}
		return
	}
	zerosOf := func(l list) (idx []int) {
		for i, v := range l.v {
			if v.Sign() == 0 {
				idx = append(idx, i)
			}
		}
		return
	}
	intsEq := func(a, b []int) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	invert := func(sizes ...int) func(c *kit.C) {
		return func(c *kit.C) {
			l := draw(c, kit.Oneof(c, "max", sizes...), true)
			zeros := zerosOf(l)
			c.Case(len(l.v) >= 2, "%s", key(l))
			c.LabelIf(len(zeros) > 0, "with zeros")
			c.LabelIf(len(zeros) >= 10, "ten or more zeros")
			c.LabelIf(len(zeros) == len(l.v) && len(l.v) > 0, "only zeros")
			orig := append([]F(nil), l.fe...)
			checkInverted := func(what string, got []F) {
				for i := range got {
					w := l.v[i]
					if w.Sign() != 0 {
						w = m.Inv(w)
					}
					c.Check(is[F, *F](&got[i], w), "%s of %s: element %d is %v, want %#x", what, key(l), i, val[F, *F](&got[i]), w)
				}
			}
			fail := func(what string, err fe.MultiInversionError, got []F) {
				c.Check((err != nil) == (len(zeros) > 0), "%s of %s: error %v", what, key(l), err)
				if err == nil {
					checkInverted(what, got)
					return
				}
				for i := range got {
					c.Check(is[F, *F](&got[i], l.v[i]), "%s of %s fails but changes element %d", what, key(l), i)
				}
				d := err.GetData_struct()
				c.Check(intsEq(d.ZeroIndices, zeros) && d.NumberOfZeroIndices == len(zeros), "%s of %s reports zeros %v (%d), want %v", what, key(l), d.ZeroIndices, d.NumberOfZeroIndices, zeros)
				c.Check(errors.Is(err, fe.ErrDivisionByZero), "%s: error %v does not wrap ErrDivisionByZero", what, err)
				c.Check(len(err.Error()) > 0 && err.ValidateError_Final() == nil, "%s: message %q", what, err.Error())
			}
			got := append([]F(nil), orig...)
			fail("MultiInvertEqSlice", fe.MultiInvertEqSlice(got), got)
			got = append([]F(nil), orig...)
			fail("MultiInvertEq", fe.MultiInvertEq(ptrs(got)...), got)
			got = append([]F(nil), orig...)
			idx := fe.MultiInvertEqSliceSkipZeros(got)
			c.Check(intsEq(idx, zeros) && (idx == nil) == (len(zeros) == 0), "MultiInvertEqSliceSkipZeros of %s reports %v, want %v", key(l), idx, zeros)
			checkInverted("MultiInvertEqSliceSkipZeros", got)
			got = append([]F(nil), orig...)
			idx = fe.MultiInvertEqSkipZeros(ptrs(got)...)
			c.Check(intsEq(idx, zeros) && (idx == nil) == (len(zeros) == 0), "MultiInvertEqSkipZeros of %s reports %v, want %v", key(l), idx, zeros)
			checkInverted("MultiInvertEqSkipZeros", got)
			err := fe.GenerateMultiDivisionByZeroError(ptrs(got), "some prefix")
			c.Check((err != nil) == (len(zeros) > 0), "GenerateMultiDivisionByZeroError for %s: %v", key(l), err)
			if err != nil {
				d := err.GetData_struct()
				c.Check(intsEq(d.ZeroIndices, zeros) && d.NumberOfZeroIndices == len(zeros), "GenerateMultiDivisionByZeroError for %s: %v", key(l), d)
			}
		}
	}
	sumProduct := func(sizes ...int) func(c *kit.C) {
		return func(c *kit.C) {
			l := draw(c, kit.Oneof(c, "max", sizes...), kit.Bool(c, "zeros"))
			c.Case(len(l.v) >= 2, "%s", key(l))
			sum, prod := new(Int), big.NewInt(1)
			// the arguments by pointer may repeat, and the receiver may be one of them
			for i := range l.v {
				sum, prod = m.Add(sum, l.v[i]), m.Mul(prod, l.v[i])
			}
			alias := -1
			if len(l.v) > 0 && kit.Bool(c, "alias") {
				alias = kit.Int(c, "which", 0, len(l.v)-1)
				c.Label("receiver among the arguments")
			}
			run := func(name string, want *Int, f func(z *F, s []F)) {
				s := append([]F(nil), l.fe...)
				z := junk[F, *F]()
				zp := &z
				if alias >= 0 {
					zp = &s[alias]
				}
				f(zp, s)
				c.Check(is[F, *F](zp, want), "%s of %s (receiver %d) = %v, want %#x", name, key(l), alias, val[F, *F](zp), want)
				for i := range s {
					if i != alias {
						c.Check(is[F, *F](&s[i], l.v[i]), "%s of %s (receiver %d) changed argument %d to %v", name, key(l), alias, i, val[F, *F](&s[i]))
					}
				}
			}
			run("SummationSlice", sum, func(z *F, s []F) { z.SummationSlice(s) })
			run("SummationMany", sum, func(z *F, s []F) { z.SummationMany(ptrs(s)...) })
			run("MultiplySlice", prod, func(z *F, s []F) { z.MultiplySlice(s) })
			run("MultiplyMany", prod, func(z *F, s []F) { z.MultiplyMany(ptrs(s)...) })
			if len(l.v) > 0 { // repeated pointers
				i := kit.Int(c, "rep", 0, len(l.v)-1)
				s := append([]F(nil), l.fe...)
				p := append(ptrs(s), &s[i], &s[i])
				z := junk[F, *F]()
				z.SummationMany(p...)
				w := m.Add(sum, mulK(2)(l.v[i]))
				c.Check(is[F, *F](&z, w), "SummationMany with repeated pointer: %v, want %#x", &z, w)
				z.MultiplyMany(p...)
				w = m.Mul(prod, m.Mul(l.v[i], l.v[i]))
				c.Check(is[F, *F](&z, w), "MultiplyMany with repeated pointer: %v, want %#x", &z, w)
			}
		}
	}
	long := []int{41, 64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096}
	kit.Run(t,
		kit.Sub{Name: "invert", Quick: 96000, Fn: invert(0, 1, 2, 3, 5, 12, 40)},
		kit.Sub{Name: "sum-product", Quick: 64000, Fn: sumProduct(0, 1, 2, 3, 8, 30)},
		kit.Sub{Name: "invert-long", Quick: 400, Fn: invert(long...)},
		kit.Sub{Name: "sum-product-long", Quick: 400, Fn: sumProduct(long...)},
	)
}

func p06[T any, P felt[T]](c *kit.C) {
	x := drawFE[T, P](c, "alt")
	switch kit.Int(c, "machine", 0, 3) {
	case 3: // a machine integer but for one further word
		w := new(Int).Lsh(new(Int).SetUint64(m.Limb(c)), uint(64*kit.Int(c, "word", 1, 3)))
		x.v = m.Mod(w.Add(w, big.NewInt(int64(m.Limb(c)>>1))))
		if kit.Bool(c, "neg") {
			x.v = m.Neg(x.v)
		}
		x.fe = of[T, P](x.v, x.alt)
	case 0: // the limits of machine integers
		b := kit.Oneof(c, "b", big.NewInt(math.MaxInt64), big.NewInt(math.MinInt64), new(Int).SetUint64(math.MaxUint64), new(Int), m.HalfP)
		x.v = m.Mod(new(Int).Add(b, big.NewInt(int64(kit.Int(c, "d", -3, 3)))))
		if kit.Bool(c, "neg") {
			x.v = m.Neg(x.v)
		}
		x.fe = of[T, P](x.v, x.alt)
	case 1:
		x.v = m.Mod(big.NewInt(int64(m.Limb(c))))
		x.fe = of[T, P](x.v, x.alt)
	}
	c.Case(x.v.BitLen() > 62, "%v", x)
	c.LabelIf(x.alt && hasTwo(x.v), "second representation")
	a := x.fe
	same := func(what string) {
		c.Check(is[T, P](&a, x.v), "%s changed the value of %v to %v", what, x, val[T, P](&a))
	}
	// to machine integers
	u, err := P(&a).ToUint64()
	c.Check((err == nil) == x.v.IsUint64(), "ToUint64(%v) = %d, %v", x, u, err)
	if err == nil {
		c.Check(u == x.v.Uint64(), "ToUint64(%v) = %d", x, u)
		c.Label("is a uint64")
	} else {
		cannotRepresent[T, P](c, err, x)
	}
	same("ToUint64")
	i, err := P(&a).ToInt64()
	least := x.v
	if m.Sign(x.v) < 0 {
		least = new(Int).Sub(x.v, m.P)
	}
	c.Check((err == nil) == least.IsInt64(), "ToInt64(%v) = %d, %v", x, i, err)
	if err == nil {
		c.Check(i == least.Int64(), "ToInt64(%v) = %d, want %d", x, i, least)
		c.Label("is an int64")
	} else {
		cannotRepresent[T, P](c, err, x)
	}
	same("ToInt64")
	c.Check(P(&a).Sign() == m.Sign(x.v), "Sign(%v) = %d", x, P(&a).Sign())
	// to integers and back
	bi := P(&a).ToBigInt()
	c.Check(eq(bi, x.v), "ToBigInt(%v) = %v", x, bi)
	bi.SetInt64(17) // the result belongs to the caller
	same("ToBigInt")
	var w U = garbage
	P(&a).ToUint256(&w)
	c.Check(eq(toInt(w), x.v), "ToUint256(%v) = %#x", x, toInt(w))
	z := junk[T, P]()
	P(&z).SetUint256(&w)
	c.Check(P(&z).IsEqual(P(&a)), "SetUint256(ToUint256(%v)) differs", x)
	same("ToUint256")
	// strings
	c.Check(P(&a).String() == x.v.String(), "String(%v) = %s", x, P(&a).String())
	verb := "%" + kit.Oneof(c, "flags", "", "+", "#", " ", "-", "0", "+0", "#0") + kit.Oneof(c, "width", "", "5", "80") + kit.Oneof(c, "prec", "", "", ".3", ".90") + kit.Oneof(c, "verb", "v", "d", "x", "X", "o", "b", "s", "O", "q")
	c.Check(fmt.Sprintf(verb, a) == fmt.Sprintf(verb, x.v), "formatting %v by %s gives %s, want %s", x, verb, fmt.Sprintf(verb, a), fmt.Sprintf(verb, x.v))
	c.Check(fmt.Sprintf(verb, &a) == fmt.Sprintf(verb, x.v), "formatting a pointer to %v by %s gives %s, want %s", x, verb, fmt.Sprintf(verb, &a), fmt.Sprintf(verb, x.v))
	same("formatting")
	// raw bytes
	n := P(&a).BytesLength()
	b := make([]byte, n+8)
	for k := range b {
		b[k] = 0xA5
	}
	P(&a).ToBytes(b[:n])
	c.Check(binary.BigEndian.Uint64(b[n:]) == 0xA5A5A5A5A5A5A5A5, "ToBytes writes too much")
	z = junk[T, P]()
	P(&z).SetBytes(b[:n])
	c.Check(raw[T, P](&z) == raw[T, P](&a) && is[T, P](&z, x.v), "SetBytes(ToBytes(%v)) differs", x)
	same("ToBytes")
	// normalisation: the value stays, and the representation becomes a function of the value
	n1, n2 := of[T, P](x.v, false), of[T, P](x.v, true)
	P(&a).Normalize()
	same("Normalize")
	P(&n1).Normalize()
	P(&n2).Normalize()
	c.Check(raw[T, P](&a) == raw[T, P](&n1) && raw[T, P](&a) == raw[T, P](&n2), "normalising representations of %v gives different ones", x)
	P(&n1).Normalize()
	c.Check(raw[T, P](&a) == raw[T, P](&n1), "normalising %v twice", x)
	s := kit.U64(c, "seed")
	P(&n1).RerandomizeRepresentation(s)
	P(&n2).RerandomizeRepresentation(s + 2)
	P(&n2).RerandomizeRepresentation(s)
	c.Check(is[T, P](&n1, x.v) && raw[T, P](&n1) == raw[T, P](&n2), "RerandomizeRepresentation of %v", x)
}

func cannotRepresent[T any, P felt[T]](c *kit.C, err error, x fePair[T]) {
	c.Check(errors.Is(err, fe.ErrCannotRepresentFieldElement), "%v: error %v does not wrap ErrCannotRepresentFieldElement", x, err)
	d, ok := errorsWithData.GetParameter(err, "FieldElement")
	c.Check(ok, "%v: error %v has no FieldElement", x, err)
	got, ok := d.(T)
	c.Check(ok && is[T, P](&got, x.v), "%v: error data says %v", x, d)
}

func p06set[T any, P felt[T]](c *kit.C) {
	x := m.AnyInt(c, m.P)
	X := new(Int).Set(x)
	c.Case(x.Sign() < 0 || x.Cmp(m.P) >= 0, "%#x", x)
	c.LabelIf(x.Sign() < 0, "negative")
	c.LabelIf(x.CmpAbs(m.R256) >= 0, "beyond 256 bits")
	z := junk[T, P]()
	P(&z).SetBigInt(x)
	c.Check(is[T, P](&z, x), "SetBigInt(%#x) = %v", X, val[T, P](&z))
	c.Check(eq(x, X), "SetBigInt(%#x) changed its argument", X)
	zero := m.Mod(x).Sign() == 0
	c.Check(P(&z).IsZero() == zero, "SetBigInt(%#x).IsZero", X)
	x.Add(x, m.One) // later changes of the argument are not seen
	c.Check(is[T, P](&z, X), "SetBigInt(%#x) keeps a reference", X)
	y := m.U256(c)
	Y := toU(y)
	P(&z).SetUint256(&Y)
	c.Check(is[T, P](&z, y) && Y == toU(y), "SetUint256(%#x) = %v", y, val[T, P](&z))
	k := m.Limb(c)
	P(&z).SetUint64(k)
	c.Check(is[T, P](&z, new(Int).SetUint64(k)), "SetUint64(%d) = %v", k, val[T, P](&z))
	u, err := P(&z).ToUint64()
	c.Check(err == nil && u == k, "ToUint64(SetUint64(%d)) = %d, %v", k, u, err)
	P(&z).SetInt64(int64(k))
	c.Check(is[T, P](&z, big.NewInt(int64(k))), "SetInt64(%d) = %v", int64(k), val[T, P](&z))
	i, err := P(&z).ToInt64()
	c.Check(err == nil && i == int64(k), "ToInt64(SetInt64(%d)) = %d, %v", int64(k), i, err)
	// the result takes part in arithmetic
	P(&z).SetBigInt(X)
	P(&z).AddEq(P(&z))
	c.Check(is[T, P](&z, new(Int).Add(X, X)), "SetBigInt(%#x) doubled = %v", X, val[T, P](&z))
}

func TestP06(t *testing.T) {
	subs := []kit.Sub{
		{Name: "read", Quick: 192000, Fn: p06[F, *F]},
		{Name: "set", Quick: 192000, Fn: p06set[F, *F]},
		{Name: "strings", Quick: 96000, Fn: func(c *kit.C) {
			x := m.AnyInt(c, m.P)
			s := fmt.Sprintf(kit.Oneof(c, "verb", "%d", "%#x", "%#X", "%#o", "%#b", "%+d"), x)
			bad := kit.Int(c, "bad", 0, 4) == 0
			if bad {
				s = kit.Oneof(c, "badstring", "", "x", "0x", s+"g", " "+s, s+" ", "--"+s, "1.5", "0b2", "1e3")
			}
			c.Case(true, "%q", s)
			c.LabelIf(bad, "not a number")
			ref, ok := new(Int).SetString(s, 0)
			var z F
			_, p := kit.Panics(func() { z = fe.InitFieldElementFromString[F](s) })
			c.Check(p == !ok, "InitFieldElementFromString(%q): panic %v", s, p)
			if ok {
				c.Check(is[F, *F](&z, ref), "InitFieldElementFromString(%q) = %v", s, &z)
				n := z
				n.Normalize()
				c.Check(raw[F, *F](&n) == raw[F, *F](&z), "InitFieldElementFromString(%q) is not normalised", s)
			}
			var u U
			_, p = kit.Panics(func() { u = fe.InitUint256FromString(s) })
			ok = ok && ref.Sign() >= 0 && ref.Cmp(m.R256) < 0
			c.Check(p == !ok, "InitUint256FromString(%q): panic %v", s, p)
			if ok {
				c.Check(eq(toInt(u), ref), "InitUint256FromString(%q) = %v", s, toInt(u))
			}
		}},
	}
	kit.Run(t, append(subs, p06extra...)...)
}
