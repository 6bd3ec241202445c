//go:build go1.23

package field

import (
	"fmt"
	"math/big"
	"testing"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/rapid"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type U = fe.Uint256
type W = fe.Uint512
type Int = big.Int

// own conversions, independent of the code under test
func toInt(u U) *Int { return wordsToInt(u[:]) }
func wordsToInt(w []uint64) *Int {
	x := new(Int)
	for i := len(w) - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Or(x, new(Int).SetUint64(w[i]))
	}
	return x
}
func toU(x *Int) (u U) {
	t := new(Int).Set(x)
	mask := new(Int).SetUint64(1<<64 - 1)
	for i := range u {
		u[i] = new(Int).And(t, mask).Uint64()
		t.Rsh(t, 64)
	}
	if t.Sign() != 0 {
		panic("VERIF-HARNESS: too large")
	}
	return
}
func toW(x *Int) (w W) {
	t := new(Int).Set(x)
	mask := new(Int).SetUint64(1<<64 - 1)
	for i := range w {
		w[i] = new(Int).And(t, mask).Uint64()
		t.Rsh(t, 64)
	}
	return
}
func mod256(x *Int) *Int { return new(Int).Mod(x, m.R256) }

var garbage = U{0x1122334455667788, 0x99aabbccddeeff00, 0xdeadbeefdeadbeef, 0xfedcba9876543210}

// alias3 runs z.f(x, y) under all ways of letting operands share storage; ok judges the result.
func alias3(c *kit.C, name string, x, y *Int, f func(z, x, y *U), ok func(x, y, z *Int) bool) {
	X, Y := toU(x), toU(y)
	a, b, z := X, Y, garbage
	f(&z, &a, &b)
	c.Check(ok(x, y, toInt(z)), "%s: z:=op(x,y): x=%#x y=%#x got %#x", name, x, y, toInt(z))
	c.Check(a == X && b == Y, "%s modified an operand: x=%#x y=%#x became %#x, %#x", name, x, y, toInt(a), toInt(b))
	a, b = X, Y
	f(&a, &a, &b)
	c.Check(ok(x, y, toInt(a)), "%s: x:=op(x,y): x=%#x y=%#x got %#x", name, x, y, toInt(a))
	c.Check(b == Y, "%s (receiver aliases x) modified y: x=%#x y=%#x became %#x", name, x, y, toInt(b))
	a, b = X, Y
	f(&b, &a, &b)
	c.Check(ok(x, y, toInt(b)), "%s: y:=op(x,y): x=%#x y=%#x got %#x", name, x, y, toInt(b))
	c.Check(a == X, "%s (receiver aliases y) modified x: x=%#x y=%#x became %#x", name, x, y, toInt(a))
	a, z = X, garbage
	f(&z, &a, &a)
	c.Check(ok(x, x, toInt(z)), "%s: z:=op(x,x): x=%#x got %#x", name, x, toInt(z))
	c.Check(a == X, "%s (equal operands) modified x=%#x to %#x", name, x, toInt(a))
	a = X
	f(&a, &a, &a)
	c.Check(ok(x, x, toInt(a)), "%s: x:=op(x,x): x=%#x got %#x", name, x, toInt(a))
}

func alias2(c *kit.C, name string, x *Int, f func(z, x *U), ok func(x, z *Int) bool) {
	X := toU(x)
	a, z := X, garbage
	f(&z, &a)
	c.Check(ok(x, toInt(z)), "%s: z:=op(x): x=%#x got %#x", name, x, toInt(z))
	c.Check(a == X, "%s modified its operand x=%#x to %#x", name, x, toInt(a))
	f(&a, &a)
	c.Check(ok(x, toInt(a)), "%s: x:=op(x): x=%#x got %#x", name, x, toInt(a))
}

func eq(a, b *Int) bool { return a.Cmp(b) == 0 }

func carries(x, y *Int) bool { // something goes over a limb boundary
	X, Y := toU(x), toU(y)
	for i := range X {
		if X[i]+Y[i] < X[i] || X[i] < Y[i] || (i > 0 && X[i] == 1<<64-1) {
			return true
		}
	}
	return false
}

func TestP01(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "add-sub-mul", Quick: 60000, Fn: func(c *kit.C) {
			x, y := m.U256(c), m.U256(c)
			c.Case(carries(x, y), "%#x,%#x", x, y)
			sum, diff, prod := new(Int).Add(x, y), new(Int).Sub(x, y), new(Int).Mul(x, y)
			c.LabelIf(sum.Cmp(m.R256) >= 0, "carry out")
			c.LabelIf(diff.Sign() < 0, "borrow out")
			c.LabelIf(eq(x, y), "equal operands")
			alias3(c, "Add", x, y, func(z, x, y *U) { z.Add(x, y) }, func(x, y, z *Int) bool { return eq(mod256(new(Int).Add(x, y)), z) })
			alias3(c, "Sub", x, y, func(z, x, y *U) { z.Sub(x, y) }, func(x, y, z *Int) bool { return eq(mod256(new(Int).Sub(x, y)), z) })
			alias3(c, "Mul", x, y, func(z, x, y *U) { z.Mul(x, y) }, func(x, y, z *Int) bool { return eq(mod256(new(Int).Mul(x, y)), z) })
			var carry, borrow uint64
			alias3(c, "AddAndReturnCarry", x, y, func(z, x, y *U) { carry = z.AddAndReturnCarry(x, y) }, func(x, y, z *Int) bool {
				return eq(new(Int).Add(x, y), new(Int).Add(z, new(Int).Lsh(new(Int).SetUint64(carry), 256)))
			})
			alias3(c, "SubAndReturnBorrow", x, y, func(z, x, y *U) { borrow = z.SubAndReturnBorrow(x, y) }, func(x, y, z *Int) bool {
				return borrow <= 1 && eq(new(Int).Sub(x, y), new(Int).Sub(z, new(Int).Lsh(new(Int).SetUint64(borrow), 256)))
			})
			X, Y := toU(x), toU(y)
			w := W{9, 9, 9, 9, 9, 9, 9, 9}
			w.LongMul(&X, &Y)
			c.Check(eq(wordsToInt(w[:]), prod), "LongMul(%#x, %#x) = %#x", x, y, wordsToInt(w[:]))
			w = W{9, 9, 9, 9, 9, 9, 9, 9}
			w.LongMul(&X, &X)
			c.Check(eq(wordsToInt(w[:]), new(Int).Mul(x, x)), "LongMul(%#x, same) = %#x", x, wordsToInt(w[:]))
			w = W{9, 9, 9, 9, 9, 9, 9, 9}
			w.LongSquare(&X)
			c.Check(eq(wordsToInt(w[:]), new(Int).Mul(x, x)), "LongSquare(%#x) = %#x", x, wordsToInt(w[:]))
			l5 := [5]uint64{7, 7, 7, 7, 7}
			fe.LongMulUint64(&l5, &X, Y[0])
			c.Check(eq(wordsToInt(l5[:]), new(Int).Mul(x, new(Int).SetUint64(Y[0]))), "LongMulUint64(%#x, %#x) = %#x", x, Y[0], wordsToInt(l5[:]))
			c.Check(X.Cmp(&Y) == x.Cmp(y), "Cmp(%#x, %#x) = %d", x, y, X.Cmp(&Y))
			c.Check(X.IsLessThan(&Y) == (x.Cmp(y) < 0), "IsLessThan(%#x, %#x) = %v", x, y, X.IsLessThan(&Y))
			c.Check(fe.IsEqualAsUint256(&X, &Y) == eq(x, y), "IsEqualAsUint256(%#x, %#x)", x, y)
			c.Check(X.Cmp(&X) == 0 && !X.IsLessThan(&X), "Cmp(x,x) for %#x", x)
			c.Check(X == toU(x) && Y == toU(y), "an operation modified an operand: %#x %#x", x, y)
		}},
		kit.Sub{Name: "unary", Quick: 40000, Fn: func(c *kit.C) {
			x := m.U256(c)
			X := toU(x)
			c.Case(X[1]|X[2]|X[3] != 0, "%#x", x)
			alias2(c, "Increment", x, func(z, x *U) { z.Increment(x) }, func(x, z *Int) bool { return eq(mod256(new(Int).Add(x, m.One)), z) })
			alias2(c, "Decrement", x, func(z, x *U) { z.Decrement(x) }, func(x, z *Int) bool { return eq(mod256(new(Int).Sub(x, m.One)), z) })
			alias2(c, "IncrementEq", x, func(z, x *U) { *z = *x; z.IncrementEq() }, func(x, z *Int) bool { return eq(mod256(new(Int).Add(x, m.One)), z) })
			alias2(c, "DecrementEq", x, func(z, x *U) { *z = *x; z.DecrementEq() }, func(x, z *Int) bool { return eq(mod256(new(Int).Sub(x, m.One)), z) })
			c.LabelIf(x.Sign() == 0, "zero")
			c.LabelIf(eq(x, m.One), "one")
			c.Check(X.IsZero() == (x.Sign() == 0), "IsZero(%#x)", x)
			c.Check(X.IsOne() == eq(x, m.One), "IsOne(%#x)", x)
			c.Check(X.BitLen() == x.BitLen(), "BitLen(%#x) = %d", x, X.BitLen())
			low := new(Int).SetUint64(X[0])
			z := X
			out := z.ShiftRightEq_64()
			c.Check(out == low.Uint64() && eq(toInt(z), new(Int).Rsh(x, 64)), "ShiftRightEq_64(%#x) = %#x, %#x", x, toInt(z), out)
			z = X
			out = z.ShiftLeftEq_64()
			c.Check(out == X[3] && eq(toInt(z), mod256(new(Int).Lsh(x, 64))), "ShiftLeftEq_64(%#x) = %#x, %#x", x, toInt(z), out)
			s := uint(kit.Int(c, "shift", 0, 64))
			z = X
			z.ShiftRightEq(s)
			c.Check(eq(toInt(z), new(Int).Rsh(x, s)), "ShiftRightEq(%#x, %d) = %#x", x, s, toInt(z))
			// conversions
			c.Check(eq(X.ToBigInt(), x), "ToBigInt(%#x) = %#x", x, X.ToBigInt())
			z = garbage
			z.SetBigInt(x)
			c.Check(z == X, "SetBigInt(%#x) = %#x", x, toInt(z))
			c.Check(fe.BigIntToUInt256(x) == X, "BigIntToUInt256(%#x)", x)
			z = garbage
			z.SetUint64(X[0])
			c.Check(eq(toInt(z), low), "SetUint64(%#x)", low)
			z = garbage
			z.SetUint256(&X)
			c.Check(z == X, "SetUint256(%#x)", x)
			z = garbage
			X.ToUint256(&z)
			c.Check(z == X, "ToUint256(%#x)", x)
			z.SetZero()
			c.Check(z == U{}, "SetZero")
			z = garbage
			z.SetOne()
			c.Check(z == U{1}, "SetOne")
			c.Check(X.String() == x.String(), "String(%#x) = %s", x, X.String())
			verb := kit.Oneof(c, "verb", "%v", "%d", "%x", "%X", "%#x", "%o", "%b", "%s", "%+d", "%80d", "%-80x|", "%080d", "% d")
			c.Check(fmt.Sprintf(verb, X) == fmt.Sprintf(verb, x), "Format %s of %#x: %s", verb, x, fmt.Sprintf(verb, X))
			var ff string
			switch kit.Int(c, "base", 0, 2) {
			case 0:
				ff = x.String()
			case 1:
				ff = fmt.Sprintf("%#x", x)
			default:
				ff = fmt.Sprintf("0b%b", x)
			}
			c.Check(fe.InitUint256FromString(ff) == X, "InitUint256FromString(%s)", ff)
			c.Check(X == toU(x), "an operation modified its operand %#x", x)
		}},
		kit.Sub{Name: "wide", Quick: 20000, Fn: func(c *kit.C) {
			hi, lo := m.U256(c), m.U256(c)
			if kit.Int(c, "hi", 0, 3) == 0 {
				hi = new(Int)
			}
			x := new(Int).Add(new(Int).Lsh(hi, 256), lo)
			w := toW(x)
			c.Case(hi.Sign() != 0, "%#x", x)
			c.LabelIf(hi.Sign() == 0, "fits into 256 bits")
			c.Check(eq(w.ToBigInt(), x), "Uint512.ToBigInt(%#x) = %#x", x, w.ToBigInt())
			z := W{3, 3, 3, 3, 3, 3, 3, 3}
			z.SetBigInt(x)
			c.Check(z == w, "Uint512.SetBigInt(%#x)", x)
			c.Check(fe.BigIntToUint512(x) == w, "BigIntToUint512(%#x)", x)
			c.Check(w.String() == x.String(), "Uint512.String(%#x) = %s", x, w.String())
			verb := kit.Oneof(c, "verb", "%v", "%d", "%x", "%X", "%#x", "%s", "%b")
			c.Check(fmt.Sprintf(verb, w) == fmt.Sprintf(verb, x), "Uint512 Format %s of %#x", verb, x)
			z = W{3, 3, 3, 3, 3, 3, 3, 3}
			L := toU(lo)
			z.SetUint256(&L)
			c.Check(eq(wordsToInt(z[:]), lo), "Uint512.SetUint256(%#x)", lo)
			z = W{3, 3, 3, 3, 3, 3, 3, 3}
			z.SetUint64(L[0])
			c.Check(eq(wordsToInt(z[:]), new(Int).SetUint64(L[0])), "Uint512.SetUint64(%#x)", L[0])
			u := garbage
			_, did := kit.Panics(func() { w.ToUint256(&u) })
			c.Check(did == (hi.Sign() != 0), "Uint512.ToUint256(%#x) panicked: %v", x, did)
			c.Check(did || u == L, "Uint512.ToUint256(%#x) = %#x", x, toInt(u))
			c.Check(w == toW(x), "an operation modified a Uint512")
		}},
		kit.Sub{Name: "refused-conversions", Quick: 8000, Fn: func(c *kit.C) {
			x := m.AnyInt(c, m.R256)
			ok256 := x.Sign() >= 0 && x.BitLen() <= 256
			ok512 := x.Sign() >= 0 && x.BitLen() <= 512
			c.Case(!ok256, "%#x", x)
			c.LabelIf(x.Sign() < 0, "negative")
			c.LabelIf(ok256, "in range")
			var z U
			orig := new(Int).Set(x)
			_, did := kit.Panics(func() { z.SetBigInt(x) })
			c.Check(did == !ok256, "Uint256.SetBigInt(%#x) panicked: %v", x, did)
			_, did = kit.Panics(func() { z = fe.BigIntToUInt256(x) })
			c.Check(did == !ok256, "BigIntToUInt256(%#x) panicked: %v", x, did)
			var w W
			_, did = kit.Panics(func() { w.SetBigInt(x) })
			c.Check(did == !ok512, "Uint512.SetBigInt(%#x) panicked: %v", x, did)
			c.Check(did || eq(wordsToInt(w[:]), x), "Uint512.SetBigInt(%#x) = %#x", x, wordsToInt(w[:]))
			_, did = kit.Panics(func() { z = fe.InitUint256FromString(x.String()) })
			c.Check(did == !ok256, "InitUint256FromString(%s) panicked: %v", x, did)
			c.Check(!ok256 || eq(toInt(z), x), "InitUint256FromString(%s) = %#x", x, toInt(z))
			c.Check(eq(orig, x), "a conversion changed its argument")
		}},
	)
}

// below draws two operands below a bound.
func below(c *kit.C, bound *Int) (*Int, *Int) { return m.U256Below(c, bound), m.U256Below(c, bound) }

func cong(a, b *Int) bool { return m.Mod(a).Cmp(m.Mod(b)) == 0 }

func boundary(x *Int) bool { // within 2^66 of a place where a comparison decides
	for _, b := range []*Int{m.Zero, m.P, m.TwoP, m.CBound, m.R256, new(Int).Sub(m.R256, m.TwoP)} {
		d := new(Int).Sub(x, b)
		if d.Abs(d).BitLen() <= 66 {
			return true
		}
	}
	return false
}

func TestP02(t *testing.T) {
	below1 := func(z, b *Int) bool { return z.Cmp(b) < 0 }
	kit.Run(t, append([]kit.Sub{
		{Name: "reduction", Quick: 60000, Fn: func(c *kit.C) {
			x := m.U256(c)
			X := toU(x)
			c.Case(boundary(x), "%#x", x)
			c.LabelIf(x.Cmp(m.P) >= 0, ">= p")
			c.LabelIf(x.Cmp(m.TwoP) >= 0, ">= 2p")
			c.Check(X.IsReduced_a(), "IsReduced_a(%#x)", x)
			c.Check(X.IsReduced_f() == below1(x, m.P), "IsReduced_f(%#x) = %v", x, X.IsReduced_f())
			c.Check(X.IsReduced_b() == below1(x, m.TwoP), "IsReduced_b(%#x) = %v", x, X.IsReduced_b())
			c.Check(X.IsReduced_c() == below1(x, m.CBound), "IsReduced_c(%#x) = %v", x, X.IsReduced_c())
			c.Check(X == toU(x), "a predicate modified its operand %#x", x)
			z := X
			z.Reduce()
			c.Check(eq(toInt(z), m.Mod(x)), "Reduce(%#x) = %#x", x, toInt(z))
			z = X
			z.Reduce_fa()
			c.Check(eq(toInt(z), m.Mod(x)), "Reduce_fa(%#x) = %#x", x, toInt(z))
			z = X
			z.Reduce_ca()
			c.Check(cong(toInt(z), x) && below1(toInt(z), m.CBound), "Reduce_ca(%#x) = %#x", x, toInt(z))
			if below1(x, m.TwoP) {
				z = X
				z.Reduce_fb()
				c.Check(eq(toInt(z), m.Mod(x)), "Reduce_fb(%#x) = %#x", x, toInt(z))
			}
			n := X.ComputeModularNegative_Weak_a()
			c.Check(cong(toInt(n), new(Int).Neg(x)), "ComputeModularNegative_Weak_a(%#x) = %#x", x, toInt(n))
			z = X
			z.DoubleEqAndReduce_a()
			c.Check(cong(toInt(z), new(Int).Lsh(x, 1)), "DoubleEqAndReduce_a(%#x) = %#x", x, toInt(z))
			c.Check(X == toU(x), "an operation modified its operand %#x", x)
		}},
		{Name: "add-sub", Quick: 60000, Fn: func(c *kit.C) {
			x, y := below(c, m.R256)
			c.Case(boundary(x) || boundary(y) || boundary(new(Int).Add(x, y)) || boundary(mod256(new(Int).Sub(x, y))), "%#x,%#x", x, y)
			add := func(x, y, z *Int) bool { return cong(z, new(Int).Add(x, y)) }
			sub := func(x, y, z *Int) bool { return cong(z, new(Int).Sub(x, y)) }
			within := func(f func(x, y, z *Int) bool, b *Int) func(x, y, z *Int) bool {
				return func(x, y, z *Int) bool { return f(x, y, z) && z.Cmp(b) < 0 }
			}
			alias3(c, "AddEqAndReduce_a", x, y, func(z, x, y *U) {
				if z == y && z != x {
					t := *x
					t.AddEqAndReduce_a(y)
					*z = t
					return
				}
				if z != x {
					*z = *x
				}
				z.AddEqAndReduce_a(y)
			}, add)
			alias3(c, "SubEqAndReduce_a", x, y, func(z, x, y *U) {
				if z == y && z != x {
					t := *x
					t.SubEqAndReduce_a(y)
					*z = t
					return
				}
				if z != x {
					*z = *x
				}
				z.SubEqAndReduce_a(y)
			}, sub)
			if kit.Bool(c, "b-range") {
				x, y = new(Int).Mod(x, m.TwoP), new(Int).Mod(y, m.TwoP)
			} else {
				x, y = below(c, m.TwoP)
			}
			alias3(c, "AddAndReduce_b", x, y, func(z, x, y *U) { z.AddAndReduce_b(x, y) }, within(add, m.TwoP))
			alias3(c, "SubAndReduce_b", x, y, func(z, x, y *U) { z.SubAndReduce_b(x, y) }, within(sub, m.TwoP))
			x, y = below(c, m.CBound)
			c.LabelIf(new(Int).Add(x, y).Cmp(m.R256) >= 0, "addition overflows")
			c.LabelIf(x.Cmp(y) < 0, "subtraction underflows")
			alias3(c, "AddAndReduce_c", x, y, func(z, x, y *U) { z.AddAndReduce_c(x, y) }, within(add, m.CBound))
			alias3(c, "SubAndReduce_c", x, y, func(z, x, y *U) { z.SubAndReduce_c(x, y) }, within(sub, m.CBound))
		}},
		{Name: "mul", Quick: 40000, Fn: func(c *kit.C) {
			x, y := below(c, m.R256)
			c.Case(boundary(x) || boundary(y) || boundary(m.Mul(x, y)), "%#x,%#x", x, y)
			mul := func(x, y, z *Int) bool { return cong(z, new(Int).Mul(x, y)) }
			sqr := func(x, z *Int) bool { return cong(z, new(Int).Mul(x, x)) }
			alias3(c, "MulAndReduce_a", x, y, func(z, x, y *U) { z.MulAndReduce_a(x, y) }, mul)
			alias3(c, "MulEqAndReduce_a", x, y, func(z, x, y *U) {
				if z == y && z != x {
					z.MulEqAndReduce_a(x)
					return
				}
				if z != x {
					*z = *x
				}
				z.MulEqAndReduce_a(y)
			}, mul)
			alias2(c, "SquareAndReduce_a", x, func(z, x *U) { z.SquareAndReduce_a(x) }, sqr)
			alias2(c, "SquareEqAndReduce_a", x, func(z, x *U) {
				if z != x {
					*z = *x
				}
				z.SquareEqAndReduce_a()
			}, sqr)
		}},
		{Name: "montgomery", Quick: 40000, Fn: func(c *kit.C) {
			x, y := below(c, m.CBound)
			switch kit.Int(c, "mkind", 0, 5) {
			case 0: // product is close to a multiple of p after division
				if y.Sign() != 0 && m.Mod(y).Sign() != 0 {
					x = m.Mul(m.Mul(big.NewInt(int64(kit.Int(c, "q", -3, 3))), m.R256), m.Inv(y))
				}
			case 1: // intermediate words vanish
				y = new(Int).Lsh(new(Int).SetUint64(kit.U64(c, "y")), uint(kit.Int(c, "s", 0, 2)*64))
				y.Mod(y, m.CBound)
			}
			c.Case(boundary(x) || boundary(y) || boundary(m.Mul(m.Mul(x, y), m.RInv)), "%#x,%#x", x, y)
			ok := func(b *Int) func(x, y, z *Int) bool {
				return func(x, y, z *Int) bool { return cong(z, m.Mul(new(Int).Mul(x, y), m.RInv)) && z.Cmp(b) < 0 }
			}
			alias3(c, "MulMontgomery_c", x, y, func(z, x, y *U) { z.MulMontgomery_c(x, y) }, ok(m.CBound))
			alias2(c, "SquareMontgomery_c", x, func(z, x *U) { z.SquareMontgomery_c(x) }, func(x, z *Int) bool { return ok(m.CBound)(x, x, z) })
			alias2(c, "FromMontgomeryRepresentation_fc", x, func(z, x *U) { z.FromMontgomeryRepresentation_fc(x) }, func(x, z *Int) bool { return ok(m.P)(x, m.One, z) })
			alias2(c, "ToNonMontgomery_fc", x, func(z, x *U) { *z = x.ToNonMontgomery_fc() }, func(x, z *Int) bool { return ok(m.P)(x, m.One, z) })
			alias2(c, "ConvertToMontgomeryRepresentation_c", x, func(z, x *U) { z.ConvertToMontgomeryRepresentation_c(x) }, func(x, z *Int) bool {
				return cong(z, new(Int).Mul(x, m.R256)) && z.Cmp(m.CBound) < 0
			})
		}},
		{Name: "barrett", Quick: 40000, Fn: func(c *kit.C) {
			var x *Int
			switch kit.Int(c, "wkind", 0, 3) {
			case 0: // near multiples of p
				q := new(Int).Rsh(m.R512, uint(kit.Int(c, "top", 0, 256)))
				q.Quo(q, m.P)
				if q.Sign() != 0 && kit.Bool(c, "rnd") {
					q = new(Int).Mod(new(Int).Lsh(m.Random(c, 4), 2), q)
				}
				x = new(Int).Mul(q, m.P)
				x.Add(x, big.NewInt(int64(kit.Int(c, "d", -2, 2))))
				x.Mod(x, m.R512)
			case 1:
				x = new(Int).Add(new(Int).Lsh(m.U256(c), 256), m.U256(c))
			case 2:
				x = new(Int).Sub(m.R512, new(Int).Rsh(m.U256(c), uint(kit.Int(c, "s", 0, 255))))
				x.Sub(x, m.One)
			default:
				x = m.Random(c, 8)
			}
			c.Case(x.BitLen() > 256, "%#x", x)
			w, z := toW(x), garbage
			z.ReduceUint512ToUint256_a(w)
			c.Check(cong(toInt(z), x), "ReduceUint512ToUint256_a(%#x) = %#x", x, toInt(z))
			c.Check(w == toW(x), "ReduceUint512ToUint256_a modified its argument")
		}},
		{Name: "inverse-exp", Quick: 4000, Fn: func(c *kit.C) {
			x := m.U256(c)
			if kit.Int(c, "mult", 0, 9) == 0 {
				x = new(Int).Mul(m.P, big.NewInt(int64(kit.Int(c, "k", 0, 2))))
			}
			c.Case(boundary(x) || x.BitLen() > 192, "%#x", x)
			X := toU(x)
			a, z := X, garbage
			ok := z.ModularInverse_a_NAIVEHAC(&a)
			c.LabelIf(!ok, "not invertible")
			c.Check(ok == (m.Mod(x).Sign() != 0), "ModularInverse_a_NAIVEHAC(%#x) says %v", x, ok)
			c.Check(a == X, "ModularInverse_a_NAIVEHAC modified its argument %#x to %#x", x, toInt(a))
			c.Check(!ok || cong(new(Int).Mul(toInt(z), x), m.One), "ModularInverse_a_NAIVEHAC(%#x) = %#x", x, toInt(z))
			c.Check(ok || z == garbage, "failed inversion of %#x modified the receiver", x)
			ok = a.ModularInverse_a_NAIVEHAC(&a)
			c.Check(!ok || cong(new(Int).Mul(toInt(a), x), m.One), "ModularInverse_a_NAIVEHAC(%#x) in place = %#x", x, toInt(a))
			e := exponent(c)
			want := new(Int).Exp(m.Mod(x), e, m.P)
			wantM := m.Mul(new(Int).Exp(m.Mul(x, m.RInv), e, m.P), m.R256)
			E := toU(e)
			if kit.Bool(c, "exp-mont") {
				for _, f := range []struct {
					n    string
					f    func(z, x, y *U)
					want *Int
				}{
					{"ModularExponentiation_fa", func(z, x, y *U) { z.ModularExponentiation_fa(x, y) }, want},
					{"ModularExponentiationMontgomery_fa", func(z, x, y *U) { z.ModularExponentiationMontgomery_fa(x, y) }, wantM},
				} {
					a, b, z := X, E, garbage
					f.f(&z, &a, &b)
					c.Check(eq(toInt(z), f.want), "%s(%#x, %#x) = %#x, want %#x", f.n, x, e, toInt(z), f.want)
					c.Check(a == X && b == E, "%s modified an operand", f.n)
					f.f(&a, &a, &b)
					c.Check(eq(toInt(a), f.want), "%s(%#x, %#x) in place = %#x", f.n, x, e, toInt(a))
					a = X
					f.f(&b, &a, &b)
					c.Check(eq(toInt(b), f.want), "%s(%#x, %#x) into the exponent = %#x", f.n, x, e, toInt(b))
				}
			}
		}},
	}, append(p02alg, p02modulus...)...)...)
}

func exponent(c *kit.C) *Int {
	switch kit.Int(c, "ekind", 0, 5) {
	case 0:
		return big.NewInt(int64(kit.Int(c, "e", 0, 8)))
	case 1:
		return new(Int).Sub(m.P, big.NewInt(int64(kit.Int(c, "e", -2, 4))))
	case 2:
		return new(Int).Lsh(m.One, uint(kit.Int(c, "e", 0, 255)))
	default:
		return m.U256(c)
	}
}

var _ = rapid.Bool
