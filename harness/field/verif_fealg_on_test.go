//go:build go1.23 && verif_fealg

package field

import (
	"math/big"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

// The package keeps further implementations of some operations beside those in use.

var p02alg = []kit.Sub{{Name: "alternative-reductions", Quick: 60000, Fn: altReduce}, {Name: "alternative-montgomery", Quick: 60000, Fn: altMontgomery}}
var p04alg = []kit.Sub{{Name: "alternative-exp", Quick: 3000, Fn: altExp}, {Name: "odd-order", Quick: 3000, Fn: oddOrder}}

func altReduce(c *kit.C) {
	x := m.U256(c)
	c.Case(boundary(x), "%#x", x)
	for _, f := range []struct {
		n string
		f func(z *U)
	}{{"reduce_fa_loop", fe.VerifReduceFaLoop}, {"reduce_fa_barret", fe.VerifReduceFaBarret}} {
		z := toU(x)
		f.f(&z)
		c.Check(eq(toInt(z), m.Mod(x)), "%s(%#x) = %#x", f.n, x, toInt(z))
	}
	z, two := toU(x), new(Int).Lsh(m.P, 1)
	fe.VerifReduceFbOptimistic(&z)
	c.Check(cong(toInt(z), x), "reduce_fb_optimistic(%#x) = %#x", x, toInt(z))
	c.Check(x.Cmp(two) >= 0 || toInt(z).Cmp(m.P) < 0, "reduce_fb_optimistic(%#x) = %#x is not reduced", x, toInt(z))
}

func altMontgomery(c *kit.C) {
	x, y := m.U256(c), m.U256(c)
	k := new(Int).SetUint64(kit.U64(c, "k"))
	if kit.Bool(c, "special") {
		k.Rsh(toIntWord(^uint64(0)), uint(kit.Int(c, "ks", 0, 63)))
	}
	c.Case(boundary(x) || boundary(y), "%#x,%#x,%#x", x, y, k)
	X := toU(x)
	low, high := fe.VerifMulFourOne(&X, k.Uint64())
	got := new(Int).Or(new(Int).Lsh(toInt(high), 64), new(Int).SetUint64(low))
	c.Check(eq(got, new(Int).Mul(x, k)) && X == toU(x), "mul_four_one_64(%#x,%#x)=%#x", x, k, got)
	// (y + x*k) >> 64 always fits
	Y := toU(y)
	low = fe.VerifAddMulShift(&Y, &X, k.Uint64())
	sum := new(Int).Add(y, new(Int).Mul(x, k))
	got = new(Int).Or(new(Int).Lsh(toInt(Y), 64), new(Int).SetUint64(low))
	c.Check(eq(got, sum) && X == toU(x), "add_mul_shift_64(%#x,%#x,%#x)=%#x, want %#x", y, x, k, got, sum)
	// y + (p*k)>>64 + 1 mod 2^256
	Y = toU(y)
	fe.VerifMontgomeryStep(&Y, k.Uint64())
	want := new(Int).Rsh(new(Int).Mul(m.P, k), 64)
	want.Add(want, y).Add(want, m.One)
	c.Check(eq(toInt(Y), mod256(want)), "montgomery_step_64(%#x,%#x)=%#x, want %#x", y, k, toInt(Y), mod256(want))
	x, y = new(Int).Mod(x, m.CBound), new(Int).Mod(y, m.CBound)
	alias3(c, "mulMontgomerySlow_c", x, y, func(z, x, y *U) { fe.VerifMulMontgomerySlow(z, x, y) }, func(x, y, z *Int) bool {
		return cong(z, m.Mul(new(Int).Mul(x, y), m.RInv)) && z.Cmp(m.CBound) < 0
	})
}

func toIntWord(x uint64) *Int { return new(Int).SetUint64(x) }

func altExp(c *kit.C) {
	x, e := m.U256(c), exponent(c)
	if kit.Bool(c, "short") {
		e = new(Int).Rsh(e, uint(kit.Int(c, "s", 160, 255)))
	}
	c.Case(boundary(x) || e.BitLen() <= 80, "%#x,%#x", x, e)
	want := m.Mul(new(Int).Exp(m.Mul(x, m.RInv), e, m.P), m.R256)
	a, b, z := toU(x), toU(e), garbage
	fe.VerifSlidingWindow(&z, &a, &b)
	c.Check(eq(toInt(z), want), "modularExponentiationSlidingWindowMontgomery_fa(%#x, %#x) = %#x, want %#x", x, e, toInt(z), want)
	c.Check(a == toU(x) && b == toU(e), "modularExponentiationSlidingWindowMontgomery_fa modified an operand")
	fe.VerifSlidingWindow(&a, &a, &b)
	c.Check(eq(toInt(a), want), "modularExponentiationSlidingWindowMontgomery_fa(%#x, %#x) in place = %#x, want %#x", x, e, toInt(a), want)
	a = toU(x)
	fe.VerifSlidingWindow(&b, &a, &b)
	c.Check(eq(toInt(b), want), "modularExponentiationSlidingWindowMontgomery_fa(%#x, %#x) into the exponent = %#x, want %#x", x, e, toInt(b), want)
}

func oddOrder(c *kit.C) {
	odd := new(Int).Rsh(new(Int).Sub(m.P, m.One), 32)
	v := m.Mod(m.U256(c))
	n := -1
	if kit.Bool(c, "root") { // a root of unity of order 2^n
		n = kit.Int(c, "n", 0, 32)
		v = new(Int).Exp(big.NewInt(5), odd, m.P) // of order 2^32
		v.Exp(v, new(Int).Lsh(m.One, uint(32-n)), m.P)
		if n > 0 {
			k := new(Int).SetUint64(kit.U64(c, "k") | 1)
			v.Exp(v, k, m.P)
		}
	}
	c.Case(n >= 0, "%#x", v)
	var x, z, cand, root fe.FieldElement
	x.SetBigInt(v)
	old := x
	fe.VerifExpOddOrder(&z, &x)
	c.Check(eq(z.ToBigInt(), new(Int).Exp(v, odd, m.P)) && x.IsEqual(&old), "%#x to the odd part of the group order is %#x", v, z.ToBigInt())
	fe.VerifRelevantPowers(&x, &cand, &root)
	half := new(Int).Rsh(new(Int).Add(odd, m.One), 1)
	c.Check(root.IsEqual(&z) && eq(cand.ToBigInt(), new(Int).Exp(v, half, m.P)) && x.IsEqual(&old), "powers of %#x: %#x and %#x", v, cand.ToBigInt(), root.ToBigInt())
	fe.VerifExpOddOrder(&x, &x)
	c.Check(x.IsEqual(&z), "%#x to the odd part of the group order, in place, is %#x", v, x.ToBigInt())
	x = old
	if v.Sign() == 0 {
		_, did := kit.Panics(func() { fe.VerifDyadicOrder(&x) })
		c.Check(did, "the order of 0 as a root of unity")
		return
	}
	o := fe.VerifDyadicOrder(&x)
	want := -1
	for k, w := 0, v; k <= 32; k++ {
		if w.Cmp(m.One) == 0 {
			want = k
			break
		}
		w = m.Mul(w, w)
	}
	c.Check(o == want, "order of %#x as a root of unity is %v, want %v", v, o, want)
}
