//go:build go1.23 && verif_digits

package exp

import (
	"fmt"
	"math"

	ex "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

var p27extra = []kit.Sub{{Name: "signed", Quick: 150000, Fn: signedDigits}, {Name: "uint128", Quick: 80000, Fn: helpers}}

func signedDigits(c *kit.C) {
	x := runs(c, 128)
	w := uint(kit.Int(c, "window", 1, 8))
	if kit.Bool(c, "negative") {
		x.Neg(x)
	}
	d := ex.VerifDecompose(x, w)
	sum, text := new(Int), ""
	for i, t := range d {
		text += fmt.Sprintf(" %+d*%d<<%d", t.Sign, t.Coeff, t.Position)
		c.Check(i == 0 || t.Position > d[i-1].Position+w-1, "windows overlap or are not ascending: %#x with %v bits is%v", x, w, text)
		c.Check(t.Coeff%2 == 1 && t.Coeff < 1<<w, "digit not odd or too large: %#x with %v bits is%v", x, w, text)
		c.Check(t.Sign == 1 || t.Sign == -1, "sign: %#x with %v bits is%v", x, w, text)
		c.Check(t.Position <= 128, "position: %#x with %v bits is%v", x, w, text)
		sum.Add(sum, mul(i64(int64(t.Sign)), new(Int).Lsh(new(Int).SetUint64(uint64(t.Coeff)), t.Position)))
	}
	c.Check(eq(sum, x), "%#x with %v bits is%v, which is %#x", x, w, text, sum)
	c.Case(len(d) >= 2 && x.Bit(63) == 1 && x.Bit(64) == 1, "x=%#x window=%v", x, w)
	c.LabelIf(x.Bit(127) == 1, "top bit")
}

func helpers(c *kit.C) {
	X, Y := runs(c, 128), runs(c, 128)
	to := func(x *Int) ex.VerifUint128 {
		mask := new(Int).SetUint64(math.MaxUint64)
		return ex.VerifUint128{new(Int).And(x, mask).Uint64(), new(Int).Rsh(x, 64).Uint64()}
	}
	from := func(x ex.VerifUint128) *Int {
		return new(Int).Or(new(Int).Lsh(new(Int).SetUint64(x[1]), 64), new(Int).SetUint64(x[0]))
	}
	x, y := to(X), to(Y)
	c.Case(add(X, Y).BitLen() > 128, "x=%#x y=%#x", X, Y)
	c.Check(eq(from(ex.VerifAdd128(x, y)), mod(add(X, Y), pow(128))), "%#x+%#x", X, Y)
	c.Check(eq(from(ex.VerifMul128(x, y)), mod(mul(X, Y), pow(128))), "%#x*%#x is %#x", X, Y, from(ex.VerifMul128(x, y)))
	c.Check(eq(x.ToBigInt(), X), "ToBigInt of %#x", X)
	for i := 0; i < 128; i++ {
		c.Check(x.Bit(uint(i)) == X.Bit(i), "bit %v of %#x", i, X)
	}
	low := kit.Int(c, "low", 0, 127)
	high := low + kit.Int(c, "len", 0, 8)
	want := mod(new(Int).Rsh(X, uint(low)), pow(uint(high-low))).Uint64()
	c.Check(uint64(ex.VerifBitRange(x, uint(low), uint(high))) == want, "bits %v to %v of %#x", low, high, X)
	any := m.AnyInt(c, pow(128))
	var z ex.VerifUint128
	z.SetBigInt(any)
	c.Check(eq(from(z), mod(any, pow(128))), "uint128 from %#x is %#x", any, from(z))
	var g ex.VerifGLV
	g.SetBigInt(Y)
	in := new(Int).Set(any)
	_, did := kit.Panics(func() { g.SetBigInt(any) })
	c.Check(eq(in, any), "SetBigInt changed its argument")
	c.Check(did == (any.BitLen() > 128), "glvExponent from %#x panics: %v", any, did)
	if !did {
		c.Check(eq(g.ToBigInt(), any) && g.Sign() == any.Sign(), "glvExponent from %#x is %#x of sign %v", any, g.ToBigInt(), g.Sign())
		c.Check(any.Sign() == 0 || g.IsNegative() == (any.Sign() < 0), "glvExponent from %#x: IsNegative", any)
		for i := 0; i < 128; i++ {
			c.Check(g.Bit(uint(i)) == new(Int).Abs(any).Bit(i), "bit %v of %#x", i, any)
		}
	}
}
