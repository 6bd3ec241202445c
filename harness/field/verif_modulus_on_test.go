//go:build go1.23 && verif_modulus

package field

import (
	"math/big"

	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

// the constants of a Barrett reduction, computed for an arbitrary modulus of more than 192 bits
var p02modulus = []kit.Sub{{Name: "reciprocal", Quick: 8000, Fn: func(c *kit.C) {
	x := m.U256(c)
	switch kit.Int(c, "modkind", 0, 4) {
	case 0:
		x = new(Int).Lsh(m.One, uint(kit.Int(c, "pow", 192, 255)))
		x.Add(x, big.NewInt(int64(kit.Int(c, "d", -2, 2))))
	case 1: // the quotient is close to an integer
		q := new(Int).Add(new(Int).Lsh(m.One, 256), new(Int).Rsh(m.Random(c, 5), uint(kit.Int(c, "s", 0, 64))))
		q.Rsh(q, uint(kit.Int(c, "back", 0, 60)))
		x.Quo(m.R512, q)
		x.Add(x, big.NewInt(int64(kit.Int(c, "d", -1, 1))))
		x.Mod(x, m.R256)
	case 2:
		x = new(Int).Set(m.P)
	default:
		x.Rsh(x, uint(kit.Int(c, "s", 0, 64)))
	}
	ok := x.BitLen() > 192
	c.Case(ok, "%#x", x)
	c.LabelIf(!ok, "refused")
	var re [5]uint64
	var mmu0, mmu1 [4]uint64
	v, did := kit.Panics(func() { re, mmu0, mmu1 = fe.VerifModulus(toU(x)) })
	c.Check(did == !ok, "modulus.FromUint256(%#x) panicked: %v %v", x, did, v)
	if !ok {
		return
	}
	// re is the largest number with re * x < 2^512
	want := new(Int).Sub(m.R512, m.One)
	want.Quo(want, x)
	c.Check(eq(wordsToInt(re[:]), want), "reciprocal of %#x is %#x, want %#x", x, wordsToInt(re[:]), want)
	// the largest multiple below 2^256 and the next one, reduced
	lo := new(Int).Sub(m.R256, m.One)
	lo.Sub(lo, new(Int).Mod(lo, x))
	c.Check(eq(wordsToInt(mmu0[:]), lo), "mmu0 of %#x is %#x, want %#x", x, wordsToInt(mmu0[:]), lo)
	hi := mod256(new(Int).Add(lo, x))
	c.Check(eq(wordsToInt(mmu1[:]), hi), "mmu1 of %#x is %#x, want %#x", x, wordsToInt(mmu1[:]), hi)
}}}
