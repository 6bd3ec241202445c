//go:build go1.23

// Package refmath has the big.Int reference arithmetic and the number generators. It does not use the code under test.
package refmath

import (
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

func hex(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("VERIF-HARNESS bad constant")
	}
	return x
}

// The base field.
var (
	P      = hex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
	R256   = new(big.Int).Lsh(big.NewInt(1), 256)
	R512   = new(big.Int).Lsh(big.NewInt(1), 512)
	TwoP   = new(big.Int).Lsh(P, 1)
	CBound = new(big.Int).Sub(R256, P) // exclusive bound of "c-reduced"
	RInv   = new(big.Int).ModInverse(R256, P)
	One    = big.NewInt(1)
	Zero   = big.NewInt(0)
	HalfP  = new(big.Int).Rsh(P, 1) // (P-1)/2
)

// Mod reduces into [0, P).
func Mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, P) }

func Add(x, y *big.Int) *big.Int { return Mod(new(big.Int).Add(x, y)) }
func Sub(x, y *big.Int) *big.Int { return Mod(new(big.Int).Sub(x, y)) }
func Mul(x, y *big.Int) *big.Int { return Mod(new(big.Int).Mul(x, y)) }
func Neg(x *big.Int) *big.Int    { return Mod(new(big.Int).Neg(x)) }
func Inv(x *big.Int) *big.Int    { return new(big.Int).ModInverse(x, P) }

// Legendre computes the quadratic character by Euler's criterion.
func Legendre(x *big.Int) int {
	e := new(big.Int).Exp(Mod(x), HalfP, P)
	switch {
	case e.Sign() == 0:
		return 0
	case e.Cmp(One) == 0:
		return 1
	default:
		return -1
	}
}

// Sign is the sign of the representative of least absolute value.
func Sign(x *big.Int) int {
	switch {
	case x.Sign() == 0:
		return 0
	case x.Cmp(HalfP) > 0:
		return -1
	default:
		return 1
	}
}

var limbs = []uint64{0, 1, 2, 1<<64 - 1, 1<<64 - 2, 1 << 63, 1<<63 - 1, 1 << 32, 1<<32 - 1, 0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48,
	0xfffffffe00000002, 0xa77b4805fffcb7fd, 0x6673b0101343b00a, 0xe7db4ea6533afa90, 0x8c1258acd66282b7, 0xccc627f7f65e27fa, 0xac425bfd0001a401, 0x00000000ffffffff, 0x1824b159acc5056f}

// Limb draws a 64-bit word, with a bias to the words where carries and comparisons are decided.
func Limb(c *kit.C) uint64 {
	switch k := kit.Int(c, "limbkind", 0, 9); {
	case k < 5:
		return kit.Oneof(c, "limb", limbs...)
	case k < 7:
		b := kit.Oneof(c, "limb", limbs...)
		return b + uint64(kit.Int(c, "d", -3, 3))
	default:
		return kit.U64(c, "limb")
	}
}

func fromLimbs(l ...uint64) *big.Int {
	x := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(l[i]))
	}
	return x
}

// Random draws an (almost) uniform integer of the given number of 64-bit words.
func Random(c *kit.C, words int) *big.Int {
	l := make([]uint64, words)
	for i := range l {
		l[i] = kit.U64(c, "w")
	}
	return fromLimbs(l...)
}

func clamp(x, bound *big.Int) *big.Int { return x.Mod(x, bound) }

func near(c *kit.C) *big.Int {
	var b *big.Int
	switch kit.Int(c, "near", 0, 9) {
	case 0:
		b = new(big.Int)
	case 1, 2:
		b = new(big.Int).Set(P)
	case 3:
		b = new(big.Int).Set(TwoP)
	case 4:
		b = new(big.Int).Set(CBound)
	case 5:
		b = new(big.Int).Sub(R256, TwoP)
	case 6:
		b = new(big.Int).Set(R256)
	case 7:
		b = new(big.Int).Set(HalfP)
	case 8: // the top limb decides, the lower limbs do not
		b = new(big.Int).Lsh(new(big.Int).Rsh(kit.Oneof(c, "b", P, TwoP, CBound), uint(64*kit.Int(c, "s", 1, 3))), 0)
		b = new(big.Int).Lsh(b, uint(256-b.BitLen()-kit.Int(c, "t", 0, 2)))
	default:
		b = new(big.Int).Lsh(One, uint(kit.Int(c, "pow", 0, 255)))
	}
	if kit.Bool(c, "small") {
		return b.Add(b, big.NewInt(int64(kit.Int(c, "delta", -4, 4))))
	}
	d := new(big.Int).SetUint64(kit.U64(c, "delta"))
	d.Lsh(d, uint(kit.Int(c, "shift", 0, 2)*64))
	d.Rsh(d, uint(kit.Int(c, "back", 0, 63)))
	if kit.Bool(c, "sgn") {
		d.Neg(d)
	}
	return b.Add(b, d)
}

// U256 draws an integer in [0, 2^256).
func U256(c *kit.C) *big.Int {
	switch k := kit.Int(c, "kind", 0, 11); {
	case k < 4:
		return fromLimbs(Limb(c), Limb(c), Limb(c), Limb(c))
	case k < 8:
		return clamp(near(c), R256)
	case k < 9: // a run of ones
		a, b := kit.Int(c, "a", 0, 256), kit.Int(c, "b", 0, 256)
		x := new(big.Int).Lsh(One, uint(a))
		x.Sub(x, new(big.Int).Lsh(One, uint(b)))
		return clamp(x, R256)
	default:
		return Random(c, 4)
	}
}

// U256Below draws an integer in [0, bound) with the same biases.
func U256Below(c *kit.C, bound *big.Int) *big.Int {
	x := U256(c)
	if x.Cmp(bound) < 0 {
		return x
	}
	switch kit.Int(c, "below", 0, 2) {
	case 0:
		return clamp(x, bound)
	case 1: // reflect from the top
		x.Sub(R256, x)
		x.Sub(bound, x)
		return clamp(x, bound)
	default:
		return new(big.Int).Sub(bound, big.NewInt(int64(kit.Int(c, "d", 1, 4))))
	}
}

// Residue draws an element of the field: special values, values whose Montgomery representation is special, and uniform ones.
func Residue(c *kit.C) *big.Int {
	switch k := kit.Int(c, "rkind", 0, 12); {
	case k == 12: // a multiple of the internal representation by a small number has words close to where they wrap
		return Mul(SmallMultiple(c), RInv)
	case k < 1:
		return big.NewInt(int64(kit.Int(c, "v", 0, 6)))
	case k < 2:
		return Neg(big.NewInt(int64(kit.Int(c, "v", 1, 6))))
	case k < 4:
		return Mod(U256(c))
	case k < 8: // a special internal representation
		return Mul(U256Below(c, CBound), RInv)
	case k < 9: // has two representations, at the boundary
		w := new(big.Int).Sub(R256, TwoP)
		w.Add(w, big.NewInt(int64(kit.Int(c, "d", -3, 3))))
		return Mul(w, RInv)
	default:
		return Mod(Random(c, 4))
	}
}

var twoTo256 = []uint64{0x00000001fffffffe, 0x5884b7fa00034802, 0x998c4fefecbc4ff5, 0x1824b159acc5056f} // 2^256 mod p

// SmallMultiple draws an integer below 2^256 - p whose words, multiplied by 5 (or 3 or 7), land close to the places where they
// wrap, also after a small multiple of 2^256 mod p is added to correct for the overflow.
func SmallMultiple(c *kit.C) *big.Int {
	inv := kit.Oneof[uint64](c, "inv", 0xcccccccccccccccd, 0xcccccccccccccccd, 0xcccccccccccccccd, 0xaaaaaaaaaaaaaaab, 0x6db6db6db6db6db7)
	var l [4]uint64
	for i := range l {
		switch kit.Int(c, "mkind", 0, 3) {
		case 0:
			l[i] = kit.U64(c, "w")
		case 1:
			l[i] = Limb(c) * inv
		default:
			t := -uint64(kit.Int(c, "j", 0, 5)) * twoTo256[i]
			d := kit.U64(c, "d") >> uint(kit.Int(c, "back", 24, 63))
			if kit.Bool(c, "sgn") {
				d = -d
			}
			l[i] = (t + d) * inv
		}
	}
	if kit.Int(c, "top", 0, 3) > 0 { // close to where a multiple leaves 2^256
		l[3] = uint64(kit.Oneof(c, "f", 0x1999, 0x3333, 0x4ccc, 0x6666, 0x5555, 0x2492, 0x4924, 0x6db6)) << 48
		l[3] -= kit.U64(c, "below") >> uint(kit.Int(c, "back", 3, 40))
	}
	return clamp(fromLimbs(l[:]...), CBound)
}

// AnyInt draws an integer of any sign and size.
func AnyInt(c *kit.C, m *big.Int) *big.Int {
	var x *big.Int
	switch kit.Int(c, "ikind", 0, 6) {
	case 0:
		x = big.NewInt(int64(kit.Int(c, "i", -10, 10)))
	case 1:
		x = U256(c)
	case 2: // near multiples of m
		x = new(big.Int).Mul(m, big.NewInt(int64(kit.Int(c, "k", -6, 6))))
		x.Add(x, big.NewInt(int64(kit.Int(c, "d", -3, 3))))
	case 3: // near multiples of m, far out
		x = new(big.Int).Mul(m, Random(c, kit.Int(c, "words", 1, 10)))
		x.Add(x, big.NewInt(int64(kit.Int(c, "d", -3, 3))))
	case 4: // around machine-integer limits
		x = new(big.Int).Lsh(One, uint(kit.Oneof(c, "e", 31, 32, 62, 63, 64, 65, 127, 128, 192, 255, 256, 257, 512)))
		x.Add(x, big.NewInt(int64(kit.Int(c, "d", -3, 3))))
	default:
		x = Random(c, kit.Int(c, "words", 1, 12))
	}
	if kit.Bool(c, "neg") {
		x = new(big.Int).Neg(x)
	}
	return x
}
