//go:build go1.23

// Package refcurve is the reference model of the Bandersnatch curve: points of -5x^2+y^2 = 1+dx^2y^2 in P1 x P1
// ((X:Z),(Y:T)), with the complete pair of addition laws of Bernstein and Lange, over math/big.
// It shares no code and no formula with the library.
package refcurve

import (
	"fmt"
	"math/big"
	"sync"

	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type Int = big.Int

func num(s string) *Int {
	x, ok := new(Int).SetString(s, 0)
	if !ok {
		panic("VERIF-HARNESS bad constant " + s)
	}
	return x
}

// Pt is a point: x = X/Z, y = Y/T; neither pair is (0,0).
type Pt struct{ X, Z, Y, T *Int }

var (
	D      = num("0x6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7")
	A      = m.Mod(big.NewInt(-5))
	Order  = num("13108968793781547619861935127046491459309155893440570251786403306729687672801") // of the subgroup
	Lambda *Int                                                                                   // set in init
	one    = big.NewInt(1)
	zero   = big.NewInt(0)
	Gen    = FromAffine(num("0x29c132cc2c0b34c5743711777bbe42f32b79c022ad998465e1e71866a252ae18"), num("0x2a6c669eda123e0f157d8b50badcd586358cad81eee464605e3167b6cc974166"))
	// root is the square root of d/a that tells E1 from E2: E1 has X/T = root in extended coordinates.
	root = num("37446463827641770816307242315180085052603635617490163568005256780843403514038")
	// Torsion is N, A, E1, E2.
	Torsion = [4]Pt{
		{zero, one, one, one},
		{zero, one, m.Neg(one), one},
		{one, zero, one, root},
		{one, zero, m.Neg(one), root},
	}
)

func FromAffine(x, y *Int) Pt { return Pt{m.Mod(x), one, m.Mod(y), one} }

func (p Pt) Inf() bool { return p.Z.Sign() == 0 }

// Affine gives the affine coordinates of a finite point.
func (p Pt) Affine() (x, y *Int) {
	x, y = p.X, p.Y
	if p.Z.Cmp(one) != 0 {
		x = m.Mul(x, m.Inv(p.Z))
	}
	if p.T.Cmp(one) != 0 {
		y = m.Mul(y, m.Inv(p.T))
	}
	return
}

func (p Pt) String() string {
	for i, t := range Torsion {
		if Eq(p, t) {
			return [4]string{"N", "A", "E1", "E2"}[i]
		}
	}
	if p.Inf() {
		return fmt.Sprintf("(inf?,%x:%x)", p.Y, p.T)
	}
	x, y := p.Affine()
	return fmt.Sprintf("(%x,%x)", x, y)
}

func (p Pt) OnCurve() bool {
	if (p.X.Sign() == 0 && p.Z.Sign() == 0) || (p.Y.Sign() == 0 && p.T.Sign() == 0) {
		return false
	}
	xt, yz, zt, xy := m.Mul(p.X, p.T), m.Mul(p.Y, p.Z), m.Mul(p.Z, p.T), m.Mul(p.X, p.Y)
	l := m.Add(m.Mul(A, m.Mul(xt, xt)), m.Mul(yz, yz))
	r := m.Add(m.Mul(zt, zt), m.Mul(D, m.Mul(xy, xy)))
	return l.Cmp(r) == 0
}

func Eq(p, q Pt) bool {
	return m.Mul(p.X, q.Z).Cmp(m.Mul(q.X, p.Z)) == 0 && m.Mul(p.Y, q.T).Cmp(m.Mul(q.Y, p.T)) == 0
}

func Neg(p Pt) Pt { return Pt{m.Neg(p.X), p.Z, p.Y, p.T} }

func Add(p, q Pt) Pt {
	z1, z2 := m.Mul(p.Z, q.Z), m.Mul(p.T, q.T)
	x1, y1 := m.Mul(p.X, q.X), m.Mul(p.Y, q.Y)
	zztt, dxy := m.Mul(z1, z2), m.Mul(D, m.Mul(x1, y1))
	u, v := m.Mul(m.Mul(p.X, q.Y), m.Mul(q.Z, p.T)), m.Mul(m.Mul(q.X, p.Y), m.Mul(p.Z, q.T))
	yyzz, axxtt := m.Mul(y1, z1), m.Mul(A, m.Mul(x1, z2))
	r := Pt{m.Add(u, v), m.Add(zztt, dxy), m.Sub(yyzz, axxtt), m.Sub(zztt, dxy)}
	if (r.X.Sign() == 0 && r.Z.Sign() == 0) || (r.Y.Sign() == 0 && r.T.Sign() == 0) {
		f, g := m.Mul(m.Mul(p.X, p.Y), z22(q)), m.Mul(m.Mul(q.X, q.Y), z22(p))
		r = Pt{m.Add(f, g), m.Add(axxtt, yyzz), m.Sub(f, g), m.Sub(u, v)}
	}
	return r
}

func z22(p Pt) *Int { return m.Mul(p.Z, p.T) }

func Sub(p, q Pt) Pt { return Add(p, Neg(q)) }
func Dbl(p Pt) Pt    { return Add(p, p) }

// Mul is k*p, by double and add.
func Mul(k *Int, p Pt) Pt {
	if k.Sign() < 0 {
		return Neg(Mul(new(Int).Neg(k), p))
	}
	r := Torsion[0]
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Dbl(r)
		if k.Bit(i) == 1 {
			r = Add(r, p)
		}
	}
	return r
}

func InSubgroup(p Pt) bool { return Eq(Mul(Order, p), Torsion[0]) }

var table = sync.OnceValue(func() []Pt {
	t := make([]Pt, 254)
	t[0] = Gen
	for i := 1; i < len(t); i++ {
		d := Dbl(t[i-1])
		t[i] = FromAffine(d.Affine())
	}
	return t
})

// MulGen is k*Gen.
func MulGen(k *Int) Pt {
	k = new(Int).Mod(k, Order)
	r := Torsion[0]
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = Add(r, table()[i])
		}
	}
	return r
}

// FromX finds a y with (x,y) on the curve.
func FromX(x *Int) (*Int, bool) {
	xx := m.Mul(x, x)
	yy := m.Mul(m.Sub(one, m.Mul(A, xx)), m.Inv(m.Sub(one, m.Mul(D, xx))))
	y := new(Int).ModSqrt(yy, m.P)
	return y, y != nil
}

// FromY finds an x with (x,y) on the curve.
func FromY(y *Int) (*Int, bool) {
	yy := m.Mul(y, y)
	den := m.Sub(A, m.Mul(D, yy))
	if den.Sign() == 0 {
		return nil, false
	}
	xx := m.Mul(m.Sub(one, yy), m.Inv(den))
	x := new(Int).ModSqrt(xx, m.P)
	return x, x != nil
}

func init() {
	Lambda = num("0x13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05")
	ok := Gen.OnCurve() && InSubgroup(Gen) && m.Mul(m.Mul(root, root), A).Cmp(D) == 0 &&
		new(Int).Mod(new(Int).Add(new(Int).Mul(Lambda, Lambda), big.NewInt(2)), Order).Sign() == 0
	for i, t := range Torsion {
		ok = ok && t.OnCurve() && Eq(Dbl(t), Torsion[0])
		for j, u := range Torsion {
			ok = ok && Eq(Add(t, u), Torsion[i^j]) && Eq(t, u) == (i == j)
			s := Add(Add(Gen, t), Add(Gen, u)) // associativity and commutativity where laws change
			ok = ok && s.OnCurve() && Eq(s, Add(Dbl(Gen), Torsion[i^j])) && Eq(Sub(s, Gen), Add(Gen, Torsion[i^j]))
			e := Sub(Add(Gen, t), Add(Gen, u))
			ok = ok && Eq(e, Torsion[i^j])
		}
	}
	if !ok {
		panic("VERIF-HARNESS the reference curve is inconsistent")
	}
}
