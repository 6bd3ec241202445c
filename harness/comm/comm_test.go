//go:build go1.23

package comm

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

// otherOrder is a byte order that is neither of the two.
type otherOrder struct{ binary.ByteOrder }

func words(x *big.Int) (w [4]uint64) {
	for i := range w {
		w[i] = new(big.Int).Rsh(x, uint(64*i)).Uint64() // the low 64 bits
	}
	return
}

func fixed(x *big.Int, n int, bigEndian bool) []byte {
	b := x.FillBytes(make([]byte, n))
	if !bigEndian {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

func TestP09(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "endianness", Quick: 120000, Fn: func(c *kit.C) {
			isBig := kit.Bool(c, "big")
			var e common.FieldElementEndianness
			std := binary.ByteOrder(binary.LittleEndian)
			how := kit.Int(c, "how", 0, 3)
			constant := common.LittleEndian
			if isBig {
				std, constant = binary.BigEndian, common.BigEndian
			}
			switch how {
			case 0:
				e = constant
			case 1:
				e.SetEndianness(std)
			case 2:
				e = common.BigEndian // overwritten
				e.SetEndianness(std)
			default:
				e = common.LittleEndian
				e.SetEndianness(constant)
			}
			c.Check(e == constant, "endianness set by way %d differs from the constant", how)
			c.Check(common.LittleEndian != common.BigEndian, "the byte orders are the same")
			c.Check(e.StartsWithMSB() == isBig, "StartsWithMSB of %v", e)
			c.Check(e.GetEndianness() == constant, "GetEndianness")
			e.Validate()
			c.Check(len(e.String()) > 0 && common.LittleEndian.String() != common.BigEndian.String(), "String of %v", e)

			x := m.U256(c)
			w := words(x)
			c.Case(w[1]|w[2]|w[3] != 0, "%v %#x", isBig, x)
			want := fixed(x, 32, isBig)
			extra := kit.Int(c, "extra", 0, 9)
			check := func(name string, f func(buf []byte)) {
				buf := bytes.Repeat([]byte{0x5A}, 32+extra)
				f(buf)
				c.Check(bytes.Equal(buf[:32], want), "%s (big: %v) of %#x writes %x, want %x", name, isBig, x, buf[:32], want)
				c.Check(bytes.Equal(buf[32:], bytes.Repeat([]byte{0x5A}, extra)), "%s (big: %v) of %#x writes beyond 32 bytes", name, isBig, x)
			}
			w2 := w
			check("PutUint256", func(b []byte) { e.PutUint256(b, w2) })
			check("PutUint256_ptr", func(b []byte) { e.PutUint256_ptr(b, &w2) })
			check("PutUint256_array", func(b []byte) { e.PutUint256_array((*[32]byte)(b), &w2) })
			c.Check(w2 == w, "writing changed the words of %#x", x)
			in := append(append([]byte(nil), want...), bytes.Repeat([]byte{0xC3}, extra)...)
			same := append([]byte(nil), in...)
			c.Check(e.Uint256(in) == w, "Uint256 (big: %v) of %x = %x", isBig, want, e.Uint256(in))
			r := [4]uint64{1, 2, 3, 4}
			e.Uint256_indirect(in, &r)
			c.Check(r == w, "Uint256_indirect (big: %v) of %x = %x", isBig, want, r)
			r = [4]uint64{1, 2, 3, 4}
			e.Uint256_array((*[32]byte)(in), &r)
			c.Check(r == w, "Uint256_array (big: %v) of %x = %x", isBig, want, r)
			c.Check(bytes.Equal(in, same), "reading changed the bytes")
			// reading then writing is the identity on arbitrary bytes
			y := fixed(m.U256(c), 32, true)
			buf := make([]byte, 32)
			e.PutUint256(buf, e.Uint256(y))
			c.Check(bytes.Equal(buf, y), "writing what was read from %x gives %x", y, buf)

			// too short slices are refused
			short := kit.Int(c, "short", 0, 31)
			for name, f := range map[string]func(b []byte){
				"PutUint256": func(b []byte) { e.PutUint256(b, w) }, "PutUint256_ptr": func(b []byte) { e.PutUint256_ptr(b, &w) },
				"Uint256": func(b []byte) { e.Uint256(b) }, "Uint256_indirect": func(b []byte) { var z [4]uint64; e.Uint256_indirect(b, &z) },
			} {
				backing := make([]byte, 64)
				_, did := kit.Panics(func() { f(backing[:short]) })
				c.Check(did, "%s (big: %v) accepts %d bytes", name, isBig, short)
				c.Check(bytes.Equal(backing[short:], make([]byte, 64-short)), "%s (big: %v) writes beyond the length of its slice", name, isBig)
			}
			// the ordinary widths are those of encoding/binary
			b1, b2 := make([]byte, 12), make([]byte, 12)
			e.PutUint64(b1, w[0])
			std.PutUint64(b2, w[0])
			c.Check(bytes.Equal(b1, b2) && e.Uint64(b1) == w[0], "64 bits: %x, %x", b1, b2)
			e.PutUint32(b1, uint32(w[1]))
			std.PutUint32(b2, uint32(w[1]))
			c.Check(bytes.Equal(b1, b2) && e.Uint32(b1) == uint32(w[1]), "32 bits: %x, %x", b1, b2)
			e.PutUint16(b1, uint16(w[2]))
			std.PutUint16(b2, uint16(w[2]))
			c.Check(bytes.Equal(b1, b2) && e.Uint16(b1) == uint16(w[2]), "16 bits: %x, %x", b1, b2)
			// other orders are refused and change nothing
			old := e
			_, did := kit.Panics(func() {
				e.SetEndianness(kit.Oneof[binary.ByteOrder](c, "bad", nil, otherOrder{binary.LittleEndian}, otherOrder{binary.BigEndian}, &otherOrder{binary.BigEndian}))
			})
			c.Check(did && e == old, "SetEndianness accepts an unknown byte order")
		}},
		kit.Sub{Name: "bit-headers", Quick: 40000, Fn: func(c *kit.C) {
			bits := kit.Int(c, "bits", 0, 255)
			l := kit.Oneof(c, "len", kit.Int(c, "lenvalid", 0, 8), kit.Int(c, "lenany", 0, 255), 9)
			if kit.Bool(c, "masked") && l <= 8 {
				bits &= 1<<l - 1
			}
			valid := l <= 8 && bits < 1<<l
			c.Case(l > 0, "%b/%d", bits, l)
			c.LabelIf(!valid, "refused")
			var h common.BitHeader
			_, did := kit.Panics(func() { h = common.MakeBitHeader(common.PrefixBits(bits), uint8(l)) })
			c.Check(did == !valid, "MakeBitHeader(%b, %d): panic %v", bits, l, did)
			oldLen := kit.Int(c, "oldlen", 0, 8)
			oldBits := kit.Int(c, "oldbits", 0, 1<<oldLen-1)
			g := common.MakeBitHeader(common.PrefixBits(oldBits), uint8(oldLen))
			_, did = kit.Panics(func() { g.SetBitHeader(common.PrefixBits(bits), uint8(l)) })
			c.Check(did == !valid, "SetBitHeader(%b, %d): panic %v", bits, l, did)
			if !valid {
				c.Check(int(g.PrefixBits()) == oldBits && int(g.PrefixLen()) == oldLen, "refused SetBitHeader(%b, %d) leaves %b/%d, was %b/%d", bits, l, g.PrefixBits(), g.PrefixLen(), oldBits, oldLen)
				g.Validate()
				return
			}
			for _, x := range []common.BitHeader{h, g, h.GetBitHeader()} {
				c.Check(int(x.PrefixBits()) == bits && int(x.PrefixLen()) == l, "header made from %b/%d has %b/%d", bits, l, x.PrefixBits(), x.PrefixLen())
				x.Validate()
			}
			var k common.BitHeader
			c.Check(k.PrefixLen() == 0 && k.PrefixBits() == 0, "zero header")
			k.SetBitHeaderFromBitHeader(h)
			c.Check(k == h, "SetBitHeaderFromBitHeader")
			k.SetBitHeader(0, 0) // copies are independent
			c.Check(int(h.PrefixBits()) == bits && int(h.PrefixLen()) == l, "a copy shares storage")
			// distinct headers stay distinct
			o := common.MakeBitHeader(common.PrefixBits(oldBits), uint8(oldLen))
			c.Check((o == h) == (oldBits == bits && oldLen == l), "headers %b/%d and %b/%d: equal is %v", bits, l, oldBits, oldLen, o == h)
		}},
		kit.Sub{Name: "trust-and-restriction", Quick: 2000, Fn: func(c *kit.C) {
			b := kit.Bool(c, "b")
			n := kit.Int(c, "n", 0, 1000)
			c.Case(true, "%v %d", b, n)
			c.Check(common.TrustLevelFromBool(b).Bool() == b, "TrustLevelFromBool(%v)", b)
			c.Check(common.TrustedInput.Bool() && !common.UntrustedInput.Bool(), "trust levels")
			c.Check((common.TrustLevelFromBool(b) == common.TrustedInput) == b, "trust level constants")
			var r common.SubgroupRestriction
			c.Check(!r.IsSubgroupOnly(), "default restriction")
			r.SetSubgroupRestriction(b)
			c.Check(r.IsSubgroupOnly() == b, "restriction %v", b)
			var s common.SubgroupOnly
			_, did := kit.Panics(func() { s.SetSubgroupRestriction(b) })
			c.Check(did == !b && s.IsSubgroupOnly(), "fixed restriction set to %v", b)
			c.Check(reflect.DeepEqual(r.RecognizedParameters(), s.RecognizedParameters()), "parameters")
			// constants
			pub := fmt.Sprint(common.BaseFieldSize_Int)
			c.Check(pub == m.P.String(), "base field size %s", pub)
			c.Check(common.BaseFieldBitLength == m.P.BitLen() && common.BaseFieldByteLength == 32, "lengths")
		}},
	)
}
