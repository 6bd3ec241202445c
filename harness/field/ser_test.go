//go:build go1.23

package field

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/refio"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type endianness struct {
	name string
	e    fe.FieldElementEndianness
	big  bool
}

func drawEndian(c *kit.C) endianness {
	return kit.Oneof(c, "endian", endianness{"LE", fe.LittleEndian, false}, endianness{"BE", fe.BigEndian, true}, endianness{"LE'", common.LittleEndian, false}, endianness{"BE'", common.BigEndian, true})
}

func (e endianness) String() string { return e.name }

// encode is the fixed-width encoding of x with a prefix in the most significant bits.
func encode(x *Int, prefix, plen int, e endianness) []byte {
	y := new(Int).Or(x, new(Int).Lsh(big.NewInt(int64(prefix)), uint(256-plen)))
	if plen == 0 {
		y = x
	}
	b := y.FillBytes(make([]byte, 32))
	if !e.big {
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

// decode splits 32 bytes into prefix and the integer.
func decode(b []byte, plen int, e endianness) (x *Int, prefix int) {
	t := append([]byte(nil), b[:32]...)
	if !e.big {
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			t[i], t[j] = t[j], t[i]
		}
	}
	y := new(Int).SetBytes(t)
	prefix = int(new(Int).Rsh(y, uint(256-plen)).Int64())
	if plen == 0 {
		prefix = 0
	}
	x = new(Int).Mod(y, new(Int).Lsh(m.One, uint(256-plen)))
	return
}

type (
	serErr   = bandersnatchErrors.SerializationError
	deserErr = bandersnatchErrors.DeserializationError
)

// target is a place that can be written and read: a field element or a 256-bit integer, through one of its interfaces.
type codec struct {
	name    string
	isField bool // rejects at or above the modulus
	exact   bool // works on a *bytes.Buffer or []byte only
	write   func(v *Int, alt bool, plain bool, out io.Writer, h common.BitHeader, e fe.FieldElementEndianness) (int, serErr)
	// read reads and returns the new value of a target that had value old
	read func(old *Int, alt bool, mode readMode, in io.Reader, plen int, h common.BitHeader, e fe.FieldElementEndianness) (now *Int, n int, prefix int, err deserErr)
}
type readMode int

const (
	readPlain readMode = iota
	readGet
	readExpect
)

type feMethods interface {
	fe.FieldElementInterface_common
	fe.FieldElementSerializeMethods
}

func feCodec[T any, P felt[T]](name string, free bool) codec {
	return codec{name: name, isField: true,
		write: func(v *Int, alt bool, plain bool, out io.Writer, h common.BitHeader, e fe.FieldElementEndianness) (n int, err serErr) {
			x := of[T, P](v, alt)
			s, _ := any(&x).(feMethods)
			switch {
			case free && plain:
				n, err = fe.SerializeFieldElement(P(&x), out, e)
			case free:
				n, err = fe.SerializeFieldElementWithPrefix(P(&x), out, h, e)
			case plain:
				n, err = s.Serialize(out, e)
			default:
				n, err = s.SerializeWithPrefix(out, h, e)
			}
			if !is[T, P](&x, v) {
				panic("writing changed the element")
			}
			return
		},
		read: func(old *Int, alt bool, mode readMode, in io.Reader, plen int, h common.BitHeader, e fe.FieldElementEndianness) (now *Int, n int, prefix int, err deserErr) {
			x := of[T, P](old, alt)
			s, _ := any(&x).(feMethods)
			var p common.PrefixBits
			switch {
			case free && mode == readPlain:
				n, err = fe.DeserializeFieldElement(P(&x), in, e)
			case free && mode == readGet:
				n, p, err = fe.DeserializeFieldElementAndGetPrefix(P(&x), in, uint8(plen), e)
			case free:
				n, err = fe.DeserializeFieldElementWithExpectedPrefix(P(&x), in, h, e)
			case mode == readPlain:
				n, err = s.Deserialize(in, e)
			case mode == readGet:
				n, p, err = s.DeserializeAndGetPrefix(in, uint8(plen), e)
			default:
				n, err = s.DeserializeWithExpectedPrefix(in, h, e)
			}
			now = P(&x).ToBigInt()
			if !is[T, P](&x, now) {
				panic("inconsistent element")
			}
			return now, n, int(p), err
		}}
}

var codecs = []codec{
	feCodec[F, *F]("FieldElement methods", false),
	feCodec[F, *F]("FieldElement functions", true),
	{name: "Uint256",
		write: func(v *Int, alt bool, plain bool, out io.Writer, h common.BitHeader, e fe.FieldElementEndianness) (n int, err serErr) {
			x := toU(v)
			if plain {
				n, err = x.Serialize(out, e)
			} else {
				n, err = x.SerializeWithPrefix(out, h, e)
			}
			if x != toU(v) {
				panic("writing changed the integer")
			}
			return
		},
		read: func(old *Int, alt bool, mode readMode, in io.Reader, plen int, h common.BitHeader, e fe.FieldElementEndianness) (now *Int, n int, prefix int, err deserErr) {
			x := toU(old)
			var p common.PrefixBits
			switch mode {
			case readPlain:
				n, err = x.Deserialize(in, e)
			case readGet:
				n, p, err = x.DeserializeAndGetPrefix(in, uint8(plen), e)
			default:
				n, err = x.DeserializeWithExpectedPrefix(in, h, e)
			}
			return toInt(x), n, int(p), err
		}},
	{name: "Uint256 on buffers", exact: true,
		write: func(v *Int, alt bool, plain bool, out io.Writer, h common.BitHeader, e fe.FieldElementEndianness) (n int, err serErr) {
			x := toU(v)
			if plain {
				n, err = x.Serialize_Buffer(out.(*bytes.Buffer), e)
			} else {
				n, err = x.SerializeWithPrefix_Buffer(out.(*bytes.Buffer), h, e)
			}
			if x != toU(v) {
				panic("writing changed the integer")
			}
			return
		},
		read: func(old *Int, alt bool, mode readMode, in io.Reader, plen int, h common.BitHeader, e fe.FieldElementEndianness) (now *Int, n int, prefix int, err deserErr) {
			x := toU(old)
			var p common.PrefixBits
			switch mode {
			case readPlain:
				n, err = x.Deserialize_Buffer(in.(*bytes.Buffer), e)
			case readGet:
				n, p, err = x.DeserializeAndGetPrefix_Buffer(in.(*bytes.Buffer), uint8(plen), e)
			default:
				n, err = x.DeserializeWithExpectedPrefix(in, h, e)
			}
			return toInt(x), n, int(p), err
		}},
	{name: "Uint256 on byte slices", exact: true,
		write: func(v *Int, alt bool, plain bool, out io.Writer, h common.BitHeader, e fe.FieldElementEndianness) (n int, err serErr) {
			x := toU(v)
			buf := out.(*bytes.Buffer)
			free := buf.AvailableBuffer() // spare capacity decides what fits
			b := free[:cap(free)]
			if plain {
				n, err = x.Serialize_Bytes(b, e)
			} else {
				n, err = x.SerializeWithPrefix_Bytes(b, h, e)
			}
			buf.Write(b[:n])
			if x != toU(v) {
				panic("writing changed the integer")
			}
			return
		},
		read: func(old *Int, alt bool, mode readMode, in io.Reader, plen int, h common.BitHeader, e fe.FieldElementEndianness) (now *Int, n int, prefix int, err deserErr) {
			x := toU(old)
			var p common.PrefixBits
			b := in.(*bytes.Buffer).Bytes()
			was := string(b)
			switch mode {
			case readPlain:
				n, err = x.Deserialize_Bytes(b, e)
			case readGet:
				n, p, err = x.DeserializeAndGetPrefix_Bytes(b, uint8(plen), e)
			default:
				n, err = x.DeserializeWithExpectedPrefix(in, h, e)
				return toInt(x), n, int(p), err
			}
			if string(b) != was {
				panic("reading changed the input")
			}
			in.(*bytes.Buffer).Next(n)
			return toInt(x), n, int(p), err
		}},
}

func init() { codecs = append(codecs, extraCodecs...) }

func drawCodec(c *kit.C) codec { return codecs[kit.Int(c, "codec", 0, len(codecs)-1)] }

func drawValue(c *kit.C, cd codec) *Int {
	if cd.isField {
		return m.Residue(c)
	}
	return m.U256(c)
}

// drawPrefix draws a header; fit shortens the value so that the header fits.
func drawPrefix(c *kit.C) (p, l int, h common.BitHeader) {
	l = kit.Int(c, "plen", 0, 8)
	p = kit.Int(c, "prefix", 0, 1<<l-1)
	return p, l, common.MakeBitHeader(common.PrefixBits(p), uint8(l))
}

func fits(v *Int, l int) bool { return v.BitLen() <= 256-l }

func shorten(v *Int, l int) *Int { return new(Int).Mod(v, new(Int).Lsh(m.One, uint(256-l))) }

func TestP07(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "round-trip", Quick: 300000, Fn: func(c *kit.C) {
			cd := drawCodec(c)
			e := drawEndian(c)
			p, l, h := drawPrefix(c)
			plain := kit.Int(c, "plain", 0, 3) == 0
			if plain {
				p, l, h = 0, 0, common.MakeBitHeader(0, 0)
			}
			v := shorten(drawValue(c, cd), l)
			if cd.isField {
				v = m.Mod(v)
			}
			c.Case(v.Sign() != 0, "%s %v %0*b %#x", cd.name, e, l, p, v)
			c.LabelIf(l > 0, "with prefix")
			desc := fmt.Sprintf("%s, %v, prefix %0*b (length %d), value %#x", cd.name, e, l, p, l, v)
			want := encode(v, p, l, e)
			before := kit.Int(c, "before", 0, 3) // bytes already in the buffer
			buf := bytes.NewBuffer(append(make([]byte, 0, 200), make([]byte, before)...))
			n, err := cd.write(v, kit.Bool(c, "alt"), plain, buf, h, e.e)
			c.Check(err == nil, "writing (%s): %v", desc, err)
			c.Check(n == 32 && buf.Len() == before+32, "writing (%s) reports %d bytes, wrote %d", desc, n, buf.Len()-before)
			got := buf.Bytes()[before:]
			c.Check(bytes.Equal(got, want), "writing (%s) gives %x, want %x", desc, got, want)

			// reading, with bytes following
			tail := kit.Int(c, "tail", 0, 3)
			data := append(append([]byte(nil), want...), bytes.Repeat([]byte{0xAB}, tail)...)
			mode := readPlain
			if !plain {
				mode = kit.Oneof(c, "mode", readGet, readExpect)
			}
			var in io.Reader = bytes.NewBuffer(data)
			var rd *refio.Reader
			if !cd.exact {
				rd = refio.DrawReader(c, data, nil)
				in = rd
			}
			old := drawValue(c, cd)
			now, n, pre, derr := cd.read(old, kit.Bool(c, "altold"), mode, in, l, h, e.e)
			c.Check(derr == nil, "reading back (%s): %v", desc, derr)
			c.Check(eq(now, v), "reading back (%s) gives %#x", desc, now)
			c.Check(n == 32, "reading back (%s) reports %d bytes", desc, n)
			if rd != nil {
				c.Check(rd.Consumed == 32, "reading back (%s) consumed %d bytes", desc, rd.Consumed)
			} else {
				c.Check(in.(*bytes.Buffer).Len() == tail, "reading back (%s) leaves %d bytes rather than %d", desc, in.(*bytes.Buffer).Len(), tail)
			}
			if mode == readGet {
				c.Check(pre == p, "reading back (%s) gives prefix %b", desc, pre)
			}
		}},
		kit.Sub{Name: "sequences", Quick: 40000, Fn: func(c *kit.C) { // several values, through different interfaces, in one stream
			type item struct {
				cd   codec
				v    *Int
				p, l int
				h    common.BitHeader
				e    endianness
			}
			var items []item
			buf := new(bytes.Buffer)
			for i := kit.Int(c, "n", 1, 6); i > 0; i-- {
				it := item{cd: drawCodec(c), e: drawEndian(c)}
				it.p, it.l, it.h = drawPrefix(c)
				it.v = m.Mod(shorten(m.Residue(c), it.l))
				buf.Grow(64)
				n, err := it.cd.write(it.v, kit.Bool(c, "alt"), false, buf, it.h, it.e.e)
				c.Check(err == nil && n == 32, "writing: %d, %v", n, err)
				items = append(items, it)
			}
			c.Case(len(items) > 1, "%x", buf.Bytes())
			for i, it := range items {
				cd := drawCodec(c) // not the one that wrote
				now, n, pre, err := cd.read(new(Int), false, readGet, buf, it.l, it.h, it.e.e)
				c.Check(err == nil && n == 32 && pre == it.p && eq(now, it.v), "value %d of a sequence, written as %s and read as %s: %#x, prefix %b, %d bytes, %v", i, it.cd.name, cd.name, now, pre, n, err)
			}
			c.Check(buf.Len() == 0, "%d bytes left over", buf.Len())
		}},
	)
}

func TestP08(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "read", Quick: 400000, Fn: func(c *kit.C) {
			cd := drawCodec(c)
			e := drawEndian(c)
			mode := kit.Oneof(c, "mode", readPlain, readGet, readExpect)
			p, l, h := drawPrefix(c)
			if mode == readPlain {
				p, l, h = 0, 0, common.MakeBitHeader(0, 0)
			}
			// the bytes: the prefix present or not, the number below the modulus or not
			var num *Int
			switch kit.Int(c, "num", 0, 3) {
			case 0:
				num = new(Int).Add(m.P, big.NewInt(int64(kit.Int(c, "d", -2, 2))))
			case 1:
				num = new(Int).Sub(m.R256, big.NewInt(int64(kit.Int(c, "d", 1, 3))))
			default:
				num = m.U256(c)
			}
			there := p
			if l > 0 && kit.Int(c, "mismatch", 0, 2) == 0 {
				there = kit.Int(c, "there", 0, 1<<l-1)
			}
			full := encode(shorten(num, l), there, l, e)
			val, pre := decode(full, l, e)
			avail := 32
			if kit.Bool(c, "short") {
				avail = kit.Oneof(c, "avail", 0, 1, 31, kit.Int(c, "availn", 0, 31))
			}
			data := full[:avail]
			if avail == 32 {
				data = append(data, make([]byte, kit.Int(c, "tail", 0, 2))...)
			}
			end := refio.DrawEnd(c)
			plen := l
			if mode == readGet && kit.Int(c, "badlen", 0, 9) == 0 {
				plen = kit.Int(c, "plenbad", 9, 255)
			}
			var in io.Reader
			var rd *refio.Reader
			var bb *bytes.Buffer
			if cd.exact {
				end = io.EOF
				bb = bytes.NewBuffer(data)
				in = bb
			} else {
				rd = refio.DrawReader(c, data, end)
				in = rd
			}
			old := drawValue(c, cd)
			bad := avail < 32 || plen > 8 || pre != p || (cd.isField && val.Cmp(m.P) >= 0)
			c.Case(bad, "%s %v mode %d plen %d prefix %b data %x end %v old %#x", cd.name, e, mode, plen, p, data, end, old)
			desc := fmt.Sprintf("%s, %v, mode %d, prefix %0*b (length %d), data %x ending with %v", cd.name, e, mode, l, p, plen, data, end)
			now, n, gotPre, err := cd.read(old, kit.Bool(c, "alt"), mode, in, plen, h, e.e)
			consumed := len(data)
			if rd != nil {
				consumed = rd.Consumed
			} else {
				consumed -= bb.Len()
			}
			if plen > 8 {
				c.Label("invalid prefix length")
				c.Check(errors.Is(err, fe.ErrPrefixLengthInvalid), "%s: error %v", desc, err)
				c.GoodMessage(err, "%s", desc)
				c.Check(n == 0 && consumed == 0 && eq(now, old), "%s: reports %d bytes, consumed %d, target %#x -> %#x", desc, n, consumed, old, now)
				d := err.GetData_struct()
				c.Check(d.BytesRead == 0 && d.ActuallyRead == nil && !d.PartialRead && !d.IoError, "%s: error data %+v", desc, d)
				return
			}
			if _, isB := bytesCodec[cd.name]; isB && mode != readExpect && err != nil {
				consumed = n // an error of the []byte variant: nothing to account for but the return value
				if avail < 32 {
					c.Check(n == avail, "%s: reports %d bytes", desc, n)
				}
			}
			c.Check(n == consumed, "%s: reports %d bytes, consumed %d", desc, n, consumed)
			checkData := func() {
				d := err.GetData_struct()
				c.Check(d.BytesRead == n, "%s: error data report %d bytes, returned %d", desc, d.BytesRead, n)
				c.Check(d.PartialRead == (n != 0 && n != 32), "%s: error data %+v", desc, d)
				c.Check(bytes.Equal(d.ActuallyRead, data[:n]), "%s: error data say %x was read", desc, d.ActuallyRead)
				content := errors.Is(err, fe.ErrPrefixMismatch) || errors.Is(err, fe.ErrNonNormalizedDeserialization)
				c.Check(d.IoError == !content, "%s: IoError is %v for %v", desc, d.IoError, err)
				mm := err.GetData_map()
				c.Check(mm["BytesRead"] == n && mm["PartialRead"] == d.PartialRead, "%s: error data as map: %v", desc, mm)
				c.GoodMessage(err, "%s", desc)
			}
			// A mismatch may be noticed as soon as the first byte is there (most significant byte first), or with all bytes.
			mismatch := mode == readExpect && pre != p
			early := mismatch && e.big && avail >= 1
			if early && (avail < 32 || n == 1) {
				c.Label("prefix mismatch noticed early")
				if errors.Is(err, fe.ErrPrefixMismatch) {
					c.Check(eq(now, old), "%s: target changed from %#x to %#x", desc, old, now)
					c.Check(n >= 1, "%s: mismatch after %d bytes", desc, n)
					checkData()
					return
				}
			}
			switch {
			case avail < 32:
				c.LabelIf(avail == 0, "nothing to read")
				c.LabelIf(avail > 0, "truncated")
				c.Check(err != nil, "%s: no error", desc)
				c.Check(n == avail, "%s: reports %d bytes", desc, n)
				switch {
				case refio.Disguised(end):
					refio.CheckDisguised(c, err, end, desc)
				case end != io.EOF:
					c.Label("other read error")
					c.Check(errors.Is(err, end), "%s: error %v does not wrap the cause", desc, err)
					c.Check(!errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), "%s: error %v claims an end of the input", desc, err)
				case avail == 0:
					c.Check(errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), "%s: error %v is not io.EOF", desc, err)
				default:
					c.Check(errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, io.EOF), "%s: error %v is not io.ErrUnexpectedEOF", desc, err)
				}
				c.Check(eq(now, old), "%s: target changed from %#x to %#x", desc, old, now)
				checkData()
			case mismatch:
				c.Label("prefix mismatch")
				c.Check(errors.Is(err, fe.ErrPrefixMismatch), "%s: error %v", desc, err)
				c.Check(eq(now, old), "%s: target changed from %#x to %#x", desc, old, now)
				checkData()
			case cd.isField && val.Cmp(m.P) >= 0:
				c.Label("not reduced")
				c.Check(err != nil && errors.Is(err, fe.ErrNonNormalizedDeserialization), "%s: error %v", desc, err)
				c.Check(n == 32, "%s: reports %d bytes", desc, n)
				c.Check(eq(now, m.Mod(val)), "%s: value %#x, want the residue", desc, now)
				if mode == readGet {
					c.Check(gotPre == pre, "%s: prefix %b", desc, gotPre)
				}
				checkData()
			default:
				c.Check(err == nil, "%s: error %v", desc, err)
				c.Check(n == 32 && eq(now, val), "%s: %#x, %d bytes", desc, now, n)
				if mode == readGet {
					c.Check(gotPre == pre, "%s: prefix %b", desc, gotPre)
				}
			}
			if err != nil {
				c.Check(!errors.Is(err, fe.ErrPrefixLengthInvalid) && !errors.Is(err, fe.ErrPrefixDoesNotFit), "%s: error %v", desc, err)
				c.Check(errors.Is(err, fe.ErrPrefixMismatch) == (mismatch && n >= 1 && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, end)), "%s: error %v", desc, err)
			}
		}},
		kit.Sub{Name: "write", Quick: 300000, Fn: func(c *kit.C) {
			cd := drawCodec(c)
			e := drawEndian(c)
			p, l, h := drawPrefix(c)
			plain := kit.Int(c, "plain", 0, 3) == 0
			if plain {
				p, l, h = 0, 0, common.MakeBitHeader(0, 0)
			}
			v := drawValue(c, cd)
			switch kit.Int(c, "edge", 0, 3) {
			case 0: // the prefix just fits, or just does not
				v = new(Int).Lsh(m.One, uint(256-l))
				v.Sub(v, big.NewInt(int64(kit.Int(c, "d", 0, 2))))
				v.Mod(v, m.R256)
			case 1:
				v = shorten(v, l)
			}
			if cd.isField {
				v = m.Mod(v)
			}
			limit := -1
			if kit.Int(c, "faulty", 0, 3) > 0 {
				limit = kit.Oneof(c, "limit", 0, 1, 31, 32, kit.Int(c, "limitn", 0, 33))
			}
			c.Case(limit >= 0 && limit <= 32 || !fits(v, l), "%s %v %0*b %#x limit %d", cd.name, e, l, p, v, limit)
			desc := fmt.Sprintf("%s, %v, prefix %0*b (length %d), value %#x, room for %d", cd.name, e, l, p, l, v, limit)
			want := encode(v, p, l, e)
			var cause error = kit.Oneof(c, "cause", refio.ErrFault, io.ErrShortWrite, io.EOF, error(&refio.OtherFault{}))
			var got []byte
			var n int
			var err serErr
			checkData := func(partial bool) {
				d := err.GetData_struct()
				c.Check(d.BytesWritten == n && d.PartialWrite == partial, "%s: error data %+v for %d bytes written", desc, d, n)
				c.Check(d.IoError == !errors.Is(err, fe.ErrPrefixDoesNotFit), "%s: IoError is %v for %v", desc, d.IoError, err)
				mm := err.GetData_map()
				c.Check(mm["BytesWritten"] == n && mm["PartialWrite"] == partial, "%s: error data as map: %v", desc, mm)
				c.GoodMessage(err, "%s", desc)
			}
			early := kit.Bool(c, "early")
			if cd.exact {
				room := 40
				if limit >= 0 {
					room = limit
				}
				if cd.name == "Uint256 on buffers" {
					room = 40
				}
				buf := bytes.NewBuffer(make([]byte, 0, room))
				if room == 0 { // an empty slice that is not nil
					buf = bytes.NewBuffer(make([]byte, 0, 1)[:0:0])
				}
				limit = room
				n, err = cd.write(v, false, plain, buf, h, e.e)
				got = buf.Bytes()
				if fits(v, l) && room < 32 {
					c.Label("byte slice too small")
					c.Check(n == 0 && len(got) == 0, "%s: wrote %d bytes", desc, n)
					c.Check(err != nil, "%s: no error", desc)
					if room == 0 {
						c.Check(errors.Is(err, io.EOF) && errors.Is(err, fe.ErrEmptyByteSlice), "%s: error %v", desc, err)
					} else {
						c.Check(errors.Is(err, io.ErrUnexpectedEOF) && errors.Is(err, fe.ErrTooSmallByteSlice), "%s: error %v", desc, err)
					}
					checkData(false)
					return
				}
				limit = -1
			} else {
				w := &refio.Writer{Limit: limit, Err: cause, Early: early, Once: kit.Bool(c, "once")}
				n, err = cd.write(v, kit.Bool(c, "alt"), plain, w, h, e.e)
				got = w.Got
				if !fits(v, l) {
					c.Check(w.Calls == 0, "%s: a write was attempted", desc)
				}
			}
			c.Check(n == len(got), "%s: reports %d bytes, wrote %d", desc, n, len(got))
			switch {
			case !fits(v, l):
				c.Label("prefix does not fit")
				c.Check(err != nil && errors.Is(err, fe.ErrPrefixDoesNotFit), "%s: error %v", desc, err)
				c.Check(n == 0, "%s: wrote %d bytes", desc, n)
				checkData(false)
			case limit >= 0 && (limit < 32 || limit == 32 && early):
				c.Label("faulty writer")
				c.Check(err != nil && errors.Is(err, cause), "%s: error %v does not wrap the cause %v", desc, err, cause)
				c.Check(n == limit && bytes.Equal(got, want[:limit]), "%s: wrote %x", desc, got)
				checkData(n != 0 && n != 32)
			default:
				c.Check(err == nil && n == 32 && bytes.Equal(got, want), "%s: wrote %x, %v", desc, got, err)
			}
			if err != nil {
				c.Check(errors.Is(err, fe.ErrPrefixDoesNotFit) == !fits(v, l), "%s: error %v", desc, err)
			}
		}},
	)
}

var bytesCodec = map[string]bool{"Uint256 on byte slices": true}
