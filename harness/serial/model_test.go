//go:build go1.23

package serial

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/refio"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

type (
	Int = big.Int
	CP  = curvePoints.CurvePointPtrInterface
	Pt  = rc.Pt
	Ser = ps.CurvePointSerializerModifyable
	Des = ps.CurvePointDeserializerModifyable
)

// sliceSerializer is the method that the exported interface lacks.
type sliceSerializer interface {
	SerializeSlice(io.Writer, curvePoints.CurvePointSlice) (int, ps.BatchSerializationError)
}

const maxInt32 = 1<<31 - 1

var (
	trusted   = common.TrustedInput
	untrusted = common.UntrustedInput
)

// The formats.
const (
	XY = iota
	XsY
	YsX
	XtY
	YXtY
)

var formatNames = [...]string{"X||Y", "X,sign(Y)", "Y,sign(X)", "X*sign(Y)", "Y*sign(Y)||X*sign(Y)"}

type bitHdr struct {
	bits byte
	n    int
}

// The headers and footers, in the order of hdrNames.
const (
	GH = iota
	GF
	SH
	SF
	PH
	PF
)

var hdrNames = [6]string{"GlobalSliceHeader", "GlobalSliceFooter", "SinglePointHeader", "SinglePointFooter", "PerPointHeader", "PerPointFooter"}

// format is the model of a serialiser: its parameters.
type format struct {
	kind int
	big  bool
	sub  bool
	bh   [2]bitHdr
	hdr  [6]string
}

func (f *format) String() string {
	s := formatNames[f.kind]
	if f.big {
		s += ", big endian"
	}
	if f.sub {
		s += ", subgroup only"
	}
	s += fmt.Sprintf(", bit headers %0*b %0*b", f.bh[0].n, f.bh[0].bits, f.bh[1].n, f.bh[1].bits)
	for i, h := range f.hdr {
		if h != "" {
			s += fmt.Sprintf(", %s %x", hdrNames[i], h)
		}
	}
	return s
}

func (f *format) always() bool { return f.kind == XtY || f.kind == YXtY }

// pair says whether the format has two field elements.
func (f *format) pair() bool { return f.kind == XY || f.kind == YXtY }

func (f *format) params() []string {
	p := append([]string{"Endianness", "SubgroupOnly"}, hdrNames[:]...)
	switch f.kind {
	case XY, YXtY:
		return append(p, "BitHeader", "BitHeader2")
	case XtY:
		return append(p, "BitHeader")
	}
	return p
}

func (f *format) pointLen() int {
	if f.pair() {
		return 64
	}
	return 32
}

func (f *format) singleLen() int { return len(f.hdr[SH]) + f.pointLen() + len(f.hdr[SF]) }

func (f *format) sliceLen(n int64) *Int {
	per := int64(len(f.hdr[PH]) + f.pointLen() + len(f.hdr[PF]))
	r := new(Int).Mul(big.NewInt(per), big.NewInt(n))
	return r.Add(r, big.NewInt(int64(4+len(f.hdr[GH])+len(f.hdr[GF]))))
}

// fe encodes a field element with a prefix; ok is false if the prefix does not fit.
func (f *format) fe(v *Int, h bitHdr) ([]byte, bool) {
	if v.BitLen() > 256-h.n {
		return nil, false
	}
	w := new(Int).Lsh(big.NewInt(int64(h.bits)), uint(256-h.n))
	w.Or(w, v)
	b := w.FillBytes(make([]byte, 32))
	if !f.big {
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	return b, true
}

// unfe decodes a field element and its prefix of n bits; ok is false if it is not reduced.
func (f *format) unfe(b []byte, n int) (v *Int, prefix byte, ok bool) {
	c := append([]byte{}, b...)
	if !f.big {
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			c[i], c[j] = c[j], c[i]
		}
	}
	v = new(Int).SetBytes(c)
	prefix = byte(new(Int).Rsh(v, uint(256-n)).Uint64())
	v.And(v, new(Int).Sub(new(Int).Lsh(big.NewInt(1), uint(256-n)), big.NewInt(1)))
	return v, prefix, v.Cmp(m.P) < 0
}

// values gives the field elements of a finite point, with their prefixes.
func (f *format) values(p Pt) (v []*Int, h []bitHdr) {
	x, y := p.Affine()
	bit := func(s int) bitHdr {
		if s < 0 {
			return bitHdr{1, 1}
		}
		return bitHdr{0, 1}
	}
	switch f.kind {
	case XY:
		return []*Int{x, y}, f.bh[:]
	case XsY:
		return []*Int{x}, []bitHdr{bit(m.Sign(y))}
	case YsX:
		return []*Int{y}, []bitHdr{bit(m.Sign(x))}
	}
	if m.Sign(y) < 0 {
		x, y = m.Neg(x), m.Neg(y)
	}
	if f.kind == XtY {
		return []*Int{x}, f.bh[:1]
	}
	return []*Int{y, x}, f.bh[:]
}

// point encodes a point without headers. If the point cannot be written, ok is false and enc is what may be written before this is noticed.
func (f *format) point(p Pt, insub bool) (enc []byte, ok bool) {
	if p.Inf() || (f.sub && !insub) {
		return nil, false
	}
	v, h := f.values(p)
	for i := range v {
		b, ok := f.fe(v[i], h[i])
		if !ok {
			return enc, false
		}
		enc = append(enc, b...)
	}
	return enc, true
}

// decode interprets an encoding of a point (without headers) of full length.
// It gives the number of bytes needed to see that it is wrong.
func (f *format) decode(b []byte, needSub bool) (p Pt, ok bool) {
	needSub = needSub || f.sub
	get := func(i int, h bitHdr) (*Int, bool) {
		v, pre, ok := f.unfe(b[32*i:32*i+32], h.n)
		return v, ok && pre == h.bits
	}
	accept := func(x, y *Int) (Pt, bool) {
		q := rc.FromAffine(x, y)
		if needSub && !rc.InSubgroup(q) {
			return Pt{}, false
		}
		return q, true
	}
	switch f.kind {
	case XY, YXtY:
		v0, ok := get(0, f.bh[0])
		if !ok {
			return Pt{}, false
		}
		v1, ok := get(1, f.bh[1])
		if !ok {
			return Pt{}, false
		}
		if f.kind == XY {
			if !rc.FromAffine(v0, v1).OnCurve() {
				return Pt{}, false
			}
			return accept(v0, v1)
		}
		if m.Sign(v0) <= 0 || !rc.FromAffine(v1, v0).OnCurve() {
			return Pt{}, false
		}
		if rc.InSubgroup(rc.FromAffine(v1, v0)) {
			return rc.FromAffine(v1, v0), true
		}
		return accept(m.Neg(v1), m.Neg(v0))
	case XsY:
		x, sign, ok := f.unfe(b, 1)
		if !ok {
			return Pt{}, false
		}
		y, ok := rc.FromX(x)
		if !ok || !rc.FromAffine(x, y).OnCurve() {
			return Pt{}, false
		}
		if (m.Sign(y) < 0) != (sign == 1) {
			y = m.Neg(y)
		}
		return accept(x, y)
	case YsX:
		y, sign, ok := f.unfe(b, 1)
		if !ok {
			return Pt{}, false
		}
		x, ok := rc.FromY(y)
		if !ok || !rc.FromAffine(x, y).OnCurve() || (x.Sign() == 0 && sign == 1) {
			return Pt{}, false
		}
		if x.Sign() != 0 && (m.Sign(x) < 0) != (sign == 1) {
			x = m.Neg(x)
		}
		return accept(x, y)
	}
	x, ok := get(0, f.bh[0])
	if !ok {
		return Pt{}, false
	}
	y, ok := rc.FromX(x)
	if !ok || !rc.FromAffine(x, y).OnCurve() {
		return Pt{}, false
	}
	if m.Sign(y) < 0 {
		y = m.Neg(y)
	}
	if rc.InSubgroup(rc.FromAffine(x, y)) {
		return rc.FromAffine(x, y), true
	}
	return accept(m.Neg(x), m.Neg(y))
}

// ---- reading, by the model

type what int

const (
	fine     what = iota
	ioError       // the input ended or failed
	mismatch      // of a header or footer
	invalid       // not the encoding of a point
	badSize       // the size is not an int32
	overflow      // the size makes for too many bytes
	tooSmall      // the target is too small
)

var whatNames = [...]string{"success", "i/o error", "header mismatch", "invalid point", "size exceeds int32", "length exceeds int32", "buffer too small"}

func (w what) String() string { return whatNames[w] }

// outcome is what the model says about reading.
//
// How much is read of a header or point that turns out to be wrong is left open: from least to consumed bytes.
// Where a point is both incomplete and wrong already, either may be reported.
type outcome struct {
	what     what
	either   bool
	consumed int // what is consumed in the end, at most
	least    int
	start    int // where the object begins that PartialRead is about, and its length (0: unknown)
	length   *Int
	points   []Pt // those delivered
	written  int  // how many points count as processed
	touched  int  // index of a point that may have been touched though it does not count; -1: none
}

type input struct {
	data   []byte
	pos    int
	least  int // after an error
	either bool
}

// take consumes n bytes.
func (in *input) take(n int) ([]byte, bool) {
	if len(in.data)-in.pos < n {
		in.pos = len(in.data)
		return nil, false
	}
	in.pos += n
	return in.data[in.pos-n : in.pos], true
}

func (in *input) expect(h string) what {
	start := in.pos
	b, ok := in.take(len(h))
	if !ok {
		if !strings.HasPrefix(h, string(in.data[start:])) {
			in.either, in.least = true, start+1
		}
		return ioError
	}
	if string(b) != h {
		in.least = start + 1
		return mismatch
	}
	return fine
}

func (in *input) point(f *format, needSub bool) (Pt, what) {
	start := in.pos
	left := in.data[in.pos:]
	if len(left) < f.pointLen() {
		// what is there may be wrong already
		in.pos, in.least = len(in.data), len(in.data)
		if f.alreadyWrong(left) {
			in.either, in.least = true, start+1
		}
		return Pt{}, ioError
	}
	p, ok := f.decode(left[:f.pointLen()], needSub)
	in.pos = start + f.pointLen()
	if !ok {
		in.least = start + 1
		return p, invalid
	}
	return p, fine
}

// alreadyWrong: the beginning of an encoding shows that it is wrong.
func (f *format) alreadyWrong(b []byte) bool {
	for i, h := range f.bh {
		if i == 1 && !f.pair() || len(b) <= 32*i {
			break
		}
		b := b[32*i:]
		if f.big && h.n > 0 && b[0]>>(8-h.n) != h.bits {
			return true
		}
		if len(b) >= 32 {
			if _, pre, ok := f.unfe(b[:32], h.n); !ok || pre != h.bits {
				return true
			}
		}
	}
	return false
}

func (in *input) single(f *format, needSub bool) (p Pt, w what, decoded bool) {
	if w = in.expect(f.hdr[SH]); w != fine {
		return
	}
	if p, w = in.point(f, needSub); w != fine {
		return
	}
	return p, in.expect(f.hdr[SF]), true
}

func (in *input) failed(o *outcome, w what) {
	o.what, o.either = w, in.either
	o.least = in.pos
	if w != fine && (w != ioError || in.either) {
		o.least = in.least
	}
	o.consumed = in.pos
}

// readBatch is the model of reading n points one after another.
func readBatch(f *format, data []byte, needSub func(i int) bool, n int) (o outcome) {
	in := &input{data: data}
	o.touched = -1
	o.length = big.NewInt(int64(f.singleLen()))
	for i := 0; i < n; i++ {
		o.start = in.pos
		p, w, decoded := in.single(f, needSub(i))
		in.failed(&o, w)
		if w != fine {
			if decoded {
				o.touched = i
			}
			return
		}
		o.points = append(o.points, p)
		o.written = i + 1
	}
	return
}

// readSlice is the model of reading a slice into a target of length capacity (negative: any length).
func readSlice(f *format, data []byte, needSub func(i int) bool, capacity int) (o outcome) {
	in := &input{data: data}
	o.touched = -1
	w := fine
	defer func() { in.failed(&o, w) }()
	if w = in.expect(f.hdr[GH]); w != fine {
		return
	}
	b, ok := in.take(4)
	in.least = in.pos
	if !ok {
		w = ioError
		return
	}
	n := binary.LittleEndian.Uint32(b)
	if n > maxInt32 {
		w = badSize
		return
	}
	o.length = f.sliceLen(int64(n))
	if o.length.Cmp(big.NewInt(maxInt32)) > 0 {
		w = overflow
		return
	}
	if capacity >= 0 && int(n) > capacity {
		w = tooSmall
		return
	}
	for i := 0; i < int(n); i++ {
		if w = in.expect(f.hdr[PH]); w != fine {
			return
		}
		p, wp := in.point(f, needSub(i))
		if w = wp; w != fine {
			return
		}
		o.points = append(o.points, p)
		o.written = i + 1
		if w = in.expect(f.hdr[PF]); w != fine {
			return
		}
	}
	w = in.expect(f.hdr[GF])
	return
}

// result is what reading reported.
type result struct {
	err     error
	partial bool
	n       int    // the bytes reported
	in      []byte // those consumed
}

// honest checks that the data of an error do not claim bytes that were not transferred.
func honest(c *kit.C, desc string, err error, consumed []byte) {
	data := ewd.GetData_map(err)
	if v, ok := data["BytesRead"]; ok {
		n, ok := v.(int)
		c.Check(ok && 0 <= n && n <= len(consumed), "%s: the error data have BytesRead %v, %d were consumed (%v)", desc, v, len(consumed), err)
	}
	if v, ok := data["ActuallyRead"]; ok && v != nil {
		b, ok := v.([]byte)
		c.Check(ok && bytes.Contains(consumed, b), "%s: the error data have ActuallyRead %x, from %x (%v)", desc, v, consumed, err)
		c.LabelIf(len(b) > 0, "error with the bytes read")
	}
}

// readError compares a report of reading with the outcome of the model.
func readError(c *kit.C, desc string, o outcome, rep result, end error) {
	r := struct {
		err     error
		partial bool
		n, read int
	}{rep.err, rep.partial, rep.n, len(rep.in)}
	c.Check(r.n == r.read, "%s: %d bytes reported, %d consumed", desc, r.n, r.read)
	c.Check(o.least <= r.read && r.read <= o.consumed, "%s: %d bytes consumed, expected %d to %d", desc, r.read, o.least, o.consumed)
	err := r.err
	if o.what == fine {
		c.Check(err == nil, "%s: fails with %v", desc, err)
		return
	}
	c.Check(err != nil, "%s: succeeds, expected %v", desc, o.what)
	honest(c, desc, err, rep.in)
	partial := r.read > o.start && (o.length == nil || big.NewInt(int64(r.read-o.start)).Cmp(o.length) < 0)
	c.Check(partial == r.partial, "%s: PartialRead is %v after %d bytes (%v, error %v)", desc, r.partial, r.read, o.what, err)
	c.GoodMessage(err, "%s", desc)
	if o.either {
		return
	}
	io1, ok := ewd.GetData_map(err)["IoError"].(bool)
	c.Check(ok && io1 == (o.what == ioError), "%s: IoError is %v (%v, error %v)", desc, io1, o.what, err)
	isEOF, isUnexpected := errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF)
	switch {
	case o.what == ioError && end == nil:
		if o.consumed == 0 {
			c.Check(isEOF && !isUnexpected, "%s: nothing was read, the error is %v", desc, err)
		} else {
			c.Check(!isEOF && isUnexpected, "%s: the input ended after %d bytes, the error is %v (EOF: %v)", desc, o.consumed, err, isEOF)
		}
	case o.what == ioError && refio.Disguised(end):
		refio.CheckDisguised(c, err, end, desc)
	case o.what == ioError:
		c.Check(errors.Is(err, end), "%s: the error does not wrap %v: %v", desc, end, err)
		c.Check(!isEOF && !isUnexpected, "%s: the error is an end of the input: %v", desc, err)
	default:
		c.Check(!isEOF && !isUnexpected, "%s: %v reported as an end of the input: %v", desc, o.what, err)
	}
	c.Check((o.what == mismatch) == errors.Is(err, ps.ErrDidNotReadExpectedString), "%s: for %v, the error is %v", desc, o.what, err)
	c.Check((o.what == tooSmall) == errors.Is(err, ps.ErrInsufficientBufferForDeserialization), "%s: for %v, the error is %v", desc, o.what, err)
	c.Check((o.what == badSize) == errors.Is(err, be.ErrSizeDoesNotFitInt32), "%s: for %v, the error is %v", desc, o.what, err)
}

// ---- generators

var endian = map[bool][]binary.ByteOrder{
	false: {binary.LittleEndian, common.LittleEndian, common.DefaultEndian},
	true:  {binary.BigEndian, common.BigEndian},
}

func str(c *kit.C) string {
	switch kit.Int(c, "str", 0, 5) {
	case 0, 1:
		return ""
	case 2:
		return kit.Oneof(c, "const", "\x00", "[", "header", "%v{X}", "\xff\xfe")
	}
	n := kit.Int(c, "len", 1, 9)
	if kit.Int(c, "long", 0, 15) == 0 {
		n = kit.Int(c, "longlen", 30, 80)
	}
	if kit.Int(c, "very long", 0, 99) == 0 {
		n = kit.Oneof(c, "verylonglen", 127, 128, 255, 256, 257, 300, 512, 1000, 4096, 5000)
	}
	b := make([]byte, n)
	for i := range b {
		if i < 100 {
			b[i] = byte(kit.Int(c, "byte", 0, 255))
		} else {
			b[i] = 7*b[i-97] + byte(i>>3)
		}
	}
	return string(b)
}

// base draws one of the serialisers that exist, and its parameters.
func base(c *kit.C) (Ser, *format) {
	k := kit.Int(c, "base", 0, 1+5*bi(ps_available))
	switch k {
	case 0:
		return ps.BanderwagonShort, &format{kind: XtY, sub: true, bh: [2]bitHdr{{1, 1}, {}}}
	case 1:
		return ps.BanderwagonLong, &format{kind: YXtY, sub: true, bh: [2]bitHdr{{0, 2}, {1, 1}}}
	}
	f := &format{kind: k - 2}
	f.sub = f.always()
	return serializers()[k-2], f
}

func bi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func bitHeader(c *kit.C) (bitHdr, common.BitHeader) {
	n := kit.Oneof(c, "bits", 0, 0, 1, 1, 1, 1, 2, 2, 3, 8)
	h := bitHdr{byte(kit.Int(c, "prefix", 0, 1<<n-1)), n}
	return h, common.MakeBitHeader(common.PrefixBits(h.bits), uint8(n))
}

// derive changes a parameter at random.
func derive(c *kit.C, s Ser, f *format) (Ser, *format, string) {
	name := kit.Oneof(c, "param", f.params()...)
	g := *f
	spelled := name
	switch kit.Int(c, "case", 0, 3) {
	case 0:
		spelled = strings.ToLower(name)
	case 1:
		spelled = strings.ToUpper(name)
	}
	switch name {
	case "Endianness":
		g.big = kit.Bool(c, "big")
		e := kit.Oneof(c, "order", endian[g.big]...)
		if kit.Bool(c, "direct") {
			return s.WithEndianness(e), &g, fmt.Sprintf("WithEndianness(%v)", e)
		}
		return s.WithParameter(spelled, e), &g, fmt.Sprintf("WithParameter(%s,%v)", spelled, e)
	case "SubgroupOnly":
		g.sub = f.always() || kit.Bool(c, "sub")
		return s.WithParameter(spelled, g.sub), &g, fmt.Sprintf("WithParameter(%s,%v)", spelled, g.sub)
	case "BitHeader", "BitHeader2":
		h, v := bitHeader(c)
		g.bh[bi(name == "BitHeader2")] = h
		return s.WithParameter(spelled, v), &g, fmt.Sprintf("WithParameter(%s,%v)", spelled, h)
	}
	v := str(c)
	for i, n := range hdrNames {
		if n == name {
			g.hdr[i] = v
		}
	}
	desc := fmt.Sprintf("WithParameter(%s,%x)", spelled, v)
	if kit.Bool(c, "asstring") {
		return s.WithParameter(spelled, v), &g, desc
	}
	b := []byte(v)
	s = s.WithParameter(spelled, b)
	for i := range b { // the argument is the caller's
		b[i] ^= 0x55
	}
	return s, &g, desc
}

// serializer draws a serialiser with parameters.
func serializer(c *kit.C, max int) (Ser, *format) {
	s, f := base(c)
	for i := kit.Int(c, "changes", 0, max); i > 0; i-- {
		s, f, _ = derive(c, s, f)
	}
	return s, f
}

// deserializer draws a reading variant of the serialiser.
func deserializer(c *kit.C, s Ser) ps.CurvePointDeserializer {
	if kit.Bool(c, "asdeserializer") {
		return s.AsDeserializer()
	}
	return s
}

// writable draws a point that the format can write and the kind can hold.
func writable(c *kit.C, f *format, k rc.Kind) rc.Known {
	for i := 0; ; i++ {
		var p rc.Known
		if f.sub || k.Sub() {
			p = rc.DrawSub(c)
		} else {
			p = rc.DrawFinite(c)
		}
		if _, ok := f.point(p.Pt, true); ok {
			return p
		}
		if i > 60 {
			c.Skip("no point with short coordinates found")
		}
	}
}

func kind(c *kit.C, label string) rc.Kind { return rc.Kind(kit.Int(c, label, 0, int(rc.NKinds)-1)) }

// fits draws a kind that can hold the points.
func kindFor(c *kit.C, label string, pts ...rc.Known) rc.Kind {
	for {
		k := kind(c, label)
		ok := true
		for _, p := range pts {
			ok = ok && rc.Fits(k, p)
		}
		if ok {
			return k
		}
	}
}

// filler is what targets hold before they are read to: a fresh point or a known one.
type filler struct {
	fresh bool
	p     Pt
}

func fill(c *kit.C, dst CP) filler {
	if kit.Int(c, "fresh", 0, 3) == 0 {
		return filler{fresh: true}
	}
	k := rc.KindOf(dst)
	p := rc.MulGen(big.NewInt(int64(kit.Int(c, "filler", 1, 50))))
	rc.Assign(dst, rc.Make(c, k, p))
	return filler{p: p}
}

func (f filler) check(c *kit.C, dst CP, format string, args ...any) {
	desc := fmt.Sprintf(format, args...)
	if f.fresh {
		c.Check(dst.IsNaP(), "%s: a point was written: %v", desc, dst)
		return
	}
	rc.Is(c, dst, f.p, "%s: overwritten", desc)
}

// holder is a slice of points of some kind.
type holder struct {
	slice  curvePoints.CurvePointSlice
	at     func(i int) CP
	reuse  func(from, to int) ps.DeserializeSliceMaker
	create ps.DeserializeSliceMaker
	opened func(out any) ([]CP, bool) // what the output of DeserializeSlice with create holds
}

func hold[T any, P interface {
	*T
	CP
}](n int) holder {
	v := make([]T, n)
	return holder{
		slice:  curvePoints.AsCurvePointSlice[T, P](v),
		at:     func(i int) CP { return P(&v[i]) },
		reuse:  func(from, to int) ps.DeserializeSliceMaker { return ps.UseExistingSlice[T, P](v[from:to]) },
		create: ps.CreateNewSlice[T, P],
		opened: func(out any) (r []CP, ok bool) {
			o, ok := out.([]T)
			for i := range o {
				r = append(r, P(&o[i]))
			}
			return
		},
	}
}

func newHolder(k rc.Kind, n int) holder {
	switch k {
	case rc.AF:
		return hold[curvePoints.Point_axtw_full](n)
	case rc.AS:
		return hold[curvePoints.Point_axtw_subgroup](n)
	case rc.TF:
		return hold[curvePoints.Point_xtw_full](n)
	case rc.TS:
		return hold[curvePoints.Point_xtw_subgroup](n)
	case rc.EF:
		return hold[curvePoints.Point_efgh_full](n)
	}
	return hold[curvePoints.Point_efgh_subgroup](n)
}

func put(c *kit.C, dst CP, p Pt) { rc.Assign(dst, rc.Make(c, rc.KindOf(dst), p)) }

func short(b []byte) string { return fmt.Sprintf("%x", b) }
