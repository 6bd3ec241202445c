//go:build go1.23

package serial

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"testing"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/refio"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

func TestP20(t *testing.T) {
	kit.Run(t, append(p20values,
		kit.Sub{Name: "bytes", Quick: 4000, Fn: wireFormat},
		kit.Sub{Name: "roundtrip", Quick: 4000, Fn: roundTrip},
		kit.Sub{Name: "values", Quick: 2500, Fn: pointValues},
	)...)
}

// wireFormat: the bytes written are those of the format.
func wireFormat(c *kit.C) {
	s, f := serializer(c, 6)
	k := kind(c, "kind")
	p := writable(c, f, k)
	x := rc.Make(c, k, p.Pt)
	enc, _ := f.point(p.Pt, true)
	want := f.hdr[SH] + string(enc) + f.hdr[SF]
	desc := fmt.Sprintf("%v, %v %v", f, k, p)
	c.Case(!p.Inf() && p.X.Sign() != 0, "%s", desc)
	c.Label(formatNames[f.kind])
	c.Check(int(s.OutputLength()) == len(want), "%s: OutputLength is %d", desc, s.OutputLength())
	for i := 0; i < 2; i++ { // writing twice from the same object gives the same bytes
		var b bytes.Buffer
		n, err := s.SerializeCurvePoint(&b, x)
		c.Check(err == nil, "%s: writing fails: %v", desc, err)
		c.Check(n == b.Len(), "%s: reports %d bytes, wrote %d", desc, n, b.Len())
		c.Check(b.String() == want, "%s: writes %x, expected %x", desc, b.String(), want)
	}
	rc.Is(c, x, p.Pt, "%s: after writing", desc)
}

// pointValues: what is written does not depend on the type or representation.
func pointValues(c *kit.C) {
	s, f := serializer(c, 4)
	p := writable(c, f, rc.AF)
	var first []byte
	c.Case(p.X.Sign() != 0, "%v %v", f, p)
	for i := 0; i < 3; i++ {
		k := kindFor(c, "kind", p)
		var b bytes.Buffer
		n, err := s.SerializeCurvePoint(&b, rc.Make(c, k, p.Pt))
		c.Check(err == nil && n == b.Len(), "%v: writing %v as %v: %d, %v", f, p, k, n, err)
		if i > 0 {
			c.Check(bytes.Equal(first, b.Bytes()), "%v: %v is written as %x and as %x, depending on the type", f, p, first, b.Bytes())
		}
		first = b.Bytes()
	}
}

// roundTrip: what is written can be read again, by the serialiser and its derivates, and no more is consumed.
func roundTrip(c *kit.C) {
	s, f := serializer(c, 6)
	k := kind(c, "kind")
	p := writable(c, f, k)
	l := kindFor(c, "target", p)
	x, y := rc.Make(c, k, p.Pt), rc.New(l)
	was := fill(c, y)
	trust := untrusted
	if kit.Bool(c, "trusted") {
		trust = trusted
	}
	desc := fmt.Sprintf("%v, %v %v to %v, %v", f, k, p, l, trust)
	c.Case(p.X.Sign() != 0, "%s", desc)
	c.Label(formatNames[f.kind])
	var b bytes.Buffer
	n, err := s.SerializeCurvePoint(&b, x)
	c.Check(err == nil && n == b.Len() && n == int(s.OutputLength()), "%s: writing: %d bytes, %v", desc, n, err)
	tail := str(c)
	b.WriteString(tail)
	d := deserializer(c, s)
	c.Check(int(d.OutputLength()) == n, "%s: OutputLength of the deserializer is %d", desc, d.OutputLength())
	r := refio.DrawReader(c, b.Bytes(), nil)
	nr, errR := d.DeserializeCurvePoint(r, trust, y)
	c.Check(errR == nil, "%s: reading fails: %v", desc, errR)
	c.Check(nr == n && r.Consumed == n, "%s: %d bytes written, %d reported read, %d consumed", desc, n, nr, r.Consumed)
	rc.Is(c, y, p.Pt, "%s: read back (target before: %v)", desc, was)
	c.Check(y.IsEqual(x), "%s: the point read back is not equal", desc)
	rc.Is(c, x, p.Pt, "%s: the point written", desc)
}

// ---- P21

func TestP21(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "elements", Quick: 4000, Fn: hostileElements},
		kit.Sub{Name: "special", Quick: 600, Fn: specialElements},
		kit.Sub{Name: "mutations", Quick: 3000, Fn: mutations},
		kit.Sub{Name: "bytes", Quick: 1500, Fn: randomBytes},
		kit.Sub{Name: "refusals", Quick: 2500, Fn: refusals},
		kit.Sub{Name: "headers", Quick: 2000, Fn: badHeaders},
	)
}

// readOne reads data with a fresh target and compares with the model.
func readOne(c *kit.C, s Ser, f *format, data []byte, what string) outcome {
	k := kind(c, "target")
	y := rc.New(k)
	was := fill(c, y)
	o := readBatch(f, data, func(int) bool { return k.Sub() }, 1)
	desc := fmt.Sprintf("%v: reading %x (%s) into %v, %v expected", f, data, what, k, o.what)
	c.Case(o.what == fine || o.what == invalid, "%s", desc)
	c.Label(o.what.String())
	c.LabelIf(o.what == invalid, "rejected: "+formatNames[f.kind])
	c.LabelIf(o.what == fine, "accepted: "+formatNames[f.kind])
	r := refio.DrawReader(c, data, nil)
	n, err := deserializer(c, s).DeserializeCurvePoint(r, untrusted, y)
	partial := false
	if err != nil {
		partial = err.GetData_struct().PartialRead
	}
	readError(c, desc, o, result{plain(err), partial, n, r.Data[:r.Consumed]}, nil)
	switch {
	case o.what == fine:
		rc.Is(c, y, o.points[0], "%s", desc)
		c.Check(!f.sub || rc.InSubgroup(o.points[0]), "%s: the model accepts a point outside the subgroup", desc)
		// it is exactly what writing the point produces
		var b bytes.Buffer
		nw, errW := s.SerializeCurvePoint(&b, y)
		c.Check(errW == nil && nw == n && bytes.Equal(b.Bytes(), data[:n]), "%s: the point is written as %x (%v)", desc, b.Bytes(), errW)
	case o.touched < 0:
		was.check(c, y, "%s: rejected", desc)
	}
	return o
}

// plain makes an untyped nil of a nil error.
func plain[E error](e E) error {
	if any(e) == nil {
		return nil
	}
	return e
}

// element draws a 256-bit field for hostile encodings, starting from a value.
func element(c *kit.C, f *format, v *Int, h bitHdr) []byte {
	w := new(Int).Set(v)
	top := new(Int).Lsh(big.NewInt(1), uint(256-h.n))
	pre := h.bits
	switch kit.Int(c, "how", 0, 12) {
	case 0: // another representative
		w.Add(w, m.P)
	case 1:
		w = m.Neg(w)
	case 2:
		w = new(Int).Sub(m.P, big.NewInt(int64(kit.Int(c, "off", -2, 2))))
	case 3:
		w = big.NewInt(int64(kit.Int(c, "small", 0, 2)))
	case 4:
		w = m.Residue(c)
	case 5:
		w = m.U256(c)
	case 7:
		w = rc.Exceptional(c)
	case 6: // another prefix
		if h.n > 0 {
			pre ^= byte(kit.Int(c, "flip", 1, 1<<h.n-1))
		}
	}
	if w.Cmp(top) >= 0 {
		w.Mod(w, top)
	}
	b, _ := f.fe(w, bitHdr{pre, h.n})
	return b
}

// hostileElements: encodings put together from elements that are wrong one way or another.
func hostileElements(c *kit.C) {
	s, f := serializer(c, 4)
	p := rc.DrawFinite(c)
	if kit.Bool(c, "insub") {
		p = rc.DrawSub(c)
	}
	if kit.Int(c, "shift", 0, 3) == 0 {
		if q := rc.Add(p.Pt, rc.Torsion[kit.Int(c, "t", 1, 3)]); !q.Inf() {
			p = rc.Known{Pt: q, Tor: -1}
		}
	}
	v, h := f.values(p.Pt)
	if kit.Int(c, "swap", 0, 9) == 0 && len(v) == 2 {
		v[0], v[1] = v[1], v[0]
	}
	data := []byte(f.hdr[SH])
	for i := range v {
		data = append(data, element(c, f, v[i], h[i])...)
	}
	data = append(data, f.hdr[SF]...)
	readOne(c, s, f, data, fmt.Sprintf("near %v", p))
}

// specialElements: all prefixes with all values at which points are exceptional or comparisons are decided.
func specialElements(c *kit.C) {
	s, f := serializer(c, 2)
	var p rc.Known
	switch kit.Int(c, "point", 0, 2) {
	case 0:
		p = rc.Known{Pt: rc.Torsion[kit.Int(c, "t", 0, 1)], Tor: -1}
	case 1:
		p = rc.DrawSub(c)
	default:
		p = rc.DrawFinite(c)
	}
	one := big.NewInt(1)
	values, h := f.values(p.Pt)
	at := kit.Int(c, "element", 0, len(values)-1)
	other := -1
	if len(values) == 2 && kit.Bool(c, "both") {
		other = 1 - at
	}
	v := values[at]
	special := []*Int{v, m.Neg(v), new(Int), one, new(Int).Sub(m.P, one), m.P, new(Int).Add(m.P, one), new(Int).Add(v, m.P), m.HalfP, new(Int).Add(m.HalfP, one), rc.Exceptional(c), rc.Exceptional(c)}
	if other >= 0 {
		values[other] = special[kit.Int(c, "other", 2, len(special)-1)]
	}
	n := h[at].n
	for i, w := range special {
		if (i > 0 && w.Cmp(v) == 0) || w.BitLen() > 256-n {
			continue
		}
		values[at] = w
		for pre := 0; pre < 1<<n; pre++ {
			if n > 2 && pre != int(h[at].bits) && pre != int(h[at].bits)^1 && pre != int(h[at].bits)^1<<(n-1) {
				continue
			}
			data := []byte(f.hdr[SH])
			for j := range values {
				hj := h[j]
				if j == at {
					hj.bits = byte(pre)
				}
				b, ok := f.fe(new(Int).Mod(values[j], new(Int).Lsh(one, uint(256-hj.n))), hj)
				if !ok {
					panic("harness: element does not fit")
				}
				data = append(data, b...)
			}
			data = append(data, f.hdr[SF]...)
			readOne(c, s, f, data, fmt.Sprintf("special values near %v", p))
		}
	}
}

// mutations: bytes of valid encodings changed.
func mutations(c *kit.C) {
	s, f := serializer(c, 4)
	p := writable(c, f, rc.AF)
	enc, _ := f.point(p.Pt, true)
	data := []byte(f.hdr[SH] + string(enc) + f.hdr[SF])
	for i := kit.Int(c, "changes", 1, 3); i > 0; i-- {
		switch kit.Int(c, "change", 0, 4) {
		case 0, 1:
			b := kit.Int(c, "bit", 0, 8*len(data)-1)
			data[b/8] ^= 1 << (b % 8)
		case 2: // the ends of elements, where prefixes and signs are
			o := len(f.hdr[SH]) + kit.Oneof(c, "at", 0, 31, f.pointLen()-32, f.pointLen()-1)
			data[o] ^= 1 << kit.Int(c, "topbit", 0, 7)
		case 3:
			data[kit.Int(c, "at", 0, len(data)-1)] = byte(kit.Int(c, "byte", 0, 255))
		case 4:
			o := len(f.hdr[SH])
			for l, r := o, o+f.pointLen()-1; l < r; l, r = l+1, r-1 {
				data[l], data[r] = data[r], data[l]
			}
		}
	}
	readOne(c, s, f, data, fmt.Sprintf("made from %v", p))
}

// randomBytes: points are found from random bytes as well.
func randomBytes(c *kit.C) {
	s, f := serializer(c, 3)
	data := []byte(f.hdr[SH])
	body := make([]byte, f.pointLen())
	if kit.Int(c, "const", 0, 7) == 0 {
		v := kit.Oneof(c, "fill", byte(0), 0xff, 0x80, 1)
		for i := range body {
			body[i] = v
		}
	} else {
		for o := 0; o < len(body); o += 32 {
			h := f.bh[o/32]
			if f.kind == XsY || f.kind == YsX {
				h = bitHdr{byte(kit.Int(c, "sign", 0, 1)), 1}
			}
			v := m.Residue(c)
			e, ok := f.fe(v, h)
			if !ok {
				v.Rsh(v, 8)
				e, _ = f.fe(v, h)
			}
			copy(body[o:], e)
		}
	}
	data = append(append(data, body...), f.hdr[SF]...)
	readOne(c, s, f, data, "random")
}

// badHeaders: headers or footers differ.
func badHeaders(c *kit.C) {
	s, f := base(c)
	for _, i := range []int{SH, SF} {
		if v := str(c); v != "" {
			s, f.hdr[i] = s.WithParameter(hdrNames[i], v), v
		}
	}
	p := writable(c, f, rc.AF)
	enc, _ := f.point(p.Pt, true)
	h := [2]string{f.hdr[SH], f.hdr[SF]}
	i := kit.Int(c, "which", 0, 1)
	switch b := []byte(h[i]); {
	case len(b) == 0:
	case kit.Int(c, "shorter", 0, 3) == 0:
		h[i] = h[i][:len(b)-1]
	default:
		b[kit.Int(c, "at", 0, len(b)-1)] ^= 1 << kit.Int(c, "bit", 0, 7)
		h[i] = string(b)
	}
	readOne(c, s, f, []byte(h[0]+string(enc)+h[1]+"tail"), "headers")
}

// refusals: points that cannot be written are not.
func refusals(c *kit.C) {
	s, f := serializer(c, 4)
	nap, restore := rc.Watch()
	defer restore()
	var x CP
	var desc string
	var want error
	begun := false
	_ = nap
	switch kit.Int(c, "case", 0, 3) {
	case 0:
		k := kind(c, "kind")
		x = rc.New(k)
		desc, want = fmt.Sprintf("%v: writing an uninitialised %v", f, k), be.ErrCannotSerializeNaP
	case 1:
		k := kit.Oneof(c, "kind", rc.TF, rc.EF)
		t := kit.Int(c, "inf", 2, 3)
		x = rc.Make(c, k, rc.Torsion[t])
		if x == nil {
			c.Skip("infinity cannot be made")
		}
		desc, want = fmt.Sprintf("%v: writing the point at infinity E%d as %v", f, t-1, k), be.ErrCannotSerializePointAtInfinity
	case 2:
		if !f.sub {
			s, f.sub = s.WithParameter("subgrouponly", true), true
		}
		var p rc.Known
		for p = rc.DrawFinite(c); p.InSub(); {
			p = rc.Known{Pt: rc.Add(p.Pt, rc.Torsion[1]), Tor: -1}
		}
		k := kindFor(c, "kind", p)
		x = rc.Make(c, k, p.Pt)
		desc, want = fmt.Sprintf("%v: writing %v as %v", f, p, k), be.ErrWillNotSerializePointOutsideSubgroup
	default: // coordinates too large for the prefix
		if !f.pair() && f.kind != XtY {
			c.Skip("no bit header")
		}
		i := kit.Int(c, "second", 0, bi(f.pair()))
		_, v := bitHeader(c)
		h := bitHdr{byte(v.PrefixBits()), int(v.PrefixLen())}
		s, f.bh[i] = s.WithParameter([]string{"BitHeader", "BitHeader2"}[i], v), h
		p := rc.DrawFinite(c)
		if f.sub {
			p = rc.DrawSub(c)
		}
		if _, ok := f.point(p.Pt, true); ok {
			c.Skip("the coordinates fit")
		}
		k := kindFor(c, "kind", p)
		x = rc.Make(c, k, p.Pt)
		desc, want = fmt.Sprintf("%v: writing %v as %v", f, p, k), fieldElements.ErrPrefixDoesNotFit
		begun = true
	}
	c.Case(true, "%s", desc)
	c.Label(strings.Split(want.Error(), ":")[0])
	// the point itself is not begun, except where its second coordinate is the trouble
	exp := f.hdr[SH]
	if begun {
		p, _ := rc.Decode(x)
		enc, _ := f.point(p, true)
		exp += string(enc)
	}
	var b bytes.Buffer
	n, err := s.SerializeCurvePoint(&b, x)
	c.Check(err != nil && errors.Is(err, want), "%s: the error is %v", desc, err)
	c.Check(n == b.Len() && b.String() == exp, "%s: %d bytes reported, %x written", desc, n, b.Bytes())
	c.Check(err.GetData_struct().PartialWrite == (n > 0), "%s: PartialWrite is %v", desc, err.GetData_struct().PartialWrite)
	c.Check(!err.GetData_struct().IoError, "%s: IoError is set: %v", desc, err)
	c.GoodMessage(err, "%s", desc)
}

// ---- P23, single points

// faultySingle: inputs and outputs that fail.
func faultySingle(c *kit.C) {
	s, f := serializer(c, 5)
	k := kind(c, "kind")
	p := writable(c, f, k)
	enc, _ := f.point(p.Pt, true)
	data := []byte(f.hdr[SH] + string(enc) + f.hdr[SF])
	cut := kit.Int(c, "cut", 0, len(data))
	if kit.Int(c, "zero", 0, 7) == 0 {
		cut = 0
	}
	end := refio.DrawEnd(c)
	if end == io.EOF {
		end = nil
	}
	l := kindFor(c, "target", p)
	y := rc.New(l)
	was := fill(c, y)
	trust := kit.Oneof(c, "trust", trusted, untrusted)
	o := readBatch(f, data[:cut], func(int) bool { return l.Sub() }, 1)
	desc := fmt.Sprintf("%v: reading %v from the first %d bytes, then %v", f, p, cut, end)
	c.Case(cut < len(data), "%s", desc)
	c.LabelIf(cut == 0, "nothing")
	c.LabelIf(cut < len(f.hdr[SH]), "in the header")
	c.LabelIf(cut >= len(f.hdr[SH])+f.pointLen() && cut < len(data), "in the footer")
	r := refio.DrawReader(c, data[:cut], end)
	n, err := deserializer(c, s).DeserializeCurvePoint(r, trust, y)
	partial := false
	if err != nil {
		partial = err.GetData_struct().PartialRead
	}
	readError(c, desc, o, result{plain(err), partial, n, r.Data[:r.Consumed]}, end)
	if o.what == fine {
		rc.Is(c, y, p.Pt, "%s", desc)
	} else if o.touched < 0 {
		was.check(c, y, "%s", desc)
	}
}

func faultySingleWrite(c *kit.C) {
	s, f := serializer(c, 5)
	k := kind(c, "kind")
	p := writable(c, f, k)
	enc, _ := f.point(p.Pt, true)
	data := f.hdr[SH] + string(enc) + f.hdr[SF]
	w := &refio.Writer{Limit: limit(c, len(data), []int{len(f.hdr[SH]), len(enc), len(f.hdr[SF])}), Err: refio.DrawEnd(c), Early: kit.Bool(c, "early"), Once: kit.Int(c, "once", 0, 2) == 0}
	if errors.Is(w.Err, io.EOF) { // those are turned into io.ErrUnexpectedEOF
		w.Err = io.ErrShortWrite
	}
	fails := w.Limit < len(data) || w.Early
	desc := fmt.Sprintf("%v: writing %v as %v with room for %d of %d bytes (error with the last: %v)", f, p, k, w.Limit, len(data), w.Early)
	c.Case(fails, "%s", desc)
	x := rc.Make(c, k, p.Pt)
	n, err := s.SerializeCurvePoint(w, x)
	c.Check(n == len(w.Got) && n == w.Limit, "%s: %d bytes reported, %d written", desc, n, len(w.Got))
	c.Check(string(w.Got) == data[:n], "%s: %x written", desc, w.Got)
	c.Check(fails == (err != nil), "%s: error %v", desc, err)
	if err != nil {
		c.Check(errors.Is(err, w.Err), "%s: the error does not wrap the cause: %v", desc, err)
		d := err.GetData_struct()
		c.Check(d.PartialWrite == (n > 0 && n < len(data)), "%s: PartialWrite is %v (%v)", desc, d.PartialWrite, err)
		c.Check(d.IoError, "%s: IoError is not set (%v)", desc, err)
		c.Check(!strings.Contains(err.Error(), "PARSE-ERROR"), "%s: bad message %q", desc, err)
	}
	rc.Is(c, x, p.Pt, "%s: afterwards", desc)
}

var _ ps.CurvePointDeserializer
