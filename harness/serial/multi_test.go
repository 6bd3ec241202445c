//go:build go1.23

package serial

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"testing"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/refio"
)

func TestP22(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "batch", Quick: 1800, Fn: batchRoundTrip(6)},
		kit.Sub{Name: "slice", Quick: 2500, Fn: sliceRoundTrip(6)},
		kit.Sub{Name: "batch-long", Quick: 80, Fn: batchRoundTrip(600)},
		kit.Sub{Name: "slice-long", Quick: 80, Fn: sliceRoundTrip(600)},
		kit.Sub{Name: "hostile", Quick: 2500, Fn: hostileSlices},
		kit.Sub{Name: "lengths", Quick: 4000, Fn: lengths},
		kit.Sub{Name: "refusals", Quick: 1000, Fn: batchRefusals},
		kit.Sub{Name: "makers", Quick: 2500, Fn: ownMakers},
	)
}

func TestP23(t *testing.T) {
	kit.Run(t, append(p23values,
		kit.Sub{Name: "single", Quick: 4000, Fn: faultySingle},
		kit.Sub{Name: "singlewrite", Quick: 3000, Fn: faultySingleWrite},
		kit.Sub{Name: "batch", Quick: 2500, Fn: faultyBatch},
		kit.Sub{Name: "bounded", Quick: 1500, Fn: bounded},
		kit.Sub{Name: "slice", Quick: 3000, Fn: faultySlice},
		kit.Sub{Name: "multiwrite", Quick: 3000, Fn: faultyMultiWrite},
	)...)
}

// list draws points that the format can write and the kind can hold.
func list(c *kit.C, f *format, k rc.Kind, max int) []rc.Known {
	pts := make([]rc.Known, kit.Int(c, "n", 0, max))
	if max > 6 {
		pts = make([]rc.Known, kit.Oneof(c, "long", 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600, kit.Int(c, "anylong", 7, 300), kit.Oneof(c, "longer", 511, 512, 513, 1023, 1024, 1025, 2049)))
	}
	for i := range pts {
		if i > 6 {
			pts[i] = pts[(i*i+i/7)%7]
		} else if i > 0 && kit.Int(c, "repeat", 0, 5) == 0 {
			pts[i] = pts[kit.Int(c, "which", 0, i-1)]
		} else {
			pts[i] = writable(c, f, k)
		}
	}
	return pts
}

func (f *format) encodeBatch(pts []rc.Known) (b []byte) {
	for _, p := range pts {
		e, _ := f.point(p.Pt, true)
		b = append(append(append(b, f.hdr[SH]...), e...), f.hdr[SF]...)
	}
	return
}

func (f *format) encodeSlice(pts []rc.Known) (b []byte) {
	b = binary.LittleEndian.AppendUint32([]byte(f.hdr[GH]), uint32(len(pts)))
	for _, p := range pts {
		e, _ := f.point(p.Pt, true)
		b = append(append(append(b, f.hdr[PH]...), e...), f.hdr[PF]...)
	}
	return append(b, f.hdr[GF]...)
}

func show(pts []rc.Known) string {
	var s []string
	for _, p := range pts {
		s = append(s, fmt.Sprint(p))
	}
	return "[" + strings.Join(s, "; ") + "]"
}

// filled makes a slice with the points written into it.
func filled(c *kit.C, k rc.Kind, pts []rc.Known) holder {
	h := newHolder(k, len(pts))
	for i, p := range pts {
		put(c, h.at(i), p.Pt)
	}
	return h
}

// ptrs draws a list of pointers to points of various kinds, in a view.
func ptrs(c *kit.C, ks func() rc.Kind, n int) ([]CP, curvePoints.CurvePointSlice) {
	v := make([]CP, n)
	for i := range v {
		v[i] = rc.New(ks())
	}
	if kit.Bool(c, "generic") {
		return v, curvePoints.GenericPointSlice(v)
	}
	return v, curvePoints.AsCurvePointPtrSlice(v)
}

func readTrust(c *kit.C) ps.IsInputTrusted { return kit.Oneof(c, "trust", untrusted, trusted) }

// target is a list of points to read to.
type target struct {
	pts   []CP
	was   []filler
	slice curvePoints.CurvePointSlice
	desc  string
}

func newTarget(c *kit.C, n int, common rc.Known, all []rc.Known) target {
	var t target
	if kit.Bool(c, "mixed") {
		i := 0
		t.pts, t.slice = ptrs(c, func() rc.Kind {
			i++
			if i <= len(all) {
				return kindFor(c, "kind", all[i-1])
			}
			return kind(c, "kind")
		}, n)
		t.desc = "pointers"
	} else {
		k := kindFor(c, "kind", all...)
		h := newHolder(k, n)
		t.slice = h.slice
		for i := 0; i < n; i++ {
			t.pts = append(t.pts, h.at(i))
		}
		t.desc = "[]" + k.String()
	}
	for _, p := range t.pts {
		t.was = append(t.was, fill(c, p))
	}
	return t
}

func (t target) check(c *kit.C, desc string, o outcome) {
	for i, p := range t.pts {
		switch {
		case i < len(o.points):
			rc.Is(c, p, o.points[i], "%s: point %d", desc, i)
		case i == o.touched:
		default:
			t.was[i].check(c, p, "%s: point %d", desc, i)
		}
	}
}

func batchRoundTrip(max int) func(c *kit.C) {
	return func(c *kit.C) {
		s, f := serializer(c, 5)
		k := kind(c, "kind")
		pts := list(c, f, k, max)
		data := f.encodeBatch(pts)
		desc := fmt.Sprintf("%v: %d points %s of %v one after another", f, len(pts), show(pts), k)
		c.Case(len(pts) > 1, "%s", desc)
		var b bytes.Buffer
		var src curvePoints.CurvePointSlice
		var at func(int) CP
		if kit.Bool(c, "mixedsource") {
			v, sl := ptrs(c, func() rc.Kind { return k }, len(pts))
			for i, p := range pts {
				put(c, v[i], p.Pt)
			}
			src, at = sl, func(i int) CP { return v[i] }
		} else {
			h := filled(c, k, pts)
			src, at = h.slice, h.at
		}
		n, err := s.SerializeCurvePoints(&b, src)
		c.Check(err == nil && n == b.Len(), "%s: writing: %d, %v", desc, n, err)
		c.Check(bytes.Equal(b.Bytes(), data), "%s: writes %x, expected %x", desc, b.Bytes(), data)
		for i, p := range pts {
			rc.Is(c, at(i), p.Pt, "%s: point %d after writing", desc, i)
		}
		// read any number of them
		want := kit.Int(c, "read", 0, len(pts))
		t := newTarget(c, want, rc.Known{}, pts[:want])
		d, trust := deserializer(c, s), readTrust(c)
		desc += fmt.Sprintf(", reading %d into %s, %v", want, t.desc, trust)
		r := refio.DrawReader(c, data, nil)
		o := readBatch(f, data, func(i int) bool { return false }, want)
		var nr int
		var errR error
		if kit.Bool(c, "variadic") {
			var e ps.BatchDeserializationError
			nr, e = ps.DeserializeCurvePoints_Variadic(d, r, trust, t.pts...)
			errR = plain(e)
		} else {
			var e ps.BatchDeserializationError
			nr, e = d.DeserializeCurvePoints(r, trust, t.slice)
			errR = plain(e)
		}
		c.Check(o.what == fine && errR == nil, "%s: fails with %v", desc, errR)
		c.Check(nr == o.consumed && r.Consumed == nr, "%s: %d bytes reported, %d consumed, expected %d", desc, nr, r.Consumed, o.consumed)
		t.check(c, desc, o)
	}
}

func writeSlice(c *kit.C, s Ser, f *format, k rc.Kind, pts []rc.Known, desc string) []byte {
	data := f.encodeSlice(pts)
	if ss, ok := s.(sliceSerializer); ok {
		var b bytes.Buffer
		h := filled(c, k, pts)
		n, err := ss.SerializeSlice(&b, h.slice)
		c.Check(err == nil && n == b.Len(), "%s: writing: %d, %v", desc, n, err)
		c.Check(bytes.Equal(b.Bytes(), data), "%s: writes %x, expected %x", desc, b.Bytes(), data)
		l, err2 := s.SliceOutputLength(int32(len(pts)))
		c.Check(err2 == nil && int(l) == n, "%s: SliceOutputLength is %d, %v, %d bytes written", desc, l, err2, n)
		for i, p := range pts {
			rc.Is(c, h.at(i), p.Pt, "%s: point %d after writing", desc, i)
		}
	}
	return data
}

// readSliceCase reads a slice in some manner and compares with the model.
func readSliceCase(c *kit.C, s Ser, f *format, data []byte, end error, pts []rc.Known, trust ps.IsInputTrusted, desc string) {
	k := kindFor(c, "target", pts...)
	if trust == untrusted && kit.Int(c, "anykind", 0, 2) == 0 {
		k = kind(c, "anytarget")
	}
	d := deserializer(c, s)
	r := refio.DrawReader(c, data, end)
	if kit.Int(c, "create", 0, 2) == 0 {
		o := readSlice(f, data, func(int) bool { return k.Sub() }, -1)
		desc += fmt.Sprintf(", reading into a new slice of %v, %v; %v expected", k, trust, o.what)
		h := newHolder(k, 0)
		out, n, err := d.DeserializeSlice(r, trust, h.create)
		sliceError(c, desc, o, err, n, r.Data[:r.Consumed], end)
		got, ok := h.opened(out)
		c.Check(ok, "%s: the output is a %T", desc, out)
		if o.what == fine {
			c.Check(len(got) == len(o.points), "%s: %d points, expected %d", desc, len(got), len(o.points))
			for i, p := range got {
				rc.Is(c, p, o.points[i], "%s: point %d", desc, i)
			}
		}
		return
	}
	// an existing buffer, part of a longer one
	before, after := kit.Int(c, "before", 0, 2), kit.Int(c, "after", 0, 2)
	size := len(pts) + kit.Oneof(c, "sizediff", 0, 0, 0, 1, 2, -1)
	if size < 0 {
		size = 0
	}
	h := newHolder(k, before+size+after)
	var was []filler
	for i := 0; i < before+size+after; i++ {
		was = append(was, fill(c, h.at(i)))
	}
	o := readSlice(f, data, func(int) bool { return k.Sub() }, size)
	desc += fmt.Sprintf(", reading into a buffer for %d points of %v, %v; %v expected", size, k, trust, o.what)
	c.Label(o.what.String())
	out, n, err := d.DeserializeSlice(r, trust, h.reuse(before, before+size))
	sliceError(c, desc, o, err, n, r.Data[:r.Consumed], end)
	num, ok := out.(int)
	c.Check(ok, "%s: the output is a %T", desc, out)
	if o.what == fine {
		c.Check(num == len(o.points), "%s: the output is %d, expected %d", desc, num, len(o.points))
	}
	for i := range was {
		if j := i - before; j >= 0 && j < len(o.points) {
			rc.Is(c, h.at(i), o.points[j], "%s: point %d", desc, j)
		} else {
			was[i].check(c, h.at(i), "%s: buffer element %d", desc, j)
		}
	}
}

func sliceError(c *kit.C, desc string, o outcome, err ps.BatchDeserializationError, n int, in []byte, end error) {
	var d ps.BatchDeserializationErrorData
	if err != nil {
		d = err.GetData_struct()
	}
	readError(c, desc, o, result{plain(err), d.PartialRead, n, in}, end)
	if o.what != fine {
		c.Check(d.PointsDeserialized == o.written, "%s: %d points reported, expected %d (%v)", desc, d.PointsDeserialized, o.written, err)
	}
}

func sliceRoundTrip(max int) func(c *kit.C) {
	return func(c *kit.C) {
		s, f := serializer(c, 5)
		k := kind(c, "kind")
		pts := list(c, f, k, max)
		desc := fmt.Sprintf("%v: slice %s of %v", f, show(pts), k)
		c.Case(len(pts) > 1, "%s", desc)
		data := writeSlice(c, s, f, k, pts, desc)
		data = append(data, str(c)...)
		readSliceCase(c, s, f, data, nil, pts, readTrust(c), desc)
	}
}

// hostileSlices: sizes, headers or points of slices are wrong.
func hostileSlices(c *kit.C) {
	s, f := serializer(c, 6)
	k := kind(c, "kind")
	pts := list(c, f, k, 4)
	data := f.encodeSlice(pts)
	var end error
	how := ""
	switch kit.Int(c, "how", 0, 5) {
	case 0: // another size
		n := uint32(len(pts) + kit.Oneof(c, "d", -1, 1, 2, 3))
		if int32(n) < 0 {
			n = 1
		}
		binary.LittleEndian.PutUint32(data[len(f.hdr[GH]):], n)
		how = "another size"
	case 1: // a size that cannot be
		per := int64(f.pointLen() + len(f.hdr[PH]) + len(f.hdr[PF]))
		first := (maxInt32-4-int64(len(f.hdr[GH])+len(f.hdr[GF])))/per + 1 // the least that is too much
		n := kit.Oneof(c, "size", uint32(first), uint32(first)+1, 1<<31-1, 1<<31, 1<<32-1, 1<<31+1, 1<<32-2)
		binary.LittleEndian.PutUint32(data[len(f.hdr[GH]):], n)
		how = fmt.Sprintf("size %d", n)
	case 2, 3: // a byte changed, except in the size
		for {
			i := kit.Int(c, "at", 0, len(data)-1)
			if j := i - len(f.hdr[GH]); j >= 0 && j < 4 {
				if len(data) == 4 {
					break
				}
				continue
			}
			data[i] ^= 1 << kit.Int(c, "bit", 0, 7)
			how = fmt.Sprintf("byte %d changed", i)
			break
		}
	case 4: // headers differ
		t, g, d := derive(c, s, f)
		s, f = t, g
		how = d
		if len(data) >= len(f.hdr[GH])+4 && binary.LittleEndian.Uint32(data[len(f.hdr[GH]):]) > 1<<16 {
			c.Skip("a large size")
		}
	case 5: // the last point is not valid
		if len(pts) > 0 {
			i := len(data) - len(f.hdr[GF]) - len(f.hdr[PF]) - f.pointLen()
			for j := 0; j < f.pointLen(); j++ {
				data[i+j] = 0xff
			}
			how = "the last point is not valid"
		}
	}
	desc := fmt.Sprintf("%v: slice %x made from %s, %s", f, data, show(pts), how)
	c.Case(true, "%s", desc)
	readSliceCase(c, s, f, data, end, pts, untrusted, desc)
}

// ownMakers: slices are read to where a function of the harness says, which may be a list of points of various types,
// or which may refuse.
func ownMakers(c *kit.C) {
	s, f := serializer(c, 5)
	pts := list(c, f, kind(c, "kind"), 5)
	data := f.encodeSlice(pts)
	switch kit.Int(c, "how", 0, 3) {
	case 0: // cut
		data = data[:kit.Int(c, "cut", 0, len(data))]
	case 1: // a byte outside the size changed
		i, from := kit.Int(c, "at", 0, len(data)-1), len(f.hdr[GH])
		if i < from || i >= from+4 {
			data[i] ^= 1 << kit.Int(c, "bit", 0, 7)
		}
	}
	mine := fmt.Errorf("refused by the harness")
	output := kit.Oneof[any](c, "output", nil, "text", 17, []int(nil), mine)
	refuse := kit.Int(c, "refuse", 0, 4) == 0
	i := 0
	all, slice := ptrs(c, func() rc.Kind {
		i++
		if i <= len(pts) && kit.Int(c, "any", 0, 2) > 0 {
			return kindFor(c, "kind", pts[i-1])
		}
		return kind(c, "kind")
	}, len(pts)+kit.Int(c, "more", 0, 2))
	var was []filler
	for _, p := range all {
		was = append(was, fill(c, p))
	}
	d := deserializer(c, s)
	r := refio.DrawReader(c, data, nil)
	capacity := len(pts)
	if refuse {
		capacity = -1
	}
	o := readSlice(f, data, func(i int) bool { return rc.KindOf(all[i]).Sub() }, capacity)
	desc := fmt.Sprintf("%v: slice %x made from %s, read through a function of the harness (refusing: %v); %v expected", f, data, show(pts), refuse, o.what)
	sized := len(data) >= len(f.hdr[GH])+4 && bytes.HasPrefix(data, []byte(f.hdr[GH]))
	c.Case(sized && len(pts) > 1, "%s", desc)
	c.LabelIf(!sized, "no size")
	c.LabelIf(sized && refuse, "refused")
	var calls []int32
	at := 0
	out, n, err := d.DeserializeSlice(r, untrusted, func(length int32) (any, curvePoints.CurvePointSlice, error) {
		calls = append(calls, length)
		at = r.Consumed
		switch {
		case length < 0:
			return output, nil, nil
		case refuse:
			return output, nil, mine
		}
		return output, slice, nil
	})
	if sized {
		c.Check(len(calls) == 1 && int(calls[0]) == len(pts), "%s: called with %v", desc, calls)
	} else {
		c.Check(len(calls) == 1 && calls[0] == -1, "%s: called with %v", desc, calls)
	}
	if refuse && sized {
		c.Check(err != nil && errors.Is(err, mine) && n == at && r.Consumed == at && at == len(f.hdr[GH])+4, "%s: %d bytes reported, %d consumed, %d when the function was called, error %v", desc, n, r.Consumed, at, err)
		e := err.GetData_struct()
		c.Check(e.PointsDeserialized == 0 && (e.PartialRead || f.sliceLen(int64(len(pts))).Cmp(big.NewInt(int64(n))) == 0), "%s: %+v", desc, e)
		o.points = nil
	} else {
		c.Check(sameOutput(out, output), "%s: the output is %v, not %v", desc, out, output)
		sliceError(c, desc, o, err, n, r.Data[:r.Consumed], nil)
	}
	for i, p := range all {
		if i < len(o.points) {
			rc.Is(c, p, o.points[i], "%s: point %d", desc, i)
		} else {
			was[i].check(c, p, "%s: point %d", desc, i)
		}
	}
}

func sameOutput(a, b any) bool {
	_, x := a.([]int)
	_, y := b.([]int)
	return x == y && (x || a == b)
}

// lengths: advertised lengths, and refusal of lengths that do not fit.
func lengths(c *kit.C) {
	s, f := serializer(c, 6)
	if kit.Bool(c, "wide") { // frames that are too long by themselves for many points
		i := kit.Oneof(c, "frame", PH, PF)
		f.hdr[i] = strings.Repeat("x", kit.Int(c, "width", 1, 400))
		s = s.WithParameter(hdrNames[i], f.hdr[i])
	}
	d := deserializer(c, s)
	n := int32(kit.Int(c, "n", 0, 1000))
	per := int64(f.pointLen() + len(f.hdr[PH]) + len(f.hdr[PF]))
	last := int32((maxInt32 - 4 - int64(len(f.hdr[GH])+len(f.hdr[GF]))) / per)
	if kit.Bool(c, "large") {
		n = kit.Oneof(c, "size", last, last-1, last+1, last+2, maxInt32, maxInt32/32, maxInt32/64, 1<<30, int32(kit.Int(c, "any", 0, maxInt32)))
		if frame := int64(len(f.hdr[PH]) + len(f.hdr[PF])); frame > 0 && kit.Bool(c, "frames") { // the frames alone fill k times the range
			n = int32(min(maxInt32, int64(kit.Int(c, "times", 1, 8))*(maxInt32+1)/frame+int64(kit.Int(c, "off", -2, 2))))
		}
	}
	want := f.sliceLen(int64(n))
	over := want.Cmp(big.NewInt(maxInt32)) > 0
	c.Case(n > 1000, "%v, %d points", f, n)
	c.LabelIf(over, "too long")
	for _, x := range []interface{ SliceOutputLength(int32) (int32, error) }{s, d} {
		got, err := x.SliceOutputLength(n)
		c.Check(over == (err != nil), "%v: SliceOutputLength(%d)=%d, error %v; true value %v", f, n, got, err, want)
		c.Check(over || int64(got) == want.Int64(), "%v: SliceOutputLength(%d)=%d, expected %v", f, n, got, want)
		if err != nil {
			c.GoodMessage(err, "%v: SliceOutputLength(%d)", f, n)
		}
	}
	c.Check(int(d.OutputLength()) == f.singleLen() && int(s.OutputLength()) == f.singleLen(), "%v: OutputLength %d, %d, expected %d", f, d.OutputLength(), s.OutputLength(), f.singleLen())
	if over {
		big := huge(n)
		if ss, ok := s.(sliceSerializer); ok {
			var b bytes.Buffer
			nw, err := ss.SerializeSlice(&b, big)
			c.Check(err != nil && errors.Is(err, be.ErrSizeDoesNotFitInt32) && nw == 0 && b.Len() == 0, "%v: writing a slice of %d points: %d bytes, %v", f, n, nw, err)
			e := err.GetData_struct()
			c.Check(e.PointsSerialized == 0 && !e.PartialWrite, "%v: writing a slice of %d points: %+v", f, n, e)
		}
	}
	if int64(n)*int64(f.singleLen()) > maxInt32 {
		big := huge(n)
		_, did := kit.Panics(func() { s.SerializeCurvePoints(io.Discard, big) })
		c.Check(did, "%v: writing %d points does not panic", f, n)
		_, did = kit.Panics(func() { d.DeserializeCurvePoints(bytes.NewReader(nil), untrusted, big) })
		c.Check(did, "%v: reading %d points does not panic", f, n)
	}
}

// huge is a slice that claims to be very long; it has no points.
type huge int32

func (h huge) Len() int { return int(h) }
func (h huge) GetByIndex(i int) CP {
	panic("an element of a slice that is too long was asked for")
}

// batchRefusals: a point that cannot be written ends the writing of a list.
func batchRefusals(c *kit.C) {
	s, f := serializer(c, 4)
	_, restore := rc.Watch()
	defer restore()
	k := kit.Oneof(c, "kind", rc.TF, rc.EF)
	pts := list(c, f, k, 4)
	at := kit.Int(c, "at", 0, len(pts))
	h := newHolder(k, len(pts)+1)
	for i, p := range pts {
		put(c, h.at(i+bi(i >= at)), p.Pt)
	}
	var want error
	what := ""
	switch kit.Int(c, "bad", 0, 2) {
	case 0:
		want, what = be.ErrCannotSerializeNaP, "an uninitialised point"
	case 1:
		q := rc.Make(c, k, rc.Torsion[kit.Int(c, "inf", 2, 3)])
		if q == nil {
			c.Skip("infinity cannot be made")
		}
		rc.Assign(h.at(at), q)
		want, what = be.ErrCannotSerializePointAtInfinity, "a point at infinity"
	case 2:
		if !f.sub {
			c.Skip("not restricted to the subgroup")
		}
		p := rc.Add(rc.DrawSub(c).Pt, rc.Torsion[1])
		put(c, h.at(at), p)
		want, what = be.ErrWillNotSerializePointOutsideSubgroup, "a point outside the subgroup"
	}
	exp := f.encodeBatch(pts[:at])
	desc := fmt.Sprintf("%v: writing %s with %s inserted at %d", f, show(pts), what, at)
	c.Case(len(pts) > 0, "%s", desc)
	var b bytes.Buffer
	var n int
	var err ps.BatchSerializationError
	if ss, ok := s.(sliceSerializer); ok && kit.Bool(c, "slice") {
		full := f.encodeSlice(pts[:at])
		exp = append(full[:len(full)-len(f.hdr[GF])], f.hdr[PH]...)
		binary.LittleEndian.PutUint32(exp[len(f.hdr[GH]):], uint32(len(pts)+1))
		n, err = ss.SerializeSlice(&b, h.slice)
		c.Check(err != nil && err.GetData_struct().PartialWrite, "%s: PartialWrite is not set: %v", desc, err)
	} else {
		exp = append(exp, f.hdr[SH]...)
		n, err = s.SerializeCurvePoints(&b, h.slice)
		c.Check(err != nil && err.GetData_struct().PartialWrite == (f.hdr[SH] != ""), "%s: PartialWrite is wrong: %v", desc, err)
	}
	c.Check(errors.Is(err, want), "%s: the error is %v", desc, err)
	c.GoodMessage(err, "%s", desc)
	c.Check(n == b.Len() && bytes.Equal(b.Bytes(), exp), "%s: %d bytes reported, written %x, expected %x", desc, n, b.Bytes(), exp)
	c.Check(err.GetData_struct().PointsSerialized == at, "%s: %d points reported", desc, err.GetData_struct().PointsSerialized)
	for i, p := range pts {
		rc.Is(c, h.at(i+bi(i >= at)), p.Pt, "%s: point %d afterwards", desc, i)
	}
}

// ---- P23, several points

// spoil draws how an encoding of several points goes wrong: cut, or with a point that is not valid.
func spoil(c *kit.C, data []byte) ([]byte, error) {
	cut := kit.Int(c, "cut", 0, len(data))
	switch kit.Int(c, "cutat", 0, 9) {
	case 0:
		cut = 0
	case 1:
		cut = len(data)
	}
	end := refio.DrawEnd(c)
	if end == io.EOF {
		end = nil
	}
	return data[:cut], end
}

// align draws cuts at the boundaries of parts more often.
func align(c *kit.C, data []byte, parts []int) ([]byte, error) {
	d, end := spoil(c, data)
	if kit.Int(c, "aligned", 0, 2) == 0 {
		n := 0
		for i := kit.Int(c, "parts", 0, len(parts)); i > 0; i-- {
			n += parts[i-1]
		}
		n += kit.Int(c, "delta", -1, 1)
		d = data[:min(max(n, 0), len(data))]
	}
	return d, end
}

func faultyBatch(c *kit.C) {
	s, f := serializer(c, 5)
	k := kind(c, "kind")
	pts := list(c, f, k, 5)
	full := f.encodeBatch(pts)
	var parts []int
	for range pts {
		parts = append(parts, len(f.hdr[SH]), f.pointLen(), len(f.hdr[SF]))
	}
	data, end := align(c, full, parts)
	n := len(pts) + kit.Int(c, "more", 0, 1)
	t := newTarget(c, n, rc.Known{}, pts)
	o := readBatch(f, data, func(i int) bool { return rc.KindOf(t.pts[i]).Sub() }, n)
	desc := fmt.Sprintf("%v: reading %d points into %s from the first %d bytes of %s, then %v", f, n, t.desc, len(data), show(pts), end)
	c.Case(o.what != fine && n > 1, "%s", desc)
	c.LabelIf(o.what != fine && o.consumed == o.start, "between points")
	r := refio.DrawReader(c, data, end)
	trust := readTrust(c)
	d := deserializer(c, s)
	var got int
	var err ps.BatchDeserializationError
	if kit.Bool(c, "variadic") {
		got, err = ps.DeserializeCurvePoints_Variadic(d, r, trust, t.pts...)
	} else {
		got, err = d.DeserializeCurvePoints(r, trust, t.slice)
	}
	sliceError(c, desc, o, err, got, r.Data[:r.Consumed], end)
	t.check(c, desc, o)
}

func bounded(c *kit.C) {
	s, f := serializer(c, 4)
	k := kind(c, "kind")
	pts := list(c, f, k, 5)
	full := f.encodeBatch(pts)
	var parts []int
	for range pts {
		parts = append(parts, f.singleLen())
	}
	data, end := align(c, full, parts)
	n := kit.Int(c, "room", 0, len(pts)+2)
	t := newTarget(c, n, rc.Known{}, pts[:min(n, len(pts))])
	o := readBatch(f, data, func(i int) bool { return rc.KindOf(t.pts[i]).Sub() }, n)
	desc := fmt.Sprintf("%v: reading at most %d points into %s from the first %d bytes of %s, then %v", f, n, t.desc, len(data), show(pts), end)
	c.Case(o.written < n, "%s", desc)
	r := refio.DrawReader(c, data, end)
	got, num, err := ps.DeserializeCurvePoints_Bounded(deserializer(c, s), r, readTrust(c), t.slice)
	c.Check(num == o.written, "%s: %d points reported, expected %d", desc, num, o.written)
	if o.what == ioError && o.consumed == o.start && (end == nil || (refio.Disguised(end) && err == nil)) {
		c.Label("fewer points")
		c.Check(err == nil, "%s: fails with %v", desc, err)
	} else {
		sliceError(c, desc, o, err, got, r.Data[:r.Consumed], end)
	}
	t.check(c, desc, o)
}

func faultySlice(c *kit.C) {
	s, f := serializer(c, 6)
	k := kind(c, "kind")
	pts := list(c, f, k, 4)
	full := f.encodeSlice(pts)
	parts := []int{len(f.hdr[GH]), 4}
	for range pts {
		parts = append(parts, len(f.hdr[PH]), f.pointLen(), len(f.hdr[PF]))
	}
	data, end := align(c, full, append(parts, len(f.hdr[GF])))
	desc := fmt.Sprintf("%v: the first %d of %d bytes of the slice %s, then %v", f, len(data), len(full), show(pts), end)
	c.Case(len(data) < len(full), "%s", desc)
	readSliceCase(c, s, f, data, end, pts, readTrust(c), desc)
}

// limit draws a number of bytes up to n, at the boundaries of parts more often.
func limit(c *kit.C, n int, parts []int) int {
	if len(parts) == 0 || kit.Bool(c, "aligned") {
		return kit.Int(c, "limit", 0, n)
	}
	l := 0
	for i := kit.Int(c, "parts", 0, len(parts)); i > 0; i-- {
		l += parts[i-1]
	}
	return min(max(l+kit.Oneof(c, "delta", 0, 0, -1, 1), 0), n)
}

func faultyMultiWrite(c *kit.C) {
	s, f := serializer(c, 6)
	k := kind(c, "kind")
	pts := list(c, f, k, 4)
	h := filled(c, k, pts)
	// the parts, and how many points count as written if writing the part fails
	var parts, count []int
	add := func(n, k int) {
		if n > 0 {
			parts, count = append(parts, n), append(count, k)
		}
	}
	ss, isSlice := s.(sliceSerializer)
	isSlice = isSlice && kit.Bool(c, "slice")
	var data []byte
	if isSlice {
		data = f.encodeSlice(pts)
		add(len(f.hdr[GH]), 0)
		add(4, 0)
		for i := range pts {
			add(len(f.hdr[PH]), i)
			add(f.pointLen(), i)
			add(len(f.hdr[PF]), i+1)
		}
		add(len(f.hdr[GF]), len(pts))
	} else {
		data = f.encodeBatch(pts)
		for i := range pts {
			add(f.singleLen(), i)
		}
	}
	w := &refio.Writer{Limit: limit(c, len(data), parts), Err: refio.DrawEnd(c), Early: kit.Bool(c, "early"), Once: kit.Int(c, "once", 0, 2) == 0}
	if errors.Is(w.Err, io.EOF) { // those are turned into io.ErrUnexpectedEOF
		w.Err = io.ErrShortWrite
	}
	fails := w.Limit < len(data) || (w.Early && w.Limit > 0)
	desc := fmt.Sprintf("%v: writing %s as %v (slice: %v) with room for %d of %d bytes (error with the last: %v)", f, show(pts), k, isSlice, w.Limit, len(data), w.Early)
	c.Case(fails && len(pts) > 1, "%s", desc)
	var n int
	var err ps.BatchSerializationError
	if isSlice {
		n, err = ss.SerializeSlice(w, h.slice)
	} else {
		n, err = s.SerializeCurvePoints(w, h.slice)
	}
	c.Check(n == len(w.Got) && n == min(w.Limit, len(data)), "%s: %d bytes reported, %d written", desc, n, len(w.Got))
	c.Check(bytes.Equal(w.Got, data[:n]), "%s: %x written", desc, w.Got)
	c.Check(fails == (err != nil), "%s: error %v", desc, err)
	if err != nil {
		c.Check(errors.Is(err, w.Err), "%s: the error does not wrap the cause: %v", desc, err)
		end, start, i := 0, 0, 0
		for ; i < len(parts); i++ {
			start, end = end, end+parts[i]
			if end > w.Limit || (w.Early && end == w.Limit && end > 0) {
				break
			}
		}
		d := err.GetData_struct()
		c.Check(d.IoError, "%s: IoError is not set (%v)", desc, err)
		c.Check(d.PointsSerialized == count[i], "%s: %d points reported, expected %d (%v)", desc, d.PointsSerialized, count[i], err)
		if isSlice {
			if n < len(data) { // an error though everything was written is neither
				c.Check(d.PartialWrite == (n > 0), "%s: PartialWrite is %v (%v)", desc, d.PartialWrite, err)
			}
		} else {
			c.Check(d.PartialWrite == (n > start && n < end), "%s: PartialWrite is %v (%v)", desc, d.PartialWrite, err)
		}
		c.GoodMessage(err, "%s", desc)
	}
	for i, p := range pts {
		rc.Is(c, h.at(i), p.Pt, "%s: point %d afterwards", desc, i)
	}
}
