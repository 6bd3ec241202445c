//go:build go1.23

package serial

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
)

// ---- P24

func TestP24(t *testing.T) {
	kit.Run(t, append([]kit.Sub{
		{Name: "histories", Quick: 4000, Fn: paramHistory},
		{Name: "refused", Quick: 4000, Fn: paramRefused},
	}, p24values...)...)
}

// handle is a serialiser or a deserialiser with the parameters it should have.
type handle struct {
	ps.CurvePointDeserializer
	s    Ser // nil for a deserialiser
	d    ps.CurvePointDeserializerModifyable
	f    format
	name string
}

func (h *handle) with(name string, v any, free bool) *handle {
	r := &handle{f: h.f}
	switch {
	case h.s != nil && free:
		r.s = ps.WithParameter(h.s, name, v)
	case h.s != nil:
		r.s = h.s.WithParameter(name, v)
	case free:
		r.d = ps.WithParameter(h.d, name, v)
	default:
		r.d = h.d.WithParameter(name, v)
	}
	return r.fix()
}

func (h *handle) fix() *handle {
	if h.s != nil {
		h.CurvePointDeserializer = h.s
	} else {
		h.CurvePointDeserializer = h.d
	}
	return h
}

func spell(c *kit.C, name string) string {
	switch kit.Int(c, "case", 0, 4) {
	case 0:
		return strings.ToLower(name)
	case 1:
		return strings.ToUpper(name)
	case 2:
		b := []byte(name)
		for i := range b {
			if kit.Bool(c, "flip") && b[i]|0x20 >= 'a' && b[i]|0x20 <= 'z' {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
	return name
}

// check compares all parameters.
func (h *handle) check(c *kit.C, desc string) {
	f := &h.f
	for _, name := range f.params() {
		sp := spell(c, name)
		c.Check(h.HasParameter(sp), "%s: %s has no parameter %q", desc, h.name, sp)
		got := h.GetParameter(sp)
		switch name {
		case "Endianness":
			e, ok := got.(common.FieldElementEndianness)
			c.Check(ok && e.StartsWithMSB() == f.big, "%s: %s of %s is %v, expected big endian: %v", desc, sp, h.name, got, f.big)
			c.Check(h.GetFieldElementEndianness().StartsWithMSB() == f.big, "%s: GetFieldElementEndianness of %s is %v", desc, h.name, h.GetFieldElementEndianness())
		case "SubgroupOnly":
			b, ok := got.(bool)
			c.Check(ok && b == f.sub, "%s: %s of %s is %v, expected %v", desc, sp, h.name, got, f.sub)
			c.Check(h.IsSubgroupOnly() == f.sub, "%s: IsSubgroupOnly of %s is %v", desc, h.name, h.IsSubgroupOnly())
		case "BitHeader", "BitHeader2":
			b, ok := got.(common.BitHeader)
			want := f.bh[bi(name == "BitHeader2")]
			c.Check(ok && byte(b.PrefixBits()) == want.bits && int(b.PrefixLen()) == want.n, "%s: %s of %s is %v, expected %v", desc, sp, h.name, got, want)
		default:
			b, ok := got.([]byte)
			i := 0
			for hdrNames[i] != name {
				i++
			}
			c.Check(ok && string(b) == f.hdr[i], "%s: %s of %s is %v, expected %x", desc, sp, h.name, got, f.hdr[i])
			for j := range b { // what is returned is the caller's
				b[j] ^= 0xAA
			}
		}
	}
	rec := append([]string{}, h.RecognizedParameters()...)
	exp := append([]string{}, f.params()...)
	for i := range rec {
		rec[i] = strings.ToLower(rec[i])
	}
	for i := range exp {
		exp[i] = strings.ToLower(exp[i])
	}
	sort.Strings(rec)
	sort.Strings(exp)
	c.Check(fmt.Sprint(rec) == fmt.Sprint(exp), "%s: the parameters of %s are %v, expected %v", desc, h.name, rec, exp)
	c.Check(int(h.OutputLength()) == f.singleLen(), "%s: OutputLength of %s is %d, expected %d", desc, h.name, h.OutputLength(), f.singleLen())
}

// use writes and reads a point.
func (h *handle) use(c *kit.C, desc string) {
	f := &h.f
	p := writable(c, f, rc.AF)
	enc, _ := f.point(p.Pt, true)
	data := f.hdr[SH] + string(enc) + f.hdr[SF]
	if h.s != nil {
		var b bytes.Buffer
		n, err := h.s.SerializeCurvePoint(&b, rc.Make(c, rc.AF, p.Pt))
		c.Check(err == nil && n == len(data) && b.String() == data, "%s: %s (%v) writes %v as %x, expected %x (%v)", desc, h.name, f, p, b.Bytes(), data, err)
	}
	y := rc.New(rc.AF)
	n, err := h.DeserializeCurvePoint(strings.NewReader(data), untrusted, y)
	c.Check(err == nil && n == len(data), "%s: %s (%v) does not read %x: %v", desc, h.name, f, data, err)
	rc.Is(c, y, p.Pt, "%s: %s (%v) reads %x", desc, h.name, f, data)
}

// set draws a new value for a parameter and derives a handle with it. The argument may be handed over
// in a slice, which is returned.
func (h *handle) set(c *kit.C) (r *handle, desc string, arg []byte) {
	g := h.f
	name := kit.Oneof(c, "param", g.params()...)
	sp := spell(c, name)
	free := kit.Int(c, "free", 0, 3) == 0
	var v any
	show := ""
	switch name {
	case "Endianness":
		g.big = kit.Bool(c, "big")
		e := kit.Oneof(c, "order", endian[g.big]...)
		v, show = e, fmt.Sprint(e)
		if kit.Int(c, "direct", 0, 2) == 0 {
			r = &handle{}
			if h.s != nil {
				r.s = h.s.WithEndianness(e)
			} else {
				r.d = h.d.WithEndianness(e)
			}
			r.fix().f = g
			return r, "WithEndianness " + show, nil
		}
	case "SubgroupOnly":
		g.sub = g.always() || kit.Bool(c, "sub")
		v, show = g.sub, fmt.Sprint(g.sub)
	case "BitHeader", "BitHeader2":
		b, bh := bitHeader(c)
		g.bh[bi(name == "BitHeader2")] = b
		v, show = bh, fmt.Sprint(b)
	default:
		i := 0
		for hdrNames[i] != name {
			i++
		}
		g.hdr[i] = str(c)
		show = fmt.Sprintf("%x", g.hdr[i])
		arg = []byte(g.hdr[i])
		// with room behind, which the serialiser may not use
		if kit.Bool(c, "room") {
			arg = append(make([]byte, 0, len(arg)+5), arg...)
		}
		v = arg
		if len(arg) == 0 && kit.Bool(c, "nil") {
			v = []byte(nil)
		}
	}
	r = h.with(sp, v, free)
	r.f = g
	return r, fmt.Sprintf("%s=%s", sp, show), arg
}

// paramHistory: serialisers and deserialisers are derived from each other; all of them keep their parameters.
func paramHistory(c *kit.C) {
	s, f := base(c)
	all := []*handle{(&handle{s: s, f: *f, name: "#0"}).fix()}
	var args [][]byte
	steps := kit.Size(c, "steps", 1, 10, 60)
	var log []string
	for i := 0; i < steps; i++ {
		from := kit.Int(c, "from", 0, len(all)-1)
		h := all[from]
		var r *handle
		what := ""
		switch kit.Int(c, "op", 0, 9) {
		case 0:
			r = &handle{f: h.f}
			if h.s != nil {
				r.s = h.s.Clone()
			} else {
				r.d = h.d.Clone()
			}
			r.fix()
			what = "clone"
		case 1:
			if h.s == nil {
				h.use(c, strings.Join(log, "; "))
				what = "use"
				break
			}
			r = (&handle{f: h.f, d: h.s.AsDeserializer()}).fix()
			what = "deserialiser"
		case 2:
			h.use(c, strings.Join(log, "; "))
			what = "use"
		case 3: // the caller changes what it handed over
			for _, a := range args {
				a = a[:cap(a)]
				for j := range a {
					a[j] ^= 0x33
				}
			}
			args = nil
			what = "overwrite arguments"
		case 4:
			bad, sp := badParam(c, &h.f)
			_, did := kit.Panics(func() { h.with(sp, bad, false) })
			c.Check(did, "%s; #%d (%v): parameter %q accepts %v (%T)", strings.Join(log, "; "), from, &h.f, sp, bad, bad)
			what = "refused " + sp
		default:
			var arg []byte
			r, what, arg = h.set(c)
			if arg != nil {
				args = append(args, arg)
			}
		}
		if r != nil {
			r.name = fmt.Sprintf("#%d", len(all))
			what += " to " + r.name
			all = append(all, r)
		}
		log = append(log, fmt.Sprintf("#%d %s", from, what))
		for _, h := range all {
			h.check(c, fmt.Sprintf("%v, %s", f, strings.Join(log, "; ")))
		}
	}
	desc := fmt.Sprintf("%v, %s", f, strings.Join(log, "; "))
	c.Case(len(all) > 2, "%s", desc)
	all[kit.Int(c, "last", 0, len(all)-1)].use(c, desc)
}

type otherOrder struct{ binary.ByteOrder }

// badParam draws a parameter and a value that it must refuse.
func badParam(c *kit.C, f *format) (v any, name string) {
	params := f.params()
	name = kit.Oneof(c, "param", params...)
	if kit.Int(c, "unknown", 0, 3) == 0 {
		name = kit.Oneof(c, "name", "", "Endian", "endianness ", " Endianness", "BitHeader3", "Subgroup", "IsSubgroupOnly", "GlobalSlice", "Header", "SinglePointHeaderFooter", "BitHeader", "BitHeader2", "Endianneß", "PerPointheade", "sliceSizeEndianness")
		for _, p := range params {
			if strings.EqualFold(p, name) {
				c.Skip("known")
			}
		}
		v = kit.Oneof[any](c, "value", nil, true, []byte{1}, common.LittleEndian, common.MakeBitHeader(1, 1), 0)
		return v, name
	}
	vals := []any{0, 1.5, struct{}{}, []int{1}, &f.sub, [1]byte{7}, 'x', []string{"a"}, error(nil)}
	switch name {
	case "Endianness":
		vals = append(vals, binary.LittleEndian.String(), true, []byte{1}, common.MakeBitHeader(0, 1), otherOrder{binary.LittleEndian}, &otherOrder{binary.BigEndian}, (*otherOrder)(nil))
	case "SubgroupOnly":
		vals = append(vals, "true", []byte{1}, common.LittleEndian, common.MakeBitHeader(0, 1))
		if f.always() {
			vals = append(vals, false, false, false, false)
		}
	case "BitHeader", "BitHeader2":
		vals = append(vals, "1", true, []byte{1}, common.LittleEndian, common.PrefixBits(1), byte(1))
	default:
		vals = vals[:len(vals)-1] // nil stands for the empty header
		vals = append(vals, true, common.LittleEndian, common.MakeBitHeader(0, 1), byte(1))
	}
	return vals[kit.Int(c, "bad", 0, len(vals)-1)], name
}

// paramRefused: unknown names and values of wrong type are refused, and leave no trace.
func paramRefused(c *kit.C) {
	s, f := serializer(c, 3)
	h := (&handle{s: s, f: *f, name: "the serialiser"}).fix()
	if kit.Bool(c, "deserializer") {
		h = (&handle{d: s.AsDeserializer(), f: *f, name: "the deserialiser"}).fix()
	}
	v, name := badParam(c, f)
	sp := spell(c, name)
	desc := fmt.Sprintf("%v: setting %q to %v (%T)", f, sp, v, v)
	c.Case(true, "%s", desc)
	known := false
	for _, p := range f.params() {
		known = known || p == name
	}
	c.LabelIf(!known, "unknown name")
	c.Check(h.HasParameter(sp) == known, "%v: HasParameter(%q) is %v", f, sp, !known)
	if !known {
		_, did := kit.Panics(func() { h.GetParameter(sp) })
		c.Check(did, "%v: GetParameter(%q) succeeds", f, sp)
	}
	_, did := kit.Panics(func() { h.with(sp, v, kit.Bool(c, "free")) })
	c.Check(did, "%s is not refused", desc)
	h.check(c, desc)
}
