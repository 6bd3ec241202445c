//go:build go1.23 && verif_values

package serial

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"maps"
	"slices"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/refio"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

// The serializers of values below the point formats, those that no point format uses among them.
var (
	p20values = []kit.Sub{{Name: "values-alone", Quick: 3000, Fn: valuesAlone}}
	p24values = []kit.Sub{{Name: "values-alone", Quick: 2000, Fn: valuesParams}}
	p23values = []kit.Sub{{Name: "values-alone", Quick: 4000, Fn: faultyValues}}
)

func valuesSerializer(c *kit.C) (s ps.VerifValues, big bool, desc string) {
	big = kit.Bool(c, "big")
	e := common.LittleEndian
	start := kit.Bool(c, "start")
	if start {
		e = common.BigEndian
	}
	s = kit.Oneof(c, "values", ps.VerifValuesSerializers(e)...)
	if start != big || kit.Bool(c, "set") {
		s = s.With(kit.Oneof(c, "order", endian[big]...))
	}
	if kit.Bool(c, "clone") {
		s = s.Clone()
	}
	return s, big, fmt.Sprintf("%s, big endian %v", s.Name, big)
}

// encodeValues is the encoding of the numbers, the bit in the first bit of the first of them.
func encodeValues(v []*Int, bit, big bool) (ret []byte) {
	for i, x := range v {
		x = new(Int).Set(x)
		if bit && i == 0 {
			x.SetBit(x, 255, 1)
		}
		b := x.FillBytes(make([]byte, 32))
		if !big {
			slices.Reverse(b)
		}
		ret = append(ret, b...)
	}
	return
}

func valuesAlone(c *kit.C) {
	s, big, desc := valuesSerializer(c)
	a, av := reffe.Draw(c)
	b, bv := reffe.Draw(c)
	bit := kit.Bool(c, "bit")
	vals := []*Int{av, bv}[:s.Elements]
	want := encodeValues(vals, bit && s.Bit, big)
	desc = fmt.Sprintf("%s: %v, %v", desc, vals, bit)
	c.Case(av.Sign() != 0 && bv.Sign() != 0, "%s", desc)
	c.Label(s.Name)
	var w bytes.Buffer
	n, err := s.Write(&w, &a, &b, bit)
	c.Check(err == nil && n == len(want) && bytes.Equal(w.Bytes(), want), "%s: writes %x (reports %d, %v), expected %x", desc, w.Bytes(), n, err, want)
	c.Check(int(s.Length()) == len(want), "%s: OutputLength is %d", desc, s.Length())
	c.Check(eqv(a, av) && eqv(b, bv), "%s: writing changes the values", desc)
	w.WriteString("rest")
	r := refio.DrawReader(c, w.Bytes(), nil)
	n, err2, got, gotBit := s.Read(r)
	c.Check(err2 == nil && n == len(want) && r.Consumed == n, "%s: reading gives %d bytes, %v; %d bytes were consumed", desc, n, err2, r.Consumed)
	c.Check(gotBit == (bit && s.Bit), "%s: reads the bit %v", desc, gotBit)
	for i, v := range vals {
		c.Check(eqv(got[i], v), "%s: reads %v as element %d", desc, got[i].ToBigInt(), i)
	}
}

func eqv(x reffe.FE, v *Int) bool { return x.ToBigInt().Cmp(v) == 0 }

func faultyValues(c *kit.C) {
	s, big, desc := valuesSerializer(c)
	c.Label(s.Name)
	total := 32 * s.Elements
	if kit.Bool(c, "writing") {
		a, av := reffe.Draw(c)
		b, bv := reffe.Draw(c)
		bit := kit.Bool(c, "bit")
		want := encodeValues([]*Int{av, bv}[:s.Elements], bit && s.Bit, big)
		w := &refio.Writer{Limit: kit.Oneof(c, "limit", 0, 1, 31, 32, 33, 63, kit.Int(c, "any", 0, 70)), Err: kit.Oneof[error](c, "fault", refio.ErrFault, &refio.OtherFault{N: 3}), Once: kit.Bool(c, "once")}
		desc = fmt.Sprintf("%s: writing %v, failing after %d bytes", desc, av, w.Limit)
		c.Case(w.Limit < total, "%s", desc)
		n, err := s.Write(w, &a, &b, bit)
		if w.Limit >= total {
			c.Check(err == nil && n == total && bytes.Equal(w.Got, want), "%s: %d, %v, wrote %x", desc, n, err, w.Got)
			return
		}
		c.Check(n == w.Limit && bytes.Equal(w.Got, want[:n]), "%s: reports %d bytes, wrote %x of %x", desc, n, w.Got, want)
		if err == nil {
			c.Fatalf("%s: no error", desc)
		}
		c.Check(errors.Is(err, w.Err), "%s: the error is %v", desc, err)
		c.Check(err.GetData_struct().PartialWrite == (n != 0), "%s: %+v", desc, err.GetData_struct())
		c.GoodMessage(err, "%s", desc)
		return
	}
	// reading: numbers up to twice the field size or so, in input that may be too short
	var v []*Int
	bad := -1
	for i := 0; i < s.Elements; i++ {
		x := m.Residue(c)
		if kit.Int(c, "bad", 0, 3) == 0 { // not the least representative
			x = new(Int).Add(x, m.P)
			if s.Bit && x.BitLen() > 255 {
				x = m.P
			}
			if bad < 0 {
				bad = i
			}
		}
		v = append(v, x)
	}
	bit := s.Bit && kit.Bool(c, "bit")
	data := encodeValues(v, bit, big)
	l := kit.Oneof(c, "len", 0, 1, 31, 32, 33, 63, 64, kit.Int(c, "any", 0, total), total, total)
	data = data[:min(l, total)]
	end := kit.Oneof[error](c, "end", io.EOF, io.EOF, refio.ErrFault, &refio.OtherFault{N: 4})
	r := refio.DrawReader(c, data, end)
	desc = fmt.Sprintf("%s: reading %x, then %v", desc, data, end)
	c.Case(len(data) < total || bad >= 0, "%s", desc)
	read := len(data)
	if bad >= 0 && read >= 32*(bad+1) {
		read = 32 * (bad + 1)
	} else {
		bad = -1
	}
	n, err, got, gotBit := s.Read(r)
	c.Check(n == read && r.Consumed == n, "%s: reports %d bytes, consumed %d, expected %d", desc, n, r.Consumed, read)
	if bad < 0 && read == total {
		c.Check(err == nil, "%s: fails: %v", desc, err)
		c.Check(gotBit == bit, "%s: reads the bit %v", desc, gotBit)
		for i, x := range v {
			c.Check(eqv(got[i], x), "%s: reads %v as element %d", desc, got[i].ToBigInt(), i)
		}
		return
	}
	if err == nil {
		c.Fatalf("%s: no error", desc)
	}
	c.GoodMessage(err, "%s", desc)
	c.Check(err.GetData_struct().PartialRead == (n != 0 && n != total), "%s: error %v, %+v", desc, err, err.GetData_struct())
	if bad >= 0 {
		c.Check(errors.Is(err, fieldElements.ErrNonNormalizedDeserialization) && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), "%s: the error is %v", desc, err)
		return
	}
	if end == io.EOF {
		c.Check(errors.Is(err, io.EOF) == (n == 0) && errors.Is(err, io.ErrUnexpectedEOF) == (n != 0), "%s: the error is %v", desc, err)
	} else {
		c.Check(errors.Is(err, end) && !errors.Is(err, io.EOF), "%s: the error is %v", desc, err)
	}
}

// valuesParams: parameters of the serializers of values.
func valuesParams(c *kit.C) {
	s, big, desc := valuesSerializer(c)
	c.Label(s.Name)
	names := []string{"Endianness"}
	switch s.Name {
	case "two elements with headers":
		names = append(names, "BitHeader", "BitHeader2")
	case "element with header":
		names = append(names, "BitHeader")
	}
	spell := func(n string) string {
		switch kit.Int(c, "case", 0, 2) {
		case 0:
			return strings.ToLower(n)
		case 1:
			return strings.ToUpper(n)
		}
		return n
	}
	for i := range s.Params {
		got := s.Params[i]()
		c.Check(len(got) == len(names), "%s: parameters are %v, expected %v", desc, got, names)
		for _, n := range names {
			c.Check(slices.ContainsFunc(got, func(g string) bool { return strings.EqualFold(g, n) }), "%s: parameters are %v, expected %v", desc, got, names)
		}
		for _, n := range []string{"Endianness", "BitHeader", "BitHeader2", "SubgroupOnly", "PerPointHeader", "", "endiannes"} {
			n, in := spell(n), slices.ContainsFunc(names, func(g string) bool { return strings.EqualFold(g, n) })
			c.Check(s.Has[i](n) == in, "%s: HasParameter(%q) is %v", desc, n, !in)
			if !in && i == 0 {
				_, did := kit.Panics(func() { s.Get(n) })
				_, did2 := kit.Panics(func() { s.Set(n, common.BigEndian) })
				c.Check(did && did2, "%s: there is no parameter %q, but it is read or set", desc, n)
			}
		}
	}
	// a history of settings, the older variants stay as they are
	type state struct {
		s    ps.VerifValues
		vals map[string]any
	}
	vals := map[string]any{}
	for _, n := range names {
		vals[n] = s.Get(n)
	}
	order := func(v any) bool {
		return v.(binary.ByteOrder).Uint16([]byte{1, 0}) == 256
	}
	c.Check(order(vals["Endianness"]) == big, "%s: the byte order is %v", desc, vals["Endianness"])
	all := []state{{s, vals}}
	steps := kit.Int(c, "steps", 1, 5)
	c.Case(steps > 1, "%s, %d steps", desc, steps)
	for i := 0; i < steps; i++ {
		from := all[kit.Int(c, "from", 0, len(all)-1)]
		n := kit.Oneof(c, "name", names...)
		now := maps.Clone(from.vals)
		var next ps.VerifValues
		if n == "Endianness" {
			now[n] = kit.Oneof[any](c, "order", common.LittleEndian, common.BigEndian)
			next = from.s.Set(spell(n), now[n])
		} else {
			_, v := bitHeader(c)
			now[n] = v
			next = from.s.Set(spell(n), v)
		}
		if kit.Bool(c, "clone") {
			next = next.Clone()
		}
		all = append(all, state{next, now})
	}
	for i, st := range all {
		for _, n := range names {
			got := st.s.Get(spell(n))
			same := got == st.vals[n]
			if n == "Endianness" {
				same = order(got) == order(st.vals[n])
			}
			c.Check(same, "%s: %s of variant %d is %v, expected %v", desc, n, i, got, st.vals[n])
		}
	}
}
