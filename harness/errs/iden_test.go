//go:build go1.23

package errs

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"testing"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

type sentData struct{ A int }

type boxable interface {
	Any
	ewd.IncomparableMaker
}

// sentinel is an error that is to be found, in all the forms in which it occurs.
type sentinel struct {
	name  string
	forms []error // the first one is the error itself
	s     *sops
}

// derived is an error and the sentinels it is derived from.
type derived struct {
	err  error
	from map[int]bool
	data Map
	way  string
}

type family struct {
	c    *kit.C
	sent []*sentinel
	errs []*derived // one for each form of each sentinel, then what is derived
	log  string
}

func (f *family) join(a, b map[int]bool) map[int]bool {
	r := map[int]bool{}
	for i := range a {
		r[i] = true
	}
	for i := range b {
		r[i] = true
	}
	return r
}

// boxes makes all boxed forms of e, also repeatedly.
func boxes(c *kit.C, e error, s *sops) []error {
	raw := e
	var r []error
	for n := kit.Size(c, "boxes", 1, 4, 30); n > 0; n-- {
		var b error
		switch x := e.(type) {
		case boxable:
			_, isTyped := e.(ewd.ErrorWithData[sentData])
			switch k := kit.Int(c, "box", 0, 2); {
			case k == 0:
				y := ewd.MakeErrorIncomparable(x)
				c.Check(identical(y.AsComparable(), raw), "AsComparable gives another error")
				b = y
			case k == 1 || s == nil || !isTyped:
				y := ewd.MakeErrorIncomparable_any(x)
				c.Check(identical(y.AsComparable(), raw) && identical(y.AsComparable_typed(), raw), "AsComparable gives another error")
				c.Check(identical(ewd.UnboxError_any(y), raw), "UnboxError_any gives another error")
				b = y
			default:
				b = s.box(e)
				c.Check(identical(b.(ewd.ComparableMaker).AsComparable(), raw), "AsComparable gives another error")
			}
		case ewd.IncomparableMaker:
			b = ewd.MakeErrorIncomparable(x)
		}
		c.Check(identical(ewd.UnboxError(b), raw), "UnboxError gives another error")
		c.Check(!reflect.TypeOf(b).Comparable(), "boxed errors can be compared by ==")
		c.Check(b.Error() == raw.Error(), "boxing changes the message %q to %q", raw.Error(), b.Error())
		c.Check(sameMap(ewd.GetData_map(b), ewd.GetData_map(raw)), "boxing changes the data %s to %s", show(ewd.GetData_map(raw)), show(ewd.GetData_map(b)))
		if bb, ok := b.(boxable); ok {
			rr := raw.(Any)
			p := Map{"A": 12, "B": nil}
			c.Check(bb.Error_interpolate(p) == rr.Error_interpolate(p), "boxing changes the message with other parameters")
			c.Check((bb.ValidateError_Base() == nil) == (rr.ValidateError_Base() == nil) && (bb.ValidateError_Final() == nil) == (rr.ValidateError_Final() == nil) &&
				(bb.ValidateSyntax() == nil) == (rr.ValidateSyntax() == nil) && (bb.ValidateError_Params(p) == nil) == (rr.ValidateError_Params(p) == nil), "boxing changes validation")
			c.Check(sameMap(bb.GetData_map(), rr.GetData_map()), "boxing changes the data")
			c.Check(identical(ewd.UnboxError_any(bb), raw), "UnboxError_any gives another error")
			e = b // box it again next time
		}
		r = append(r, b)
	}
	return r
}

// derive adds an error that is derived from others.
func (f *family) derive() {
	c := f.c
	j := kit.Int(c, "from", 0, len(f.errs)-1)
	b := f.errs[j]
	e, d := b.err, b.data
	n := &derived{from: b.from, data: d}
	mode := kit.Oneof(c, "mode", ewd.PreferPreviousData, ewd.ReplacePreviousData)
	text := kit.Oneof(c, "text", "", "derived", "derived: %w", "value %v{A}", "broken {")
	m := Map{"A": kit.Int(c, "A", 0, 2), "Z": nil}
	switch k := kit.Int(c, "way", 0, 12); k {
	case 0:
		n.way, n.err = "any_params", ewd.NewErrorWithData_any_params(e, text, mode, "A", m["A"], "Z", nil)
		n.data, _ = merge(d, m, mode)
	case 1:
		n.way, n.err = "any_map", ewd.NewErrorWithData_any_map(e, text, mode, m)
		n.data, _ = merge(d, m, mode)
	case 2:
		type T struct{ A, Q int }
		n.way, n.err = "struct", ewd.NewErrorWithData_struct(e, text, &T{1, 2}, ewd.ReplacePreviousData)
		n.data, _ = merge(d, Map{"A": 1, "Q": 2}, ewd.ReplacePreviousData)
	case 3:
		n.way, n.err = "params", ewd.NewErrorWithData_params[struct{}](e, text, mode, ewd.EnsureDataIsPresent)
	case 4:
		n.way, n.err = "map", ewd.NewErrorWithData_map[struct{ Z []int }](e, text, ewd.ReplacePreviousData, ewd.MissingDataAsZero, m)
		n.data, _ = merge(d, m, ewd.ReplacePreviousData)
	case 5:
		n.way, n.err = "add any", ewd.AddDataToError_any_params(e, mode, "A", m["A"], "Z", nil)
		n.data, _ = merge(d, m, mode)
	case 6:
		n.way, n.err = "add struct", ewd.AddDataToError_struct(e, &struct{ W string }{"w"})
		n.data, _ = merge(d, Map{"W": "w"}, ewd.ReplacePreviousData)
	case 7:
		n.way, n.err = "delete", ewd.DeleteParameterFromError_any(e, "A")
		n.data = copyMap(d)
		delete(n.data, "A")
	case 8:
		if j < f.forms() { // no guarantee that it wraps its input
			return
		}
		x, ok := ewd.AsErrorWithData[struct{}](e, ewd.EnsureDataIsPresent)
		c.Check(ok, "AsErrorWithData refused")
		n.way, n.err = "convert", x
	case 9:
		n.way, n.err = "Errorf", fmt.Errorf("context: %w", e)
	case 10:
		o := f.errs[kit.Int(c, "other", 0, len(f.errs)-1)]
		n.way, n.err, n.data = "Errorf of two", fmt.Errorf("%w and %w", e, o.err), nil
		n.from = f.join(b.from, o.from)
	case 11:
		n.way, n.err = "foreign", &ptrErr{"foreign", e}
	default:
		n.way, n.err, n.data = "own implementation", &userErr{text: "own", inner: e, data: Map{}}, Map{}
	}
	if d == nil && n.way != "own implementation" { // not known since two were wrapped
		n.data = nil
	}
	f.log += fmt.Sprintf("\n  %d = %s of %d", len(f.errs), n.way, j)
	f.errs = append(f.errs, n)
}

func (f *family) forms() (n int) {
	for _, s := range f.sent {
		n += len(s.forms)
	}
	return
}

// judge compares the whole matrix of errors.Is with the model.
func (f *family) judge() {
	c := f.c
	for i, e := range f.errs {
		for j, s := range f.sent {
			want := e.from[j]
			for k, t := range s.forms {
				c.Check(errors.Is(e.err, t) == want, "errors.Is(%d, %s form %d) is %v%s", i, s.name, k, !want, f.log)
			}
		}
		for k := f.forms(); k < len(f.errs); k++ {
			if i < k && f.errs[k].err != nil {
				c.Check(!errors.Is(e.err, f.errs[k].err), "%d matches %d, which was made later%s", i, k, f.log)
			}
		}
		if e.data != nil && !isJoined(e.err) {
			got := ewd.GetData_map(e.err)
			c.Check(sameMap(got, e.data), "%d has the data %s instead of %s%s", i, show(got), show(e.data), f.log)
		}
	}
}

func isJoined(e error) bool { _, ok := e.(interface{ Unwrap() []error }); return ok }

func p32sentinels(c *kit.C) {
	f := &family{c: c}
	var common error
	type D = sentData
	s := opsFor[D]()
	for n := kit.Size(c, "sentinels", 2, 4, 30); n > 0; n-- {
		var raw error
		id := len(f.sent)
		from := map[int]bool{id: true}
		var base error
		way := kit.Int(c, "base", 0, 3)
		switch {
		case way == 1:
			if common == nil {
				common = errors.New("common")
			}
			base = common
		case way == 2 && id > 0:
			k := kit.Int(c, "base sentinel", 0, id-1)
			o := f.sent[k]
			base = o.forms[kit.Int(c, "base form", 0, len(o.forms)-1)]
			for _, e := range f.errs {
				if identical(ewd.UnboxError(e.err), o.forms[0]) {
					from = f.join(from, e.from)
					break
				}
			}
		}
		text := kit.Oneof(c, "text", "sentinel", "sentinel", "value %v{A}")
		a := kit.Int(c, "A", 0, 1)
		var typed *sops
		maker := kit.Int(c, "maker", 0, 5)
		switch maker {
		case 0:
			raw = ewd.NewErrorWithData_any_params(base, text, ewd.ReplacePreviousData, "A", a)
		case 1:
			raw = ewd.NewErrorWithData_any_map(base, text, ewd.ReplacePreviousData, Map{"A": a})
		case 2:
			raw, typed = ewd.NewErrorWithData_struct(base, text, &D{a}), s
		case 3:
			raw, typed = ewd.NewErrorWithData_params[D](base, text, ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, "A", a), s
		case 4:
			raw, typed = ewd.NewErrorWithData_map[D](base, text, ewd.ReplacePreviousData, ewd.EnsureDataIsPresent, Map{"A": a}), s
		default:
			raw = &userErr{text: "own", inner: base, data: Map{"A": a}}
		}
		st := &sentinel{name: fmt.Sprintf("sentinel %d", id), forms: []error{raw}, s: typed}
		st.forms = append(st.forms, boxes(c, raw, typed)...)
		for _, x := range st.forms {
			f.log += fmt.Sprintf("\n  %d = sentinel %d maker %d base %d text %q A=%d", len(f.errs), id, maker, way, text, a)
			f.errs = append(f.errs, &derived{err: x, from: from, data: Map{"A": a}})
		}
		f.sent = append(f.sent, st)
	}
	n := kit.Size(c, "derive", 1, 8, 60)
	for i := 0; i < n; i++ {
		f.derive()
	}
	c.Case(len(f.errs)-f.forms() >= 3, "%s", f.log)
	f.judge()
	for i, e := range f.errs { // errors.Is with what all of a kind wrap
		want := false
		if common != nil {
			for e := range e.from {
				want = want || rootIs(f.sent[e].forms[0], common)
			}
			c.Check(errors.Is(e.err, common) == want, "errors.Is(%d, the common base) is %v%s", i, !want, f.log)
		}
		c.Check(!errors.Is(e.err, io.EOF), "%d matches io.EOF%s", i, f.log)
	}
}

// rootIs follows single wrapping, one at a time.
func rootIs(e, t error) bool {
	for e != nil {
		if e == t {
			return true
		}
		e = ewd.UnboxError(errors.Unwrap(e))
	}
	return false
}

// library has the errors exported for comparison, with what they wrap.
func library() []*sentinel {
	l := func(name string, e ...error) *sentinel { return &sentinel{name: name, forms: e} }
	return []*sentinel{
		l("io.EOF", io.EOF), l("io.ErrUnexpectedEOF", io.ErrUnexpectedEOF),
		l("ErrWillNotSerializePointOutsideSubgroup", be.ErrWillNotSerializePointOutsideSubgroup),
		l("ErrXNotInSubgroup", be.ErrXNotInSubgroup), l("ErrXNotOnCurve", be.ErrXNotOnCurve), l("ErrYNotOnCurve", be.ErrYNotOnCurve),
		l("ErrNotInSubgroup", be.ErrNotInSubgroup), l("ErrNotOnCurve", be.ErrNotOnCurve), l("ErrWrongSignY", be.ErrWrongSignY),
		l("ErrUnexpectedNegativeZero", be.ErrUnexpectedNegativeZero), l("ErrInvalidZeroSignX", be.ErrInvalidZeroSignX), l("ErrInvalidSign", be.ErrInvalidSign),
		l("ErrDidNotReadExpectedString", be.ErrDidNotReadExpectedString, ps.ErrDidNotReadExpectedString), l("ErrSizeDoesNotFitInt32", be.ErrSizeDoesNotFitInt32),
		l("ErrCannotSerializePointAtInfinity", be.ErrCannotSerializePointAtInfinity), l("ErrCannotSerializeNaP", be.ErrCannotSerializeNaP),
		l("ErrCannotDeserializeNaP", be.ErrCannotDeserializeNaP), l("ErrCannotDeserializeXYAllZero", be.ErrCannotDeserializeXYAllZero),
		l("ErrInsufficientBufferForDeserialization", ps.ErrInsufficientBufferForDeserialization),
		l("ErrEmptyByteSlice", fe.ErrEmptyByteSlice), l("ErrTooSmallByteSlice", fe.ErrTooSmallByteSlice),
		l("ErrCannotRepresentFieldElement", fe.ErrCannotRepresentFieldElement), l("ErrDivisionByZero", fe.ErrDivisionByZero),
		l("ErrPrefixDoesNotFit", fe.ErrPrefixDoesNotFit), l("ErrPrefixLengthInvalid", fe.ErrPrefixLengthInvalid),
		l("ErrPrefixMismatch", fe.ErrPrefixMismatch), l("ErrNonNormalizedDeserialization", fe.ErrNonNormalizedDeserialization),
	}
}

var wraps = map[string]string{"ErrCannotDeserializeXYAllZero": "ErrCannotDeserializeNaP", "ErrEmptyByteSlice": "io.EOF", "ErrTooSmallByteSlice": "io.ErrUnexpectedEOF"}

func p32library(c *kit.C) {
	f := &family{c: c, sent: library()}
	for i, s := range f.sent {
		from := map[int]bool{i: true}
		for j, o := range f.sent {
			if wraps[s.name] == o.name {
				from[j] = true
			}
		}
		for _, x := range s.forms {
			f.errs = append(f.errs, &derived{err: x, from: from, data: ewd.GetData_map(x)})
		}
		for _, o := range f.sent[:i] {
			c.Check(s.forms[0].Error() != o.forms[0].Error() || wraps[s.name] == o.name, "%s and %s have the same message %q", s.name, o.name, s.forms[0].Error())
		}
	}
	n := kit.Size(c, "derive", 1, 12, 80)
	for i := 0; i < n; i++ {
		f.derive()
	}
	c.Case(n >= 3, "%s", f.log)
	f.judge()
}

func TestP32(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "sentinels", Quick: 16000, Fn: p32sentinels},
		kit.Sub{Name: "library", Quick: 4000, Fn: p32library})
}

// ---------------------------------------------------------------- end of file

// eofChain is an error with what is known about it.
type eofChain struct {
	err             error
	eof, unexpected bool
	data            Map
	depth           int
	way             string
}

func drawEOF(c *kit.C, depth int) eofChain {
	if depth == 0 {
		switch kit.Int(c, "root", 0, 9) {
		case 0, 1, 2, 3:
			return eofChain{io.EOF, true, false, Map{}, 0, "EOF"}
		case 4:
			return eofChain{io.ErrUnexpectedEOF, false, true, Map{}, 0, "unexpected EOF"}
		case 5:
			return eofChain{errors.New("EOF"), false, false, Map{}, 0, "another error of the same message"}
		case 6:
			return eofChain{io.ErrNoProgress, false, false, Map{}, 0, "no progress"}
		case 7:
			return eofChain{fe.ErrEmptyByteSlice, true, false, Map{"PartialWrite": false, "BytesWritten": 0, "IoError": true}, 0, "ErrEmptyByteSlice"}
		case 8:
			return eofChain{isEOF{}, true, false, Map{}, 0, "an error with method Is"}
		default:
			return eofChain{nil, false, false, Map{}, 0, "nil"}
		}
	}
	b := drawEOF(c, depth-1)
	if b.err == nil {
		return b
	}
	b.depth++
	m := drawData(c, nil)
	mode := kit.Oneof(c, "mode", ewd.PreferPreviousData, ewd.ReplacePreviousData)
	text := kit.Oneof(c, "text", "", "context", "context: %w", "broken {")
	switch kit.Int(c, "wrap", 0, 9) {
	case 0:
		b.err, b.way = fmt.Errorf("context: %w", b.err), b.way+" < Errorf"
	case 1, 2:
		b.err, b.way = ewd.NewErrorWithData_any_map(b.err, text, mode, m), b.way+" < data "+show(m)
		b.data, _ = merge(b.data, m, mode)
	case 3:
		x := b.err
		if i, ok := x.(boxable); ok {
			b.err, b.way = ewd.MakeErrorIncomparable_any(i), b.way+" < box"
		} else {
			b.err, b.way = &ptrErr{"foreign", x}, b.way+" < foreign"
		}
	case 4:
		b.err, b.way = ewd.DeleteParameterFromError_any(b.err, "A"), b.way+" < delete"
		b.data = copyMap(b.data)
		delete(b.data, "A")
	case 5:
		b.err, b.way, b.data = errors.Join(b.err, someErr), b.way+" < join", Map{}
	case 6:
		o := drawEOF(c, kit.Int(c, "depth", 0, 1))
		if o.err == nil {
			return b
		}
		b.err, b.way, b.data = fmt.Errorf("%w, %w", b.err, o.err), b.way+" < both, "+o.way, Map{}
		b.eof, b.unexpected = b.eof || o.eof, b.unexpected || o.unexpected
	case 7:
		b.err, b.way, b.data = &userErr{text: "user", inner: b.err, data: copyMap(m)}, b.way+" < user "+show(m), m
	case 8:
		b.err, b.way = fmt.Errorf("lost: %v", b.err), b.way+" < not wrapped"
		b.eof, b.unexpected, b.data = false, false, Map{}
	default:
		b.err, b.way = ewd.AddDataToError_any_map(b.err, mode, m), b.way+" < added "+show(m)
		b.data, _ = merge(b.data, m, mode)
	}
	return b
}

// isEOF claims to be io.EOF.
type isEOF struct{}

func (isEOF) Error() string        { return "in disguise" }
func (isEOF) Is(target error) bool { return target == io.EOF }

func p33(c *kit.C) {
	x := drawEOF(c, kit.Size(c, "depth", 0, 4, 80))
	c.Check(errors.Is(x.err, io.EOF) == x.eof && errors.Is(x.err, io.ErrUnexpectedEOF) == x.unexpected, "errors.Is does not follow the chain %s", x.way)
	c.Case(x.depth >= 2, "%s", x.way)
	c.LabelIf(x.eof, "translated")
	c.LabelIf(x.eof && len(x.data) > 0, "translated with data")
	before := ""
	if x.err != nil {
		before = x.err.Error()
	}
	p := x.err
	errorTransform.UnexpectEOF(&p)
	if !x.eof {
		c.Check(unchanged(p, x.err), "%s: changed to %v", x.way, p)
	} else {
		judgeEOF(c, x, p)
		c.Check(len(x.data) > 0 || p == io.ErrUnexpectedEOF, "%s: became %#v instead of the plain error", x.way, p)
	}
	if x.err != nil {
		c.Check(x.err.Error() == before && sameMap(ewd.GetData_map(x.err), x.data), "%s: the original was changed", x.way)
	}
	q := p
	errorTransform.UnexpectEOF(&q)
	c.Check(unchanged(p, q), "%s: translating again changes the error", x.way)
}

func unchanged(a, b error) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) && identical(ewd.UnboxError(a), ewd.UnboxError(b))
}

func judgeEOF(c *kit.C, x eofChain, p error) {
	c.Check(p != nil && errors.Is(p, io.ErrUnexpectedEOF), "%s: became %v, which is no unexpected EOF", x.way, p)
	c.Check(!errors.Is(p, io.EOF), "%s: still is an EOF", x.way)
	got := ewd.GetData_map(p)
	c.Check(sameMap(got, x.data), "%s: has the data %s instead of %s", x.way, show(got), show(x.data))
	c.Check(p.Error() == io.ErrUnexpectedEOF.Error(), "%s: has the message %q", x.way, p.Error())
	if e, ok := p.(Any); ok {
		c.Check(e.ValidateError_Final() == nil, "%s: %v", x.way, e.ValidateError_Final())
	}
}

type eofData struct {
	A int
	B any
	C []int
}

func p33typed(c *kit.C) {
	x := drawEOF(c, kit.Size(c, "depth", 0, 3, 80))
	var p ewd.ErrorWithData[eofData]
	if x.err != nil {
		d := eofData{kit.Int(c, "A", 0, 5), anyValue(c), kit.Oneof(c, "C", slices...)}
		p = ewd.NewErrorWithData_struct(x.err, kit.Oneof(c, "text", "", "text %v{A}"), &d)
		m := Map{"A": d.A, "B": d.B, "C": d.C}
		x.data, _ = merge(x.data, m, ewd.ReplacePreviousData)
		if kit.Bool(c, "boxed") {
			p = ewd.MakeErrorIncomparable_struct[eofData](p.(interface {
				ewd.ErrorWithData[eofData]
				ewd.IncomparableMaker
			}))
			x.way += " < box"
		}
		x.way += " < struct " + show(m)
	}
	c.Case(x.depth >= 1, "%s", x.way)
	c.LabelIf(x.eof, "translated")
	q := p
	errorTransform.UnexpectEOF2(&q)
	if x.err == nil {
		c.Check(q == nil, "nil became %v", q)
		return
	}
	if !x.eof {
		c.Check(reflect.TypeOf(p) == reflect.TypeOf(q) && identical(ewd.UnboxError(p), ewd.UnboxError(q)), "%s: changed to %v", x.way, q)
		return
	}
	judgeEOF(c, x, q)
	s := opsFor[eofData]()
	c.Check(s.holds(q.GetData_struct(), x.data) == "", "%s: GetData_struct: %s", x.way, s.holds(q.GetData_struct(), x.data))
}

func TestP33(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "plain", Quick: 24000, Fn: p33},
		kit.Sub{Name: "typed", Quick: 12000, Fn: p33typed})
}
