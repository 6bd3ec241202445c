//go:build go1.23

package serial

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/stack"
	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
)

// The goroutines of this check call any method of values of their own and any function on them.

// more gives further values with methods to call.
var more = func(v []*Int) []any { return nil }

// functions that are called by this check, next to the methods of the values
var functions = map[string]any{
	"SerializeFieldElement":                     fe.SerializeFieldElement,
	"DeserializeFieldElement":                   fe.DeserializeFieldElement,
	"SerializeFieldElementWithPrefix":           fe.SerializeFieldElementWithPrefix,
	"DeserializeFieldElementAndGetPrefix":       fe.DeserializeFieldElementAndGetPrefix,
	"DeserializeFieldElementWithExpectedPrefix": fe.DeserializeFieldElementWithExpectedPrefix,
	"IsEqualAsUint256":                          fe.IsEqualAsUint256,
	"BigIntToUInt256":                           fe.BigIntToUInt256,
	"BigIntToUint512":                           fe.BigIntToUint512,
	"MultiInvertEq":                             fe.MultiInvertEq,
	"MultiInvertEqSlice":                        fe.MultiInvertEqSlice,
	"MultiInvertEqSkipZeros":                    fe.MultiInvertEqSkipZeros,
	"MultiInvertEqSliceSkipZeros":               fe.MultiInvertEqSliceSkipZeros,
	"GLV":                                       exponents.GLV_representation,
	"MapToFieldElement":                         curvePoints.MapToFieldElement,
	"RandomPoint_full":                          curvePoints.MakeRandomPointUnsafe_xtw_full,
	"RandomPoint_subgroup":                      curvePoints.MakeRandomPointUnsafe_xtw_subgroup,
	"FromXYAffine_full":                         curvePoints.CurvePointFromXYAffine_full,
	"FromXYAffine_subgroup":                     curvePoints.CurvePointFromXYAffine_subgroup,
	"FromXAndSignY_full":                        curvePoints.CurvePointFromXAndSignY_full,
	"FromXAndSignY_subgroup":                    curvePoints.CurvePointFromXAndSignY_subgroup,
	"FromYAndSignX_full":                        curvePoints.CurvePointFromYAndSignX_full,
	"FromYAndSignX_subgroup":                    curvePoints.CurvePointFromYAndSignX_subgroup,
	"FromXTimesSignY":                           curvePoints.CurvePointFromXTimesSignY_subgroup,
	"FromXYTimesSignY":                          curvePoints.CurvePointFromXYTimesSignY_subgroup,
	"FromYXTimesSignY":                          curvePoints.CurvePointFromYXTimesSignY_subgroup,
	"MakeBitHeader":                             common.MakeBitHeader,
	"TrustLevelFromBool":                        common.TrustLevelFromBool,
	"UIntarrayToInt":                            utils.UIntarrayToInt,
	"BigIntToUIntArray":                         utils.BigIntToUIntArray,
	"IsEqualAsBigInt":                           utils.IsEqualAsBigInt,
	"CompareSlices":                             utils.CompareSlices[fe.Uint256],
	"CheckSliceAlias":                           testutils.CheckSliceAlias[byte],
	"Rand":                                      testutils.DefaultCreateRandFromSeed,
	"Names": func(v uint64) string {
		return utils.NameOfType[*fe.Uint256]() + utils.NameOfType[error]() + fmt.Sprint(utils.IsTypeNilable[[]int](), utils.IsTypeNilable[exponents.Exponent]())
	},
	"Panics": func(z, x *fe.FieldElement) (bool, bool, any) {
		_, v := testutils.CheckPanic2(func(z, x *fe.FieldElement) { z.Inv(x) }, z, x)
		return testutils.CheckPanic(z.DivideInt64, x, int64(0)), v != nil, 0
	},
	"ByName": func(z, x *fe.Uint256) any {
		return testutils.CallMethodByName(z, "AddAndReturnCarry", z, x)
	},
	"Lists": func(a, b []uint64) ([]uint64, bool) {
		l := utils.ConcatenateListsWithoutDuplicates(a, b)
		return l, utils.ElementInList(5, l)
	},
	"NewSlice": func(v uint8) int {
		_, s, err := ps.CreateNewSlice[curvePoints.Point_axtw_full](int32(v))
		if err != nil {
			return -1
		}
		return s.Len()
	},
	"Conditions": func(v uint8, x *fe.Uint256) (string, []error) {
		msg := []string{"$m=0{none %v{A}}$m>1{%v{B}}", "$m>0{$v{A} %%}$w", "%!m<2{%v{A}}%!M=1{x $x{A}}", "$m>2{x}$!M>0{y}", "$nonsense{A}", "%w$w %v{A}%v{B} $m=1{only}"}[v%6]
		e := ewd.NewErrorWithData_any_params(io.EOF, msg, ewd.ReplacePreviousData, "A", x[0], "B", x.String())
		f := ewd.NewErrorWithData_any_params(e, msg, ewd.ReplacePreviousData, "B", v)
		ewd.EnsureErrorsValid_Syntax(e)
		return f.Error(), []error{e.ValidateSyntax(), f.ValidateError_Base(), f.ValidateError_Final(), f.ValidateError_Params(ewd.ParamMap{"A": v})}
	},
	"Incomparable": func(v uint8) (any, []bool) {
		e := ewd.NewErrorWithData_struct(io.EOF, "m %v{A}", &dataA{int(v), "b"})
		a := ewd.MakeErrorIncomparable_any(e)
		b := ewd.MakeErrorIncomparable_struct[dataA](e)
		ewd.EnsureErrorsValid_Final(e, a)
		ewd.EnsureErrorsValid_Base(e, b)
		return []any{a.Error(), b.Error(), b.GetData_struct(), ewd.UnboxError_any(a).Error(), ewd.UnboxError_struct[dataA](b).GetData_struct()},
			[]bool{errors.Is(a, a), errors.Is(b, e), errors.Is(a, io.EOF), a.HasParameter("A"), ewd.HasData[dataB](b)}
	},
	"Maps": func(v, w uint64) any {
		m := map[string]any{"A": int(v), "B": "x", "C": w}
		e := ewd.AddDataToError_any_map(io.EOF, ewd.ReplacePreviousData, m)
		f := ewd.NewErrorWithData_map[dataB](e, "", ewd.PreferPreviousData, ewd.MissingDataAsZero, ewd.ParamMap{"C": 0})
		g := ewd.DeleteParameterFromError[dataA](f, "C", ewd.MissingDataAsZero)
		h := ewd.AddDataToError_params[dataA](e, ewd.PreferPreviousData, ewd.MissingDataAsZero, "A", 5)
		return []any{f.GetData_struct(), g.GetData_struct(), h.GetData_struct(), g.HasParameter("C"), len(m), h.Error()}
	},
	"Structs": func(v uint64) any {
		_, p := kit.Panics(func() { ewd.CheckParameterForStruct[dataB]([]string{"A", "C", "D"}[v%3]) })
		_, q := kit.Panics(func() { ewd.CheckIsSubtype[dataA, dataB]() })
		_, r := kit.Panics(func() { ewd.CheckIsSubtype[dataB, dataA]() })
		return []any{p, q, r, ewd.ValidInterpolationName([]string{"A", "a", "A-", ""}[v%4])}
	},
}

var addresses = regexp.MustCompile("0x[0-9a-f]{6,}")

// unsure are methods whose results are not said.
var unsure = map[string]bool{"SquareRoot": true, "Format": true}

// a call is a method of a value with a number, or a function.
type call struct {
	name string
	on   int
	f    reflect.Value // for functions
}

// own has the values of a goroutine.
type own struct {
	all []reflect.Value // pointers, and other values with methods
}

func newOwn(vals []*Int, elems []reffe.FE, pts []CP, g int) (o *own) {
	o = new(own)
	add := func(x any) { o.all = append(o.all, reflect.ValueOf(x)) }
	n := len(vals)
	for i := range vals {
		v := vals[(i+g)%n]
		if i < 4 {
			u := fe.BigIntToUInt256(v)
			add(&u)
			e := elems[(i+g)%n]
			add(&e)
		}
		if i < 2 {
			w := fe.BigIntToUint512(new(Int).Lsh(v, uint(40*i)))
			add(&w)
			u := fe.BigIntToUInt256(v)
			arr := [4]uint64(u)
			add(&arr)
			b := [32]byte{1, 2, byte(i), byte(g), 31: 0x70}
			add(&b)
			add(bytes.NewBuffer(v.FillBytes(make([]byte, 48))))
			var fb *testutils.FaultyBuffer
			fb = testutils.NewFaultyBuffer(20+30*i, io.ErrClosedPipe)
			fb.SetContent(v.FillBytes(make([]byte, 48)))
			add(fb)
			var x exponents.Exponent
			x.SetBigInt(v)
			add(&x)
			var y common.FieldElementEndianness
			y.SetEndianness(endian[i == 0][0])
			add(&y)
			h := common.MakeBitHeader(common.PrefixBits(i), uint8(i+1))
			add(&h)
		}
	}
	for _, p := range pts {
		add(rc.Copy(p))
	}
	s := stack.NewStack[uint64]()
	s.Push(vals[0].Uint64())
	add(s)
	l := make(curvePoints.CurvePointSlice_xtw_full, 3)
	a := make(curvePoints.CurvePointSlice_axtw_subgroup, 2)
	e := make(curvePoints.CurvePointSlice_efgh_full, 2)
	for i := range l {
		l[i].SetFrom(pts[i])
	}
	for i := range a {
		a[i].SetNeutral()
		e[i].SetFrom(pts[i])
	}
	add(l)
	add(a)
	add(e)
	add(curvePoints.AsCurvePointPtrSlice([]CP{rc.Copy(pts[0]), rc.Copy(pts[1])}))
	add(curvePoints.GenericPointSlice{rc.Copy(pts[0]), rc.Copy(pts[1])})
	for _, x := range more(vals) {
		add(x)
	}
	return
}

func (o *own) calls() (l []call) {
	for i, x := range o.all {
		if _, ok := x.Interface().(*bytes.Buffer); ok { // reads from itself forever
			continue
		}
		for j := 0; j < x.NumMethod(); j++ {
			if name := x.Type().Method(j).Name; !unsure[name] {
				l = append(l, call{name, i, reflect.Value{}})
			}
		}
	}
	for name, f := range functions { // sorted by the caller
		l = append(l, call{name, -1, reflect.ValueOf(f)})
	}
	return
}

// dice are numbers that come from the number of a step.
type dice uint64

func (d *dice) next() uint64 {
	*d += 0x9e3779b97f4a7c15
	z := uint64(*d)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (d *dice) to(n int) int { return int(d.next() % uint64(n)) }

// arg gives an argument of a type out of the values.
func (o *own) arg(t reflect.Type, d *dice) (r reflect.Value, ok bool) {
	set := func(v uint64) (reflect.Value, bool) {
		r := reflect.New(t).Elem()
		if r.CanInt() {
			r.SetInt(int64(v))
		} else {
			r.SetUint(v)
		}
		return r, true
	}
	switch t {
	case reflect.TypeOf((*big.Int)(nil)):
		x := new(big.Int).SetUint64(d.next())
		return reflect.ValueOf(x.Lsh(x, uint(d.to(180)))), true
	case reflect.TypeOf((*rand.Rand)(nil)):
		return reflect.ValueOf(rand.New(rand.NewSource(int64(d.to(5))))), true
	case reflect.TypeOf((*binary.ByteOrder)(nil)).Elem():
		return reflect.ValueOf(endian[d.to(2) == 0][0]), true
	case reflect.TypeOf(untrusted):
		return reflect.ValueOf(untrusted), true
	case reflect.TypeOf((*reflect.Type)(nil)).Elem():
		return r, false
	}
	var l []reflect.Value
	for _, x := range o.all {
		switch {
		case x.Type() == t, t.Kind() == reflect.Interface && t.NumMethod() > 0 && x.Type().Implements(t):
			l = append(l, x)
		case x.Kind() == reflect.Pointer && x.Type().Elem() == t:
			l = append(l, x.Elem())
		}
	}
	if t.Kind() == reflect.Interface && reflect.TypeOf((*strings.Reader)(nil)).Implements(t) && d.to(2) == 0 {
		l = []reflect.Value{reflect.ValueOf(strings.NewReader(strings.Repeat(fmt.Sprintf("%x", d.next()), 6)[d.to(64):]))}
	}
	if len(l) > 0 {
		return l[d.to(len(l))], true
	}
	switch t.Kind() {
	case reflect.Int:
		return set(uint64(d.to(5)) - 1)
	case reflect.Uint:
		return set(uint64(d.to(300)))
	case reflect.Uint8:
		return set(uint64(d.to(8) + 1))
	case reflect.Bool:
		return reflect.ValueOf(d.to(2) == 0), true
	case reflect.Int64, reflect.Uint64, reflect.Uint16, reflect.Uint32, reflect.Int32:
		return set(d.next() >> uint(d.to(60)))
	case reflect.Slice:
		r := reflect.MakeSlice(t, 0, 48)
		n := d.to(4)
		if t.Elem().Kind() == reflect.Uint8 {
			n = 2 + 2*d.to(20)
		}
		for ; n > 0; n-- {
			x, ok := o.arg(t.Elem(), d)
			if !ok {
				return r, false
			}
			r = reflect.Append(r, x)
		}
		return r, true
	}
	return
}

// show gives a value as a text, with no addresses.
func text(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 6 {
		return "..."
	}
	if v.CanInterface() && v.Kind() != reflect.Interface {
		if v.Kind() != reflect.Pointer && v.Kind() != reflect.Slice {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			switch x := p.Interface().(type) {
			case *fe.FieldElement:
				return x.String()
			case CP:
				return state(x)
			}
		}
		switch x := v.Interface().(type) {
		case CP:
			if v.Kind() == reflect.Pointer && !v.IsNil() {
				return state(x)
			}
		case *big.Int:
			return x.String()
		case *rand.Rand:
			return fmt.Sprint(x.Int63())
		case *bytes.Buffer:
			return fmt.Sprintf("%x", x.Bytes())
		case *testutils.FaultyBuffer:
			return fmt.Sprintf("%x", x.Bytes())
		case error:
			if v.Kind() != reflect.Pointer || !v.IsNil() {
				return x.Error()
			}
		case []byte:
			return fmt.Sprintf("%x", x)
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + text(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, text(v.Index(i), depth+1))
		}
		return fmt.Sprint(l)
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			l = append(l, text(v.Field(i), depth+1))
		}
		return fmt.Sprint(l)
	case reflect.Func, reflect.Chan, reflect.Map, reflect.UnsafePointer:
		return v.Kind().String()
	}
	return fmt.Sprint(v)
}

func (o *own) do(c call, d *dice) (r string) {
	f := c.f
	var args []reflect.Value
	if c.on >= 0 {
		f = o.all[c.on].MethodByName(c.name)
	}
	t := f.Type()
	for i := 0; i < t.NumIn(); i++ {
		if t.IsVariadic() && i == t.NumIn()-1 {
			for n := d.to(4); n > 0; n-- {
				x, ok := o.arg(t.In(i).Elem(), d)
				if !ok {
					return "not called"
				}
				args = append(args, x)
			}
			break
		}
		x, ok := o.arg(t.In(i), d)
		if !ok {
			return "not called"
		}
		args = append(args, x)
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(error); !ok && reflect.TypeOf(e).Kind() != reflect.String {
				e = "panic" // it may have pointers
			}
			r += addresses.ReplaceAllString(fmt.Sprintf("panic: %v", e), "0x")
		}
		if c.on >= 0 {
			r += " receiver " + text(o.all[c.on], 0)
		}
		for _, x := range args {
			r += " argument " + text(x, 0)
		}
	}()
	for _, x := range f.Call(args) {
		r += text(x, 0) + ", "
	}
	return
}

func concMethods(c *kit.C) {
	const R = 8
	var vals []*Int
	var elems []reffe.FE
	for i := 0; i < 4; i++ {
		e, v := reffe.Draw(c)
		elems, vals = append(elems, e), append(vals, v)
	}
	var made []CP
	for i := 0; i < int(rc.NKinds); i++ {
		made = append(made, rc.Make(c, rc.Kind(i), rc.DrawSub(c).Pt))
	}
	calls := newOwn(vals, elems, made, 0).calls()
	byName := map[string][]call{}
	var names []string
	for _, x := range calls {
		if byName[x.name] == nil {
			names = append(names, x.name)
		}
		byName[x.name] = append(byName[x.name], x)
	}
	sort.Strings(names)
	p := programs(c, len(names), 12)
	// some programs call the same function over and over
	if kit.Bool(c, "one function") {
		op := kit.Int(c, "op", 0, len(names)-1)
		for g := range p {
			for i := range p[g] {
				p[g][i].op = op
			}
		}
	}
	var d strings.Builder
	for _, l := range p {
		for _, x := range l {
			fmt.Fprintf(&d, "%s(%d,%x) ", names[x.op], x.a, x.v)
		}
		d.WriteString("| ")
	}
	desc := fmt.Sprintf("values %x, points %v, calls %s", vals, made, d.String())
	c.Case(len(p) > 2, "%s", desc)
	atOnce(c, desc, p, func() func(g int) func(ins) string {
		return func(g int) func(ins) string {
			o := newOwn(vals, elems, made, g)
			return func(x ins) string {
				v := dice(x.v)
				l := byName[names[x.op]]
				return names[x.op] + ": " + o.do(l[(x.a+8*x.b)%len(l)], &v)
			}
		}
	})
}
