//go:build go1.23

package errs

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

type Any = ewd.ErrorWithData_any
type Map = map[string]any

func (n Num) Area() int      { return int(n) }
func (n Num) String() string { return fmt.Sprintf("Num<%d>", int(n)) }

// same is identity of values as far as it can be observed.
func same(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	switch x.Kind() {
	case reflect.Slice:
		return x.IsNil() == y.IsNil() && x.Len() == y.Len() && x.Pointer() == y.Pointer()
	case reflect.Map, reflect.Func:
		return x.Pointer() == y.Pointer()
	case reflect.Float64:
		return math.Float64bits(x.Float()) == math.Float64bits(y.Float())
	case reflect.Struct, reflect.Array:
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

// equal says whether the values are comparable and equal.
func equal(a, b any) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = false
		}
	}()
	return a == b
}

func sameMap(a, b Map) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !same(v, w) {
			return false
		}
	}
	return true
}

func copyMap(m Map) Map {
	r := Map{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func show(m Map) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q:%T(%v)", k, v, v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

var (
	ints     = []*int{new(int), new(int)}
	nums     = []*Num{new(Num), new(Num)}
	slices   = [][]int{{1, 2}, {}, {3}}
	maps     = []map[string]int{{"a": 1}, {}}
	funcs    = []func(){func() {}, func() { panic("never called") }}
	chans    = []chan int{make(chan int), make(chan int)}
	someErr  = errors.New("some error")
	bigs     = []*big.Int{big.NewInt(5), big.NewInt(-7)}
	stringer = []fmt.Stringer{Num(4), bigs[0], reflect.ValueOf(3)}
)

// anyValue draws a value of any type.
func anyValue(c *kit.C) any {
	switch kit.Int(c, "value", 0, 19) {
	case 0, 1, 2:
		return kit.Int(c, "int", -1, 3)
	case 3:
		return kit.Oneof(c, "string", "", "text", "%v", "{X}", "a\nb", "ü")
	case 4:
		return nil
	case 5:
		return (*int)(nil)
	case 6:
		return kit.Oneof(c, "pointer", ints...)
	case 7:
		return kit.Oneof(c, "slice", slices...)
	case 8:
		return kit.Oneof(c, "map", maps...)
	case 9:
		return kit.Oneof(c, "func", funcs...)
	case 10:
		return kit.Oneof(c, "float", 1.5, math.NaN(), math.Copysign(0, -1), math.Inf(1))
	case 11:
		return kit.Bool(c, "bool")
	case 12:
		return kit.Oneof[error](c, "error", someErr, io.EOF)
	case 13:
		return kit.Oneof(c, "num", Num(0), Num(7))
	case 14:
		return kit.Oneof(c, "num", nums[0], nums[1], nil)
	case 15:
		return [2]int{kit.Int(c, "x", 0, 1), 2}
	case 16:
		return struct{ Z int }{kit.Int(c, "x", 0, 1)}
	case 17:
		return kit.Oneof(c, "chan", chans[0], chans[1], nil)
	case 18:
		return kit.Oneof[any](c, "rest", uint8(3), int64(1), 'x', bigs[0], bigs[1], []int(nil), map[string]int(nil), (func())(nil), []any{nil}, Map{"A": 1}, error(nil))
	default:
		return kit.Oneof(c, "stringer", stringer...)
	}
}

// valueFor draws a value that can be assigned to a variable of type t.
func valueFor(c *kit.C, t reflect.Type) reflect.Value {
	zero := reflect.Zero(t)
	if kit.Int(c, "zero", 0, 4) == 0 {
		return zero
	}
	if t.Kind() == reflect.Interface {
		for try := 0; try < 4; try++ {
			if v := anyValue(c); v != nil && reflect.TypeOf(v).AssignableTo(t) {
				r := reflect.New(t).Elem()
				r.Set(reflect.ValueOf(v))
				return r
			}
		}
	}
	var v any
	switch zero.Interface().(type) {
	case int:
		v = kit.Int(c, "int", -3, 3)
	case string:
		v = kit.Oneof(c, "string", "s", "%d", "$")
	case *int:
		v = kit.Oneof(c, "pointer", ints...)
	case []int:
		v = kit.Oneof(c, "slice", slices...)
	case map[string]int:
		v = kit.Oneof(c, "map", maps...)
	case func():
		v = kit.Oneof(c, "func", funcs...)
	case bool:
		v = kit.Bool(c, "bool")
	case [2]int:
		v = [2]int{1, kit.Int(c, "x", 0, 3)}
	case chan int:
		v = kit.Oneof(c, "chan", chans...)
	case Num:
		v = Num(kit.Int(c, "num", 0, 3))
	case *Num:
		v = kit.Oneof(c, "num", nums...)
	case float64:
		v = kit.Oneof(c, "float", 1.5, math.NaN(), math.Inf(-1))
	case struct{ Z int }:
		v = struct{ Z int }{kit.Int(c, "x", 0, 3)}
	default:
		switch {
		case t.Kind() == reflect.Interface && reflect.TypeOf(Num(1)).AssignableTo(t):
			v = Num(2)
		case t.Kind() == reflect.Interface && reflect.TypeOf(someErr).AssignableTo(t):
			v = someErr
		default:
			return zero
		}
	}
	r := reflect.New(t).Elem()
	r.Set(reflect.ValueOf(v))
	return r
}

// Foreign errors.
type ptrErr struct {
	text  string
	inner error
}

func (e *ptrErr) Error() string { return e.text }
func (e *ptrErr) Unwrap() error { return e.inner }

type valErr struct{ n int }

func (e valErr) Error() string { return fmt.Sprint("valErr ", e.n) }

type sliceErr []string // not comparable

func (e sliceErr) Error() string { return strings.Join(e, ",") }

// userErr is an implementation of the interface outside the package.
type userErr struct {
	ewd.DummyValidator
	text  string
	inner error
	data  Map
}

func (e *userErr) Error() string                     { return e.text + "/plain" }
func (e *userErr) Error_interpolate(p Map) string    { return fmt.Sprintf("%s/%v", e.text, p) }
func (e *userErr) Unwrap() error                     { return e.inner }
func (e *userErr) Is(t error) bool                   { return error(e) == ewd.UnboxError(t) }
func (e *userErr) CanMakeIncomparable()              {}
func (e *userErr) GetParameter(s string) (any, bool) { v, ok := e.data[s]; return v, ok }
func (e *userErr) HasParameter(s string) bool        { _, ok := e.data[s]; return ok }
func (e *userErr) GetData_map() map[string]any       { return copyMap(e.data) }

// fld is a field of a struct that counts: embedded structs are flattened, shadowed fields dropped.
type fld struct {
	name  string
	typ   reflect.Type
	index []int
}

// layout lists these fields, ok says whether the type can be used at all.
func layout(t reflect.Type) (fields []fld, ok bool) {
	if t.Kind() != reflect.Struct {
		return nil, false
	}
	byName := map[string][]fld{}
	var names []string
	ok = true
	var walk func(t reflect.Type, path []int)
	walk = func(t reflect.Type, path []int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			p := append(append([]int{}, path...), i)
			switch {
			case f.Anonymous && f.Type.Kind() == reflect.Struct:
				walk(f.Type, p)
			case f.Anonymous && f.Type.Kind() == reflect.Pointer && f.Type.Elem().Kind() == reflect.Struct, f.PkgPath != "":
				ok = false
			default:
				if byName[f.Name] == nil {
					names = append(names, f.Name)
				}
				byName[f.Name] = append(byName[f.Name], fld{f.Name, f.Type, p})
			}
		}
	}
	walk(t, nil)
	for _, n := range names {
		l := byName[n]
		sort.SliceStable(l, func(i, j int) bool { return len(l[i].index) < len(l[j].index) })
		w := l[0].index
		for _, o := range l[1:] {
			if len(o.index) == len(w) || !reflect.DeepEqual(o.index[:len(w)-1], w[:len(w)-1]) {
				ok = false
			}
		}
		fields = append(fields, l[0])
	}
	return
}

func nilable(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer:
		return true
	}
	return false
}

// fits says whether the value of a map can be put into the field.
func (f fld) fits(v any) bool {
	if v == nil {
		return nilable(f.typ)
	}
	if f.typ.Kind() == reflect.Interface {
		return reflect.TypeOf(v).Implements(f.typ)
	}
	return reflect.TypeOf(v) == f.typ
}

// result tells how a call ended.
type result struct {
	err  error // the error returned, nil for a nil interface
	ok   bool
	own  func() any // GetData_struct of the result
	val  any        // panic value
	died bool
}

// sops has the functions of the package for one struct type.
type sops struct {
	name      string
	typ       reflect.Type
	fields    []fld
	suitable  bool
	suit      func() error
	newStruct func(base error, s string, data reflect.Value, modes ...ewd.PreviousDataTreatment) result
	newParams func(base error, s string, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, kv ...any) result
	newMap    func(base error, s string, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, m Map) result
	addStruct func(base error, data reflect.Value, modes ...ewd.PreviousDataTreatment) result
	addParams func(base error, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, kv ...any) result
	addMap    func(base error, mode ewd.PreviousDataTreatment, miss ewd.MissingDataTreatment, m Map) result
	del       func(base error, name string, miss ewd.MissingDataTreatment) result
	as        func(base error, miss ewd.MissingDataTreatment) result
	box       func(e error) error
	has       func(e error) bool
	get       func(e error, miss ewd.MissingDataTreatment) any
	checkAll  func([]string)
	checkOne  func(string)
}

func (s *sops) GoString() string { return s.name }

func wrap[T any](f func() (ewd.ErrorWithData[T], bool)) (r result) {
	var e ewd.ErrorWithData[T]
	r.val, r.died = kit.Panics(func() { e, r.ok = f() })
	if !r.died && e != nil {
		r.err = e
		r.own = func() any { return e.GetData_struct() }
	}
	return
}

func opsFor[T any]() *sops {
	var t T
	typ := reflect.TypeOf(&t).Elem()
	s := &sops{name: typ.String(), typ: typ}
	s.fields, s.suitable = layout(typ)
	p := func(v reflect.Value) *T { return v.Addr().Interface().(*T) }
	type P = ewd.PreviousDataTreatment
	type M = ewd.MissingDataTreatment
	type E = ewd.ErrorWithData[T]
	s.suit = ewd.StructSuitableForErrorsWithData[T]
	s.newStruct = func(base error, str string, v reflect.Value, modes ...P) result {
		return wrap(func() (E, bool) { return ewd.NewErrorWithData_struct(base, str, p(v), modes...), true })
	}
	s.newParams = func(base error, str string, mode P, miss M, kv ...any) result {
		return wrap(func() (E, bool) { return ewd.NewErrorWithData_params[T](base, str, mode, miss, kv...), true })
	}
	s.newMap = func(base error, str string, mode P, miss M, m Map) result {
		return wrap(func() (E, bool) { return ewd.NewErrorWithData_map[T](base, str, mode, miss, m), true })
	}
	s.addStruct = func(base error, v reflect.Value, modes ...P) result {
		return wrap(func() (E, bool) { return ewd.AddDataToError_struct(base, p(v), modes...), true })
	}
	s.addParams = func(base error, mode P, miss M, kv ...any) result {
		return wrap(func() (E, bool) { return ewd.AddDataToError_params[T](base, mode, miss, kv...), true })
	}
	s.addMap = func(base error, mode P, miss M, m Map) result {
		return wrap(func() (E, bool) { return ewd.AddDataToError_map[T](base, mode, miss, m), true })
	}
	s.del = func(base error, name string, miss M) result {
		return wrap(func() (E, bool) { return ewd.DeleteParameterFromError[T](base, name, miss), true })
	}
	s.as = func(base error, miss M) result {
		return wrap(func() (E, bool) { return ewd.AsErrorWithData[T](base, miss) })
	}
	s.box = func(e error) error {
		return ewd.MakeErrorIncomparable_struct[T](e.(interface {
			E
			ewd.IncomparableMaker
		}))
	}
	s.has = ewd.HasData[T]
	s.get = func(e error, miss M) any { return ewd.GetData_struct[T](e, miss) }
	s.checkAll = ewd.CheckParametersForStruct_all[T]
	s.checkOne = ewd.CheckParameterForStruct[T]
	return s
}

type pair struct {
	a, b *sops
	sub  func()
}

func pairOf[A, B any]() pair { return pair{opsFor[A](), opsFor[B](), ewd.CheckIsSubtype[A, B]} }

// draw makes a value of the struct type, and the map that corresponds to it.
func (s *sops) draw(c *kit.C) (reflect.Value, Map) {
	v := reflect.New(s.typ).Elem()
	m := Map{}
	for _, f := range s.fields {
		x := valueFor(c, f.typ)
		v.FieldByIndex(f.index).Set(x)
		m[f.name] = x.Interface()
	}
	return v, m
}

// complete does what is done to the data so that a struct of the type can be made of it.
func (s *sops) complete(m Map, miss ewd.MissingDataTreatment) bool {
	for _, f := range s.fields {
		v, ok := m[f.name]
		switch {
		case ok:
			if !f.fits(v) {
				return false
			}
		case miss == ewd.MissingDataAsZero:
			m[f.name] = reflect.Zero(f.typ).Interface()
		default:
			return false
		}
	}
	return true
}

// holds says whether the struct has the values of the map, and zeros where the map has none.
func (s *sops) holds(got any, m Map) string {
	v := reflect.ValueOf(got)
	if v.Type() != s.typ {
		return fmt.Sprintf("type %v", v.Type())
	}
	for _, f := range s.fields {
		x := v.FieldByIndex(f.index)
		want := m[f.name] // nil if there is none
		if want == nil {
			if !x.IsZero() {
				return fmt.Sprintf("field %v is %v instead of zero", f.name, x)
			}
		} else if !same(x.Interface(), want) {
			return fmt.Sprintf("field %v is %v instead of %v", f.name, x, want)
		}
	}
	return ""
}

// merge models the treatment of previous data; ok is false if a collision is to be refused.
func merge(old, add Map, mode ewd.PreviousDataTreatment) (Map, bool) {
	r := copyMap(old)
	for k, v := range add {
		o, present := r[k]
		switch {
		case !present, mode == ewd.ReplacePreviousData:
			r[k] = v
		case mode == ewd.AssertDataIsNotReplaced:
			if !equal(o, v) {
				return nil, false
			}
		}
	}
	return r, true
}

var suitable = func() (r []*sops) {
	for _, s := range catalogue {
		if s.suitable {
			r = append(r, s)
		}
	}
	return
}()

var modes = []ewd.PreviousDataTreatment{ewd.PreferPreviousData, ewd.ReplacePreviousData, ewd.AssertDataIsNotReplaced}
var misses = []ewd.MissingDataTreatment{ewd.MissingDataAsZero, ewd.EnsureDataIsPresent}
