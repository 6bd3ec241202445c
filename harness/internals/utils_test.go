//go:build go1.23

package internals

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"strings"
	"testing"
	"unsafe"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

// ---------------------------------------------------------------- big integers

type asInt struct{ x *big.Int }

func (a asInt) ToBigInt() *big.Int { return new(big.Int).Set(a.x) }

func drawWord(c *kit.C) uint64 {
	switch kit.Int(c, "word", 0, 3) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return 1 << kit.Int(c, "bit", 0, 63)
	}
	return kit.U64(c, "uniform")
}

func p37ints(c *kit.C) {
	var z [4]uint64
	want := new(big.Int)
	for i := 3; i >= 0; i-- {
		z[i] = drawWord(c)
		want.Lsh(want, 64)
		want.Or(want, new(big.Int).SetUint64(z[i]))
	}
	in := z
	c.Case(z[0] != z[3] && want.BitLen() > 128, "%x", want)
	got := utils.UIntarrayToInt(&in)
	c.Check(got.Cmp(want) == 0 && in == z, "UIntarrayToInt(%x) = %x", z, got)
	back := utils.BigIntToUIntArray(got)
	c.Check(back == z && got.Cmp(want) == 0, "BigIntToUIntArray(%x) = %x", want, back)
	bad := kit.Oneof(c, "bad", new(big.Int).Neg(want), new(big.Int).Add(want, new(big.Int).Lsh(big.NewInt(1), uint(kit.Int(c, "shift", 256, 300)))), new(big.Int).Lsh(big.NewInt(-1), 256))
	_, did := kit.Panics(func() { back = utils.BigIntToUIntArray(bad) })
	c.Check(did == (bad.Sign() < 0 || bad.BitLen() > 256), "BigIntToUIntArray(%x) panics: %v", bad, did)
	other := new(big.Int).Set(want)
	if kit.Bool(c, "other") {
		other.Xor(other, new(big.Int).Lsh(big.NewInt(1), uint(kit.Int(c, "bit", 0, 260))))
	}
	if kit.Int(c, "negative", 0, 3) == 0 {
		other.Neg(other)
	}
	eq := utils.IsEqualAsBigInt(asInt{want}, asInt{other})
	c.Check(eq == (want.String() == other.String()), "IsEqualAsBigInt(%x, %x) = %v", want, other, eq)
	// strings
	x := new(big.Int).Rsh(other, uint(kit.Int(c, "drop", 0, 255)))
	neg, abs := x.Sign() < 0, new(big.Int).Abs(x)
	base := kit.Oneof(c, "base", 10, 16, 2, 8)
	s := abs.Text(base)
	if kit.Bool(c, "upper") {
		s = strings.ToUpper(s)
	}
	s = map[int]string{10: "", 16: kit.Oneof(c, "prefix", "0x", "0X"), 2: kit.Oneof(c, "prefix", "0b", "0B"), 8: kit.Oneof(c, "prefix", "0", "0o", "0O")}[base] + s
	if neg {
		s = "-" + s
	} else if kit.Int(c, "plus", 0, 3) == 0 {
		s = "+" + s
	}
	if y := utils.InitIntFromString(s); y.Cmp(x) != 0 {
		c.Fatalf("InitIntFromString(%q) = %v", s, y)
	}
	pos := kit.Int(c, "pos", 0, len(s))
	broken := s[:pos] + kit.Oneof(c, "insert", " ", "g", ".", "--", "٣", "\x00") + s[pos:]
	_, did = kit.Panics(func() { utils.InitIntFromString(broken) })
	c.Check(did, "InitIntFromString(%q) is accepted", broken)
	for _, e := range []string{"", "0x", "-", "x", "0b2"} {
		_, did := kit.Panics(func() { utils.InitIntFromString(e) })
		c.Check(did, "InitIntFromString(%q) is accepted", e)
	}
}

// ---------------------------------------------------------------- lists and maps

// equalAt is equality written out.
func equalAt[T comparable](x, y []T) bool {
	if (x == nil) != (y == nil) || len(x) != len(y) {
		return false
	}
	for i := range x {
		if !(x[i] == y[i]) {
			return false
		}
	}
	return true
}

func listOps[T comparable](c *kit.C, name string, gen func() T, norm func(T) T) {
	draw := func(label string) []T {
		n := kit.Size(c, label, -1, 7, 300)
		if n < 0 {
			return nil
		}
		r := make([]T, n, n+kit.Int(c, "spare", 0, 2))
		for i := range r {
			r[i] = gen()
		}
		return r
	}
	x, y, e := draw("x"), draw("y"), gen()
	if kit.Int(c, "copy", 0, 2) == 0 && x != nil {
		y = append([]T{}, x...)
		if len(y) > 0 && kit.Bool(c, "change") {
			y[kit.Int(c, "index", 0, len(y)-1)] = gen()
		}
	}
	x0, y0 := append([]T(nil), x...), append([]T(nil), y...)
	c.Case(len(x) > 1 && len(y) > 1, "%s %v %v %v", name, x, y, e)
	eq := utils.CompareSlices(x, y)
	c.Check(eq == equalAt(x, y), "%s: CompareSlices(%v, %v) = %v", name, x, y, eq)
	_, did := kit.Panics(func() { utils.AssertSliceEquals(x, y...) })
	same := x != nil && len(x) == len(y) && equalAt(append([]T{}, x...), append([]T{}, y...))
	c.Check(did == !same, "%s: AssertSliceEquals(%v, %v): panic %v", name, x, y, did)
	for _, withNorm := range []bool{false, true} {
		var opt []func(T) T
		f := utils.Identity[T]
		if withNorm {
			f = norm
			opt = []func(T) T{norm}
		}
		in := false
		for _, v := range x {
			in = in || f(v) == f(e)
		}
		got := utils.ElementInList(e, x, opt...)
		c.Check(got == in, "%s: ElementInList(%v, %v) = %v, normalised %v", name, e, x, got, withNorm)
		var want []T
		for _, v := range append(append([]T{}, x...), y...) {
			dup := false
			for _, w := range want {
				dup = dup || f(w) == f(v)
			}
			if !dup {
				want = append(want, v)
			}
		}
		l := utils.ConcatenateListsWithoutDuplicates(x, y, opt...)
		c.Check(fmt.Sprint(l) == fmt.Sprint(want), "%s: ConcatenateListsWithoutDuplicates(%v, %v) = %v instead of %v, normalised %v", name, x, y, l, want, withNorm)
		for i := range l { // a new list
			l[i] = gen()
		}
		c.Check(fmt.Sprint(x, y) == fmt.Sprint(x0, y0), "%s: an argument was changed", name)
	}
	_, did = kit.Panics(func() { utils.ElementInList(e, x, norm, norm) })
	c.Check(did, "ElementInList with two functions is accepted")
	_, did = kit.Panics(func() { utils.ConcatenateListsWithoutDuplicates(x, y, norm, norm) })
	c.Check(did, "ConcatenateListsWithoutDuplicates with two functions is accepted")
}

func p37lists(c *kit.C) {
	switch kit.Int(c, "type", 0, 3) {
	case 0:
		listOps(c, "int", func() int { return kit.Int(c, "v", -3, 3) }, func(i int) int { return i * i })
	case 1:
		listOps(c, "string", func() string { return kit.Oneof(c, "v", "a", "A", "b", "") }, strings.ToLower)
	case 2:
		listOps(c, "float", func() float64 { return kit.Oneof(c, "v", 0, math.Copysign(0, -1), 1, math.NaN()) }, math.Abs)
	default:
		listOps(c, "struct", func() [2]int { return [2]int{kit.Int(c, "v", 0, 1), kit.Int(c, "w", 0, 1)} }, func(a [2]int) [2]int { return [2]int{a[0]} })
	}
}

func p37maps(c *kit.C) {
	draw := func(label string) map[string]int {
		n := kit.Size(c, label, -1, 4, 60)
		many := n > 4
		if n < 0 {
			return nil
		}
		m := map[string]int{}
		for ; n > 0; n-- {
			k := kit.Oneof(c, "key", "", "a", "b", "c")
			if many {
				k += fmt.Sprint(n)
			}
			m[k] = kit.Int(c, "value", 0, 1)
		}
		return m
	}
	x, y := draw("x"), draw("y")
	if x != nil && kit.Bool(c, "copy") {
		y = map[string]int{}
		for k, v := range x {
			y[k] = v
		}
		switch kit.Int(c, "change", 0, 3) {
		case 0:
			y["a"] = kit.Int(c, "value", 0, 1)
		case 1:
			delete(y, "a")
			y["d"] = 0
		}
	}
	want := (x == nil) == (y == nil) && len(x) == len(y)
	for _, k := range []string{"", "a", "b", "c", "d"} {
		v, ok := x[k]
		w, ok2 := y[k]
		want = want && v == w && ok == ok2
	}
	c.Case(len(x) > 1 && len(y) > 1, "%v %v", x, y)
	c.Check(utils.CompareMaps(x, y) == want && utils.CompareMaps(y, x) == want, "CompareMaps(%v, %v)", x, y)
	lift := func(m map[string]int) map[string]any {
		if m == nil {
			return nil
		}
		r := map[string]any{}
		for k, v := range m {
			if v == 0 {
				r[k] = nil
			} else {
				r[k] = v
			}
		}
		return r
	}
	c.Check(utils.CompareParamMaps(lift(x), lift(y)) == want, "CompareParamMaps(%v, %v)", lift(x), lift(y))
	l := lift(x)
	for k, v := range l { // the same number in another type is another value
		if v != nil {
			l[k] = int64(v.(int))
			c.Check(!utils.CompareParamMaps(l, lift(x)), "CompareParamMaps ignores types")
			break
		}
	}
}

func p37alias(c *kit.C) {
	n := kit.Size(c, "n", 0, 6, 200)
	arr, other := make([]int, n), make([]int, n)
	cut := func(a []int) []int {
		if kit.Int(c, "nil", 0, 7) == 0 {
			return nil
		}
		lo := kit.Int(c, "lo", 0, n)
		hi := kit.Int(c, "hi", lo, n)
		return a[lo:hi]
	}
	x, y := cut(arr), cut(arr)
	one := true
	if kit.Int(c, "other", 0, 2) == 0 {
		y, one = cut(other), false
	}
	want := one && cap(x) > 0 && cap(y) > 0
	c.Case(want, "%d: [%d,%d] [%d,%d] %v", n, len(x), cap(x), len(y), cap(y), one)
	c.Check(testutils.CheckSliceAlias(x, y) == want && testutils.CheckSliceAlias(y, x) == want, "CheckSliceAlias is %v", !want)
}

// ---------------------------------------------------------------- functions

func p37bind(c *kit.C) {
	type call []any
	var got call
	a, b, d, e, f := kit.Int(c, "a", 0, 9), fmt.Sprint(kit.Int(c, "b", 0, 9)), kit.Oneof[error](c, "d", nil, io.EOF), []int{kit.Int(c, "e", 0, 9)}, kit.Bool(c, "f")
	c.Case(a != 0, "%v %v %v %v %v", a, b, d, e, f)
	want := call{a, b, d, e, f}
	checkIt := func(n int) {
		c.Check(reflect.DeepEqual(got, want[:n]), "binding %d arguments passes %v instead of %v", n, got, want[:n])
		got = nil
	}
	g2 := utils.Bind2(func(a int, b string) { got = call{a, b} }, b)
	g3 := utils.Bind23(func(a int, b string, d error) { got = call{a, b, d} }, b, d)
	g4 := utils.Bind234(func(a int, b string, d error, e []int) { got = call{a, b, d, e} }, b, d, e)
	g5 := utils.Bind2345(func(a int, b string, d error, e []int, f bool) { got = call{a, b, d, e, f} }, b, d, e, f)
	c.Check(got == nil, "binding calls the function")
	for i := 0; i < 2; i++ {
		g2(a)
		checkIt(2)
		g3(a)
		checkIt(3)
		g4(a)
		checkIt(4)
		g5(a)
		checkIt(5)
	}
	// same types, so that the order matters
	sum := func(x ...int) (n int) {
		for _, v := range x {
			n = n*10 + v
		}
		return
	}
	r := 0
	utils.Bind2(func(x, y int) { r = sum(x, y) }, 2)(1)
	c.Check(r == 12, "Bind2: order %d", r)
	utils.Bind23(func(x, y, z int) { r = sum(x, y, z) }, 2, 3)(1)
	c.Check(r == 123, "Bind23: order %d", r)
	utils.Bind234(func(x, y, z, w int) { r = sum(x, y, z, w) }, 2, 3, 4)(1)
	c.Check(r == 1234, "Bind234: order %d", r)
	utils.Bind2345(func(x, y, z, w, v int) { r = sum(x, y, z, w, v) }, 2, 3, 4, 5)(1)
	c.Check(r == 12345, "Bind2345: order %d", r)
	// copies
	type T struct {
		n int
		l []int
	}
	t := T{a, e}
	p := utils.AddressOfCopy(t)
	c.Check(p != &t && p.n == t.n && &p.l[0] == &t.l[0], "AddressOfCopy gives %v", *p)
	p.n++
	c.Check(t.n == a, "AddressOfCopy gives the original")
	c.Check(utils.Identity(a) == a && utils.Identity[error](d) == d, "Identity")
}

var anyType = reflect.TypeOf((*any)(nil)).Elem()

// p37call has the functions that call functions by reflection.
func p37call(c *kit.C) {
	types := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf((*int)(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf(map[int]int(nil)),
		reflect.TypeOf((chan int)(nil)), reflect.TypeOf(func() {}), anyType, reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf([2]int{}), reflect.TypeOf(T37{})}
	var in []reflect.Type
	for n := kit.Int(c, "inputs", 0, 4); n > 0; n-- {
		in = append(in, kit.Oneof(c, "type", types...))
	}
	called := 0
	var seen []reflect.Value
	fails := kit.Int(c, "panics", 0, 5)
	value := kit.Oneof[any](c, "panic value", "message", errors.New("an error"), 7, T37{3}, someStringer{}, "reflex", "not reflect", errors.New("flect"), "reflect: of the caller", "reflect")
	text, _ := value.(string)
	passed := strings.HasPrefix(text, "reflect") // raised again, as documented
	fun := reflect.MakeFunc(reflect.FuncOf(in, []reflect.Type{reflect.TypeOf(0)}, false), func(args []reflect.Value) []reflect.Value {
		called++
		seen = args
		if fails == 0 {
			panic(value)
		}
		return []reflect.Value{reflect.ValueOf(42)}
	})
	var args []any
	badNil := false
	desc := ""
	for _, t := range in {
		v := reflect.New(t).Elem()
		isNil := kit.Int(c, "nil", 0, 3) == 0
		if !isNil {
			switch x := v.Addr().Interface().(type) {
			case *int:
				*x = 5
			case *string:
				*x = "s"
			case **int:
				*x = new(int)
			case *[]int:
				*x = []int{1}
			case *map[int]int:
				*x = map[int]int{1: 1}
			case *chan int:
				*x = make(chan int)
			case *func():
				*x = func() {}
			case *any:
				*x = 6
			case *error:
				*x = io.EOF
			case *[2]int:
				*x = [2]int{1, 2}
			case *T37:
				*x = T37{1}
			}
			args = append(args, v.Interface())
			desc += fmt.Sprintf(" %v", t)
		} else {
			args = append(args, nil)
			desc += fmt.Sprintf(" nil for %v", t)
			switch t.Kind() {
			case reflect.Int, reflect.String, reflect.Array, reflect.Struct:
				badNil = true
			}
		}
	}
	c.Case(len(in) > 1, "%s, fails %v", desc, fails == 0)
	judge := func(what string) {
		c.Check(called == 1, "%s%s: called %d times", what, desc, called)
		for i, a := range seen {
			if args[i] == nil {
				c.Check(a.IsNil(), "%s%s: argument %d is %v instead of nil", what, desc, i, a)
				continue
			}
			x := a.Interface()
			switch a.Kind() {
			case reflect.Slice, reflect.Map, reflect.Func:
				c.Check(a.Pointer() == reflect.ValueOf(args[i]).Pointer(), "%s%s: argument %d is %v", what, desc, i, a)
			default:
				c.Check(x == args[i], "%s%s: argument %d is %v instead of %v", what, desc, i, x, args[i])
			}
		}
		called = 0
	}
	var rv []reflect.Value
	for _, a := range args {
		rv = append(rv, reflect.ValueOf(a))
	}
	var out []reflect.Value
	val, did := kit.Panics(func() { out = common.CallFunction_FixNil(fun, rv) })
	switch {
	case badNil:
		c.Check(did && called == 0, "CallFunction_FixNil%s is accepted", desc)
	case fails == 0:
		c.Check(did && val == value, "CallFunction_FixNil%s: panic %v %v", desc, did, val)
		judge("CallFunction_FixNil")
	default:
		c.Check(!did && len(out) == 1 && out[0].Int() == 42, "CallFunction_FixNil%s: %v, panic %v", desc, out, val)
		judge("CallFunction_FixNil")
	}
	f := fun.Interface()
	var didPanic bool
	var pv any
	val, did = kit.Panics(func() { didPanic, pv = testutils.CheckPanic2(f, args...) })
	if badNil {
		c.Check(did && called == 0, "CheckPanic2%s is accepted", desc)
	} else if fails == 0 && passed {
		c.Label("the message starts with reflect")
		c.Check(did && val == value, "CheckPanic2%s: panic %v instead of %v", desc, val, value)
		judge("CheckPanic2")
		val, did = kit.Panics(func() { testutils.CheckPanic(f, args...) })
		c.Check(did && val == value, "CheckPanic%s: panic %v instead of %v", desc, val, value)
		judge("CheckPanic")
	} else {
		c.Check(!did, "CheckPanic2%s: panic %v", desc, val)
		c.Check(didPanic == (fails == 0), "CheckPanic2%s says %v", desc, didPanic)
		c.Check(!didPanic && pv == nil || didPanic && pv == value, "CheckPanic2%s gives %v", desc, pv)
		judge("CheckPanic2")
		c.Check(testutils.CheckPanic(f, args...) == didPanic, "CheckPanic%s differs", desc)
		judge("CheckPanic")
	}
	_, did = kit.Panics(func() { testutils.CheckPanic2(f, append(append([]any{}, args...), 1)...) })
	c.Check(did && called == 0, "CheckPanic2%s with another argument is accepted", desc)
	if len(args) > 0 {
		_, did = kit.Panics(func() { testutils.CheckPanic2(f, args[1:]...) })
		c.Check(did && called == 0, "CheckPanic2%s with too few arguments is accepted", desc)
	}
	sum := 0
	variadic := func(a int, more ...string) {
		sum = 10*a + len(more)
		if len(more) > 0 && more[0] == "panic" {
			panic(value)
		}
	}
	va := []any{kit.Int(c, "a", 0, 9)}
	first := kit.Oneof(c, "first", "", "panic")
	for i, n := 0, kit.Int(c, "more", 0, 3); i < n; i++ {
		va = append(va, kit.Oneof(c, "s", first, "x"))
	}
	bad := len(va) > 1 && va[1] == "panic"
	val, did = kit.Panics(func() { didPanic, pv = testutils.CheckPanic2(variadic, va...) })
	c.Check(sum == 10*va[0].(int)+len(va)-1, "CheckPanic2 of a variadic function with %v", va)
	if bad && passed {
		c.Check(did && val == value, "CheckPanic2 of a variadic function with %v: panic %v", va, val)
	} else {
		c.Check(!did && didPanic == bad && (!bad || pv == value), "CheckPanic2 of a variadic function with %v: %v %v, panic %v", va, didPanic, pv, val)
	}
	sum = -1
	_, did = kit.Panics(func() { testutils.CheckPanic2(variadic, append(append([]any{}, va...), 7)...) })
	c.Check(did && sum == -1, "CheckPanic2 of a variadic function with %v and 7 is accepted", va)
	for _, no := range []any{5, "f", []int{}} {
		_, did = kit.Panics(func() { testutils.CheckPanic2(no) })
		c.Check(did, "CheckPanic2(%v) is accepted", no)
		_, did = kit.Panics(func() { common.CallFunction_FixNil(reflect.ValueOf(no), nil) })
		c.Check(did, "CallFunction_FixNil(%v) is accepted", no)
	}
	cond := kit.Bool(c, "assertion")
	val, did = kit.Panics(func() { testutils.Assert(cond, value) })
	c.Check(did == !cond && (cond || val == value), "Assert(%v, %v): %v %v", cond, value, did, val)
	_, did = kit.Panics(func() { testutils.Assert(cond) })
	c.Check(did == !cond, "Assert(%v): %v", cond, did)
	_, did = kit.Panics(func() { testutils.Assert(true, 1, 2) })
	c.Check(did, "Assert with two values is accepted")
	// methods
	r := recv{kit.Int(c, "receiver", 0, 9)}
	x, y := kit.Int(c, "x", 0, 9), kit.Oneof(c, "y", "a", "b")
	res := testutils.CallMethodByName(&r, "Pointer", x, y)
	c.Check(reflect.DeepEqual(res, []any{x*10 + r.n, y}), "CallMethodByName: %v", res)
	res = testutils.CallMethodByName(r, "Value", x)
	c.Check(reflect.DeepEqual(res, []any{r.n - x}), "CallMethodByName: %v", res)
	n := r.n
	res = testutils.CallMethodByName(&r, "Change", x)
	c.Check(len(res) == 0 && r.n == n+x, "CallMethodByName: %v", res)
	for i, g := range []func(){func() { testutils.CallMethodByName(r, "Pointer", x, y) }, func() { testutils.CallMethodByName(&r, "hidden") }, func() { testutils.CallMethodByName(&r, "None") },
		func() { testutils.CallMethodByName(&r, "Variadic", 1) }, func() { testutils.CallMethodByName(&r, "Value") }, func() { testutils.CallMethodByName(&r, "Value", "s") }, func() { testutils.CallMethodByName(&r, "Value", 1, 2) }} {
		_, did := kit.Panics(g)
		c.Check(did, "CallMethodByName, wrong use %d is accepted", i)
	}
}

type T37 struct{ n int }
type someStringer struct{}

func (someStringer) String() string { return "stringer" }

type recv struct{ n int }

func (r recv) Value(x int) int                        { return r.n - x }
func (r *recv) Pointer(x int, y string) (int, any)    { return x*10 + r.n, y }
func (r *recv) Change(x int)                          { r.n += x }
func (r *recv) Variadic(x ...int) int                 { return len(x) }
func (r recv) hidden()                                {}
func (r recv) Reader(e error, f func() int) io.Reader { return nil }
func (r recv) Both() (*recv, error)                   { return nil, nil }
func (r recv) Take(a any, s []int, c <-chan int)      {}

type emb struct{ recv }
type embP struct{ *recv }
type shadow struct {
	recv
	Value int
}
type face interface {
	Value(x int) int
	Reader(e error, f func() int) io.Reader
}
type faceHolder struct{ face }
type named int

func (n named) Value(x int) int   { return x }
func (n *named) Both() (int, any) { return 0, nil }

type gen[T any] struct{ x T }

func (g gen[T]) Value(x T) T        { return x }
func (g *gen[T]) Take(a []T, b any) {}

var receivers = []struct{ t, holder reflect.Type }{
	{reflect.TypeOf(recv{}), nil}, {reflect.TypeOf(&recv{}), nil}, {reflect.TypeOf(emb{}), nil}, {reflect.TypeOf(&emb{}), nil}, {reflect.TypeOf(embP{}), nil},
	{reflect.TypeOf(shadow{}), nil}, {reflect.TypeOf(&shadow{}), nil}, {reflect.TypeOf((*face)(nil)).Elem(), reflect.TypeOf(faceHolder{})}, {reflect.TypeOf((*face)(nil)), nil},
	{reflect.TypeOf(faceHolder{}), nil}, {reflect.TypeOf(named(0)), nil}, {reflect.TypeOf((*named)(nil)), nil}, {reflect.TypeOf(gen[string]{}), nil}, {reflect.TypeOf(&gen[error]{}), nil},
	{reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(struct{ error }{})}, {reflect.TypeOf(5), nil}, {reflect.TypeOf([]int{}), nil}, {reflect.TypeOf(&big.Int{}), nil},
}

var typePool = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(int64(0)), reflect.TypeOf((*recv)(nil)), reflect.TypeOf(recv{}), reflect.TypeOf((*error)(nil)).Elem(), anyType,
	reflect.TypeOf((*io.Reader)(nil)).Elem(), reflect.TypeOf((*io.ReadWriter)(nil)).Elem(), reflect.TypeOf((*myErr)(nil)), reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf(make(chan int)),
	reflect.TypeOf(make(<-chan int)), reflect.TypeOf(func() int { return 0 }), reflect.TypeOf(named(0)), reflect.TypeOf(ints(nil)), reflect.TypeOf(fn(nil)), reflect.TypeOf((*fmt.Stringer)(nil)).Elem()}

type ints []int
type fn func() int

// canAssign tries it.
func canAssign(from, to reflect.Type) bool {
	_, did := kit.Panics(func() { reflect.New(to).Elem().Set(reflect.New(from).Elem()) })
	return !did
}

func p37method(c *kit.C) {
	r := kit.Oneof(c, "receiver", receivers...)
	name := kit.Oneof(c, "method", "Value", "Pointer", "Change", "Variadic", "hidden", "Reader", "Both", "Take", "Error", "None", "String", "value", "")
	hold := r.t
	if r.holder != nil {
		hold = r.holder
	}
	m := reflect.New(hold).Elem().MethodByName(name) // bound, without receiver
	if r.t == reflect.TypeOf((*face)(nil)) {
		m = reflect.Value{} // pointers to interfaces have no methods
	}
	var in, out []reflect.Type
	if m.IsValid() && kit.Int(c, "near", 0, 7) > 0 { // near the signature
		for i := 0; i < m.Type().NumIn(); i++ {
			in = append(in, m.Type().In(i))
		}
		for i := 0; i < m.Type().NumOut(); i++ {
			out = append(out, m.Type().Out(i))
		}
		change := func(l []reflect.Type) []reflect.Type {
			switch k := kit.Int(c, "change", 0, 6); {
			case k == 0:
				l = append(l, kit.Oneof(c, "type", typePool...))
			case k == 1 && len(l) > 0:
				l = l[:len(l)-1]
			case k <= 4 && len(l) > 0:
				l[kit.Int(c, "index", 0, len(l)-1)] = kit.Oneof(c, "type", typePool...)
			}
			return l
		}
		in, out = change(in), change(out)
	} else {
		for n := kit.Int(c, "inputs", 0, 3); n > 0; n-- {
			in = append(in, kit.Oneof(c, "type", typePool...))
		}
		for n := kit.Int(c, "outputs", 0, 3); n > 0; n-- {
			out = append(out, kit.Oneof(c, "type", typePool...))
		}
	}
	want := m.IsValid() && m.Type().NumIn() == len(in) && m.Type().NumOut() == len(out)
	for i := 0; want && i < len(in); i++ {
		want = canAssign(in[i], m.Type().In(i))
	}
	for i := 0; want && i < len(out); i++ {
		want = canAssign(m.Type().Out(i), out[i])
	}
	c.Case(m.IsValid() && len(in)+len(out) > 0, "%v.%s%v %v", r.t, name, in, out)
	c.LabelIf(want, "exists")
	good, reason := utils.DoesMethodExist(r.t, name, in, out)
	c.Check(good == want, "DoesMethodExist(%v, %s, %v, %v) = %v %s", r.t, name, in, out, good, reason)
	c.Check((reason == "") == good, "DoesMethodExist gives %v with reason %q", good, reason)
}

// ---------------------------------------------------------------- types

// drawType makes a type.
func drawType(c *kit.C, depth int) reflect.Type {
	base := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(T37{}), reflect.TypeOf(named(0)), anyType, reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf(uintptr(0)),
		reflect.TypeOf(ints(nil)), reflect.TypeOf(fn(nil)), reflect.TypeOf(1i), reflect.TypeOf(struct{}{}), reflect.TypeOf(big.Int{})}
	if depth == 0 {
		return kit.Oneof(c, "type", base...)
	}
	e := drawType(c, depth-1)
	switch kit.Int(c, "kind", 0, 6) {
	case 0:
		return reflect.PointerTo(e)
	case 1:
		return reflect.SliceOf(e)
	case 2:
		return reflect.ArrayOf(kit.Int(c, "len", 0, 3), e)
	case 3:
		return reflect.ChanOf(kit.Oneof(c, "dir", reflect.BothDir, reflect.RecvDir), e)
	case 4:
		return reflect.FuncOf([]reflect.Type{e}, nil, false)
	case 5:
		return reflect.MapOf(reflect.TypeOf(""), e)
	default:
		return e
	}
}

func nameOf(t reflect.Type) string {
	switch {
	case t.Name() != "":
		return t.Name()
	case t.Kind() == reflect.Pointer:
		return "*" + nameOf(t.Elem())
	case t.Kind() == reflect.Slice:
		return "[]" + nameOf(t.Elem())
	case t.Kind() == reflect.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), nameOf(t.Elem()))
	}
	return ""
}

func p37types(c *kit.C) {
	t := drawType(c, kit.Int(c, "depth", 0, 3))
	c.Case(t.Name() == "", "%v", t)
	// nil can be stored in a variable of the type if IsNil works
	_, did := kit.Panics(func() { reflect.New(t).Elem().IsNil() })
	c.Check(utils.IsNilable(t) == !did, "IsNilable(%v) = %v", t, did)
	got := utils.GetReflectName(t)
	c.Check(got != "", "%v has no name", t)
	if want := nameOf(t); want != "" && !strings.HasSuffix(want, "*") && !strings.HasSuffix(want, "]") {
		c.Check(got == want, "%v is called %q instead of %q", t, got, want)
	} else {
		c.Check(strings.HasPrefix(got, want), "%v is called %q", t, got)
	}
	c.Check(utils.TypeOfType[int]() == reflect.TypeOf(0) && utils.TypeOfType[error]() == reflect.TypeOf((*error)(nil)).Elem() && utils.TypeOfType[*error]() == reflect.TypeOf((*error)(nil)) && utils.TypeOfType[any]() == anyType && utils.TypeOfType[gen[error]]() == reflect.TypeOf(gen[error]{}), "TypeOfType")
	c.Check(utils.NameOfType[error]() == "error" && utils.NameOfType[*T37]() == "*T37" && utils.NameOfType[[][3]named]() == "[][3]named", "NameOfType")
	c.Check(utils.IsTypeNilable[error]() && utils.IsTypeNilable[any]() && utils.IsTypeNilable[unsafe.Pointer]() && utils.IsTypeNilable[fn]() && !utils.IsTypeNilable[[1]*int]() && !utils.IsTypeNilable[uintptr]() && !utils.IsTypeNilable[struct{ p *int }](), "IsTypeNilable")
	type inc struct {
		utils.MakeIncomparable
		n int64
	}
	c.Check(!reflect.TypeOf(inc{}).Comparable() && reflect.TypeOf(inc{}).Size() == 8, "MakeIncomparable")
}

// reflect does not embed types that have methods
type bare []int
type bareN uint8

// drawStruct makes a struct type with embedded structs.
func drawStruct(c *kit.C, depth int) reflect.Type {
	var fields []reflect.StructField
	used := map[string]bool{}
	for n := kit.Int(c, "fields", 0, 4); n > 0; n-- {
		f := reflect.StructField{Name: kit.Oneof(c, "name", "A", "B", "C", "D", "E", "F")}
		if used[f.Name] {
			continue
		}
		used[f.Name] = true
		switch kit.Int(c, "field", 0, 6) {
		case 0, 1:
			f.Type = reflect.TypeOf(0)
		case 2:
			f.Type, f.Anonymous = kit.Oneof(c, "type", reflect.TypeOf(bare(nil)), reflect.TypeOf(new(int)), anyType, reflect.TypeOf(bareN(0))), true
		case 3:
			if depth == 0 {
				continue
			}
			f.Type, f.Anonymous = reflect.PointerTo(drawStruct(c, depth-1)), true
		case 4:
			f.Type = reflect.TypeOf(T37{})
		default:
			if depth == 0 {
				f.Type = reflect.TypeOf("")
				break
			}
			f.Type, f.Anonymous = drawStruct(c, depth-1), kit.Int(c, "embedded", 0, 3) > 0
		}
		fields = append(fields, f)
	}
	return reflect.StructOf(fields)
}

type cyc struct {
	*cyc
	X int
}
type deep1 struct {
	deep2
	A int
	b string
}
type deep2 struct {
	named
	*deep3
	recv
	A int
}
type deep3 struct {
	deep4
	Q int
}
type deep4 struct{ P, n int }
type deep5 struct {
	deep3
	deep1
	fmt.Stringer
	big.Int
}

func p37fields(c *kit.C) {
	var t reflect.Type
	if kit.Int(c, "fixed", 0, 5) == 0 {
		t = kit.Oneof(c, "type", reflect.TypeOf(cyc{}), reflect.TypeOf(deep1{}), reflect.TypeOf(deep5{}), reflect.TypeOf(wide{}), reflect.TypeOf(struct{}{}))
	} else {
		t = drawStruct(c, kit.Int(c, "depth", 0, 3))
	}
	type want struct {
		index []int
		f     reflect.StructField
	}
	var l []want
	ptr := false
	deep := 0
	var walk func(t reflect.Type, path []int)
	walk = func(t reflect.Type, path []int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			p := append(append([]int{}, path...), i)
			l = append(l, want{p, f})
			deep = max(deep, len(p))
			if f.Anonymous && f.Type.Kind() == reflect.Struct {
				walk(f.Type, p)
			}
			ptr = ptr || f.Anonymous && f.Type.Kind() == reflect.Pointer && f.Type.Elem().Kind() == reflect.Struct
		}
	}
	walk(t, nil)
	c.Case(deep >= 2, "%v", t)
	got, gotPtr := utils.AllFields(t)
	c.Check(gotPtr == ptr, "AllFields(%v) says %v about embedded pointers", t, gotPtr)
	c.Check(got != nil && len(got) == len(l), "AllFields(%v) gives %d fields instead of %d", t, len(got), len(l))
	for i, g := range got {
		w := l[i]
		c.Check(reflect.DeepEqual(g.Index, w.index), "AllFields(%v): field %d is at %v instead of %v", t, i, g.Index, w.index)
		c.Check(g.Name == w.f.Name && g.Type == w.f.Type && g.Anonymous == w.f.Anonymous && g.PkgPath == w.f.PkgPath && g.Tag == w.f.Tag, "AllFields(%v): field %d is %v", t, i, g.Name)
		c.Check(t.FieldByIndex(g.Index).Type == g.Type, "AllFields(%v): index of field %d", t, i)
	}
	for i := range got { // the indices are separate
		_ = append(got[i].Index, 99)
		for j := range got[i].Index {
			got[i].Index[j] = -1
		}
		for k := i + 1; k < len(got); k++ {
			c.Check(reflect.DeepEqual(got[k].Index, l[k].index), "AllFields(%v): fields %d and %d share their indices", t, i, k)
		}
	}
	for _, no := range []reflect.Type{reflect.TypeOf(5), reflect.TypeOf(&wide{}), reflect.TypeOf([]wide{})} {
		_, did := kit.Panics(func() { utils.AllFields(no) })
		c.Check(did, "AllFields(%v) is accepted", no)
	}
}

func TestP37(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "integers", Quick: 16000, Fn: p37ints},
		kit.Sub{Name: "lists", Quick: 24000, Fn: p37lists},
		kit.Sub{Name: "maps", Quick: 8000, Fn: p37maps},
		kit.Sub{Name: "alias", Quick: 8000, Fn: p37alias},
		kit.Sub{Name: "bind", Quick: 1000, Fn: p37bind},
		kit.Sub{Name: "calls", Quick: 8000, Fn: p37call},
		kit.Sub{Name: "methods", Quick: 16000, Fn: p37method},
		kit.Sub{Name: "clone", Quick: 800, Fn: p37clone},
		kit.Sub{Name: "types", Quick: 8000, Fn: p37types},
		kit.Sub{Name: "fields", Quick: 8000, Fn: p37fields})
}
