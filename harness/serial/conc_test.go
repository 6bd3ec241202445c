//go:build go1.23

package serial

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
	rc "github.com/GottfriedHerold/Bandersnatch/zz_verif/refcurve"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/reffe"
	m "github.com/GottfriedHerold/Bandersnatch/zz_verif/refmath"
)

// ins is a step of a program of a goroutine; what the numbers mean is up to the interpreter.
type ins struct {
	op, a, b, d int
	v           uint64
}

func (i ins) String() string { return fmt.Sprintf("%d(%d,%d,%d,%x)", i.op, i.a, i.b, i.d, i.v) }

func programs(c *kit.C, ops, steps int) [][]ins {
	p := make([][]ins, kit.Int(c, "goroutines", 2, 6))
	for g := range p {
		if g > 0 && kit.Int(c, "same", 0, 3) == 0 {
			p[g] = p[g-1]
			continue
		}
		for n := kit.Int(c, "steps", 1, steps); n > 0; n-- {
			p[g] = append(p[g], ins{kit.Int(c, "op", 0, ops-1), kit.Int(c, "a", 0, 7), kit.Int(c, "b", 0, 7), kit.Int(c, "d", 0, 7), kit.U64(c, "v")})
		}
	}
	return p
}

func (i ins) do(f func(ins) string) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprintf("panic: %v", e)
		}
	}()
	return f(i)
}

// atOnce runs the programs in as many goroutines and then, on another copy of the state, one after the other.
// make gives a copy of the state, as interpreters for the goroutines; what is shared may be shared by both, too.
func atOnce(c *kit.C, desc string, p [][]ins, state func() func(g int) func(ins) string) {
	got := make([][]string, len(p))
	var start, done sync.WaitGroup
	st := state()
	start.Add(1)
	for g := range p {
		f := st(g)
		done.Add(1)
		go func() {
			defer done.Done()
			start.Wait()
			for i, x := range p[g] {
				got[g] = append(got[g], x.do(f))
				if (x.v>>uint(i%50))&7 == 0 {
					runtime.Gosched()
				}
			}
		}()
	}
	start.Done()
	over := make(chan bool)
	go func() { done.Wait(); close(over) }()
	select {
	case <-over:
	case <-time.After(100 * time.Second):
		c.Fatalf("%s: blocked", desc)
	}
	st = state()
	for g := range p {
		f := st(g)
		for i, x := range p[g] {
			want := x.do(f)
			c.Check(got[g][i] == want, "%s: goroutine %d, step %d, %v gives\n%s\ninstead of\n%s", desc, g, i, x, got[g][i], want)
		}
	}
}

// ---------------------------------------------------------------- field elements, integers, exponents

func feOrder(big bool) (e common.FieldElementEndianness) {
	e.SetEndianness(endian[big][0])
	return
}

func concField(c *kit.C) {
	const R = 6
	p := programs(c, 30, 12)
	var vals [8]*Int
	var elems [8]reffe.FE
	for i := range vals {
		elems[i], vals[i] = reffe.Draw(c)
	}
	shared := elems
	for i := range shared {
		shared[i].Normalize()
	}
	desc := fmt.Sprintf("field elements %x, %v", vals, p)
	c.Case(len(p) > 2, "%s", desc)
	atOnce(c, desc, p, func() func(g int) func(ins) string {
		return func(g int) func(ins) string {
			own := elems
			for i := range own {
				own[i] = elems[(i+g)%len(own)]
			}
			var ex [4]exponents.Exponent
			for i := range ex {
				ex[i].SetBigInt(vals[i])
			}
			return func(x ins) string {
				z, a := &own[x.d], &own[x.a]
				var b *fe.FieldElement = &shared[x.b] // read by all
				switch x.op {
				case 0:
					z.Add(a, b)
				case 1:
					z.Sub(b, a)
				case 2:
					z.Mul(a, b)
				case 3:
					z.Square(b)
				case 4:
					if !a.IsZero() {
						z.Divide(b, a)
					}
				case 5:
					if !b.IsZero() {
						z.Inv(b)
					}
				case 6:
					r := *a
					ok := r.SquareRoot(b) // which of the two is not said
					r.SquareEq()
					return fmt.Sprint(ok, r)
				case 7:
					return fmt.Sprint(b.Jacobi(), a.Jacobi())
				case 8:
					return fmt.Sprint(b.Sign(), a.Sign())
				case 9:
					var e fe.Uint256
					e.SetUint64(x.v)
					z.Exp(b, &e)
				case 10:
					l := []*fe.FieldElement{a, &own[(x.a+1)%8], &own[(x.a+3)%8]}
					idx := fe.MultiInvertEqSkipZeros(l...)
					return fmt.Sprint(idx)
				case 11:
					l := own
					err := fe.MultiInvertEqSlice(l[:])
					return fmt.Sprint(err, l)
				case 12:
					z.MultiplyMany(a, b, z)
				case 13:
					z.SummationMany(a, b, b)
				case 14:
					z.SummationSlice(shared[:])
				case 15:
					z.MultiplySlice(shared[:x.b])
				case 16:
					z.SetRandomUnsafe(rand.New(rand.NewSource(int64(x.v))))
				case 17:
					z.SetBigInt(new(big.Int).Lsh(big.NewInt(int64(x.v)), 200))
				case 18:
					return fmt.Sprintf("%x %v %s", b.ToBigInt(), b, a)
				case 19:
					n, e := b.ToUint64()
					k, e2 := b.ToInt64()
					return fmt.Sprint(n, k, e, e2)
				case 20:
					var buf bytes.Buffer
					n, err := b.Serialize(&buf, feOrder(x.v&1 == 0))
					n2, err2 := a.SerializeWithPrefix(&buf, common.MakeBitHeader(1, 3), feOrder(x.v&1 == 0))
					out := fmt.Sprintf("%d %v %d %v %x", n, err, n2, err2, buf.Bytes())
					k, err3 := z.Deserialize(&buf, feOrder(x.v&2 == 0))
					return fmt.Sprint(out, k, err3, z)
				case 21:
					k, err := z.Deserialize(strings.NewReader(fmt.Sprint(x.v)), feOrder(true))
					return fmt.Sprint(k, err)
				case 22:
					e, f := a.CmpAbs(b)
					return fmt.Sprint(e, f, a.IsEqual(b), b.IsEqual(a), b.IsOne(), b.IsZero())
				case 23:
					var u, w fe.Uint256
					b.ToUint256(&u)
					w.ModularExponentiation_fa(&u, &fe.Uint256{x.v})
					ok := w.ModularInverse_a_NAIVEHAC(&u)
					return fmt.Sprint(u.ToBigInt(), w.ToBigInt(), ok)
				case 24:
					return fmt.Sprint(exponents.GLV_representation(&ex[x.a%4]))
				case 25:
					ex[x.d%4].Mul(&ex[x.a%4], &ex[x.b%4])
					ex[x.d%4].Neg(&ex[x.d%4])
					return fmt.Sprint(ex[x.d%4].ToBigInt_Full(), ex[x.d%4].ToBigInt_Subgroup(), ex[x.d%4])
				case 26:
					u := fe.BigIntToUInt256(vals[x.b])
					return fmt.Sprint(u.SlidingWindowDecomposition(uint8(x.v%10 + 1)))
				case 27:
					z.MulInt64(b, int64(x.v))
					z.AddUint64(z, x.v)
				case 28:
					var buf [32]byte
					b.ToBytes(buf[:])
					z.SetBytes(buf[:])
				default:
					var q fe.FieldElement
					v, did := kit.Panics(func() { q.Inv(&fe.FieldElement{}) })
					return fmt.Sprint(v, did)
				}
				return z.String()
			}
		}
	})
}

// ---------------------------------------------------------------- points

func state(p any) string {
	pt, err := rc.Decode(p)
	if err != nil {
		return err.Error()
	}
	if pt.Inf() {
		return pt.String()
	}
	x, y := pt.Affine()
	return fmt.Sprintf("%x,%x", x, y)
}

func concCurve(c *kit.C) {
	const R = 8
	p := programs(c, 18, 8)
	var pts [R]rc.Known
	var made [R]CP
	for i := range pts {
		k := rc.Kind(i % int(rc.NKinds))
		pts[i] = rc.DrawFor(c, k)
		made[i] = rc.Make(c, k, pts[i].Pt)
	}
	desc := fmt.Sprintf("points %v, %v", pts, p)
	c.Case(len(p) > 2, "%s", desc)
	atOnce(c, desc, p, func() func(g int) func(ins) string {
		return func(g int) func(ins) string {
			var own [R]CP
			for i := range own {
				own[i] = rc.Copy(made[i])
			}
			return func(x ins) string {
				z, a, b := own[x.d], own[x.a], own[x.b]
				switch x.op {
				case 0, 1:
					z.Add(a, b)
				case 2:
					z.Sub(a, b)
				case 3:
					z.Double(a)
				case 4:
					z.Neg(a)
				case 5:
					z.Endo(a)
				case 6:
					z.AddEq(b)
				case 7:
					z.SetFrom(a)
				case 8:
					own[x.d] = a.Clone()
				case 9:
					return fmt.Sprint(a.IsEqual(b), a.IsInSubgroup(), a.IsNeutralElement(), a.IsAtInfinity(), a.IsNaP(), validate(a))
				case 10:
					return fmt.Sprint(z.SetFromSubgroupPoint(a, untrusted), state(z))
				case 11:
					if x.v&1 == 0 {
						z.SetNeutral()
					} else if w, ok := z.(interface{ SetAffineTwoTorsion() }); ok {
						w.SetAffineTwoTorsion()
					}
				case 12:
					return fmt.Sprint(curvePoints.MapToFieldElement(a))
				case 13:
					fx, fy := a.XY_affine()
					q, err := curvePoints.CurvePointFromXYAffine_full(&fx, &fy, untrusted)
					r, err2 := curvePoints.CurvePointFromXAndSignY_subgroup(&fx, fy.Sign(), untrusted)
					s, err3 := curvePoints.CurvePointFromYAndSignX_full(&fy, 2-3*int(x.v&1), untrusted)
					fx.AddInt64(&fx, 1)
					_, err4 := curvePoints.CurvePointFromXYAffine_full(&fx, &fy, untrusted)
					return fmt.Sprint(state(&q), err, err2, err2 == nil && state(&r) != "", err3, err3 == nil && state(&s) != "", err4)
				case 14:
					if w, ok := z.(curvePoints.NormalizerForZ); ok {
						w.NormalizeForZ()
					}
				case 15:
					var l curvePoints.CurvePointSlice_xtw_full = make([]curvePoints.Point_xtw_full, 3)
					for i := range l {
						l[i].SetFrom(own[(x.a+i)%R])
					}
					return fmt.Sprint(l.BatchNormalizeForZ(), state(&l[0]), state(&l[2]))
				case 16:
					return fmt.Sprint(a.String() != "", a.CanRepresentInfinity())
				default:
					if w, ok := z.(interface{ SampleRandomUnsafe(*rand.Rand) }); ok {
						w.SampleRandomUnsafe(rand.New(rand.NewSource(int64(x.v))))
					}
				}
				return state(z)
			}
		}
	})
}

func validate(p any) bool { return p.(interface{ Validate() bool }).Validate() }

// ---------------------------------------------------------------- serialisers

func concSerial(c *kit.C) {
	const R = 4
	p := programs(c, 14, 8)
	var sers []Ser
	var fs []*format
	for n := kit.Int(c, "serialisers", 1, 3); n > 0; n-- {
		s, f := serializer(c, 3)
		sers, fs = append(sers, s), append(fs, f)
	}
	des := sers[0].AsDeserializer()
	var pts [R]rc.Known
	var made [R]CP
	for i := range pts {
		k := rc.Kind(kit.Int(c, "kind", 0, int(rc.NKinds)-1))
		pts[i] = rc.DrawSub(c)
		made[i] = rc.Make(c, k, pts[i].Pt)
	}
	_, alt := bitHeader(c)
	desc := fmt.Sprintf("serialisers %v, %v, %v", fs, pts, p)
	c.Case(len(p) > 2, "%s", desc)
	atOnce(c, desc, p, func() func(g int) func(ins) string {
		return func(g int) func(ins) string {
			var own [R]CP
			for i := range own {
				own[i] = rc.Copy(made[i])
			}
			var buf bytes.Buffer
			return func(x ins) string {
				s := sers[x.b%len(sers)]
				a, z := own[x.a%R], own[x.d%R]
				switch x.op {
				case 0, 1:
					n, err := s.SerializeCurvePoint(&buf, a)
					return fmt.Sprintf("%d %v %x", n, err, buf.Bytes())
				case 2:
					n, err := s.DeserializeCurvePoint(&buf, untrusted, z)
					return fmt.Sprintf("%d %v %s", n, err, state(z))
				case 3:
					n, err := des.DeserializeCurvePoint(&buf, untrusted, z)
					return fmt.Sprintf("%d %v %s", n, err, state(z))
				case 4:
					n, err := s.SerializeCurvePoints(&buf, curvePoints.AsCurvePointPtrSlice(own[:x.d%(R+1)]))
					return fmt.Sprintf("%d %v %x", n, err, buf.Bytes())
				case 5:
					n, err := s.DeserializeCurvePoints(&buf, untrusted, curvePoints.AsCurvePointPtrSlice(own[:x.d%(R+1)]))
					return fmt.Sprintf("%d %v %v", n, err, state(own[0]))
				case 6:
					n, err := s.(sliceSerializer).SerializeSlice(&buf, curvePoints.AsCurvePointPtrSlice(own[:x.d%(R+1)]))
					return fmt.Sprintf("%d %v %x", n, err, buf.Bytes())
				case 7:
					h := newHolder(rc.TS, 5)
					_, n, err := s.DeserializeSlice(&buf, untrusted, h.reuse(0, 5))
					return fmt.Sprintf("%d %v %v", n, err, state(h.at(0)))
				case 8:
					var r strings.Builder
					for _, name := range s.RecognizedParameters() {
						fmt.Fprint(&r, name, "=", s.GetParameter(name), s.HasParameter(name), ";")
					}
					return r.String()
				case 9: // derive and use
					t := s.WithEndianness(endian[x.v&1 == 0][0]).WithParameter("SinglePointHeader", []byte(fmt.Sprint(x.v))).WithParameter("GlobalSliceFooter", "x")
					n, err := t.SerializeCurvePoint(&buf, a)
					l, e := t.SliceOutputLength(int32(x.d))
					return fmt.Sprintf("%d %v %x %v %d %v", n, err, buf.Bytes(), t.GetParameter("Endianness"), l, e)
				case 10:
					t := s.Clone()
					if s.HasParameter("BitHeader") {
						t = t.WithParameter("BitHeader", alt)
					}
					l, e := s.SliceOutputLength(int32(x.d))
					return fmt.Sprint(s.GetFieldElementEndianness(), s.OutputLength(), l, e, t.OutputLength())
				case 11:
					n, k, err := ps.DeserializeCurvePoints_Bounded(s, &buf, untrusted, curvePoints.AsCurvePointPtrSlice(own[:x.d%(R+1)]))
					return fmt.Sprintf("%d %d %v %v", n, k, err, state(own[0]))
				case 12:
					n, err := ps.DeserializeCurvePoints_Variadic(s, &buf, untrusted, own[:x.d%(R+1)]...)
					return fmt.Sprintf("%d %v %v", n, err, state(own[0]))
				default:
					n, err := s.SerializeCurvePoints(&buf, curvePoints.GenericPointSlice(own[:x.d%(R+1)]))
					s := fmt.Sprintf("%d %v %x", n, err, buf.Bytes())
					buf.Reset()
					return s
				}
			}
		}
	})
}

// ---------------------------------------------------------------- errors

type (
	dataA struct {
		A int
		B string
	}
	dataB struct {
		dataA
		C any
	}
)

var exported = []error{be.ErrXNotOnCurve, fe.ErrPrefixDoesNotFit, fe.ErrDivisionByZero, io.EOF}

func concErrors(c *kit.C) {
	p := programs(c, 22, 10)
	msgs := []string{"plain", "a is %v{A}, b is %q{B}", "%!M>0{in}%w", "$v{A} and %w", "%!m=0{none}%!m>0{some %v{C}}%!M>0{A}", "%w %x{A}", "broken %v{", "%v{Missing}"}
	n := kit.Int(c, "errors", 1, 6)
	type plan struct{ how, base, msg, v int }
	var plans []plan
	for i := 0; i < n; i++ {
		plans = append(plans, plan{kit.Int(c, "how", 0, 8), kit.Int(c, "base", -1, i-1), kit.Int(c, "msg", 0, len(msgs)-1), kit.Int(c, "v", 0, 9)})
	}
	desc := fmt.Sprintf("errors %v, %v", plans, p)
	c.Case(n > 1 && len(p) > 2, "%s", desc)
	build := func() (l []error) {
		for i, x := range plans {
			var base error = exported[x.v%len(exported)]
			if x.base >= 0 {
				base = l[x.base]
			}
			var e error
			switch x.how {
			case 0, 1:
				e = ewd.NewErrorWithData_any_params(base, msgs[x.msg], ewd.PreferPreviousData, "A", x.v, "C", []int{x.v})
			case 2:
				e = ewd.NewErrorWithData_struct(base, msgs[x.msg], &dataA{x.v, "b"}, ewd.ReplacePreviousData)
			case 3:
				e = ewd.NewErrorWithData_struct(base, msgs[x.msg], &dataB{dataA{x.v, "b"}, nil}, ewd.ReplacePreviousData)
			case 4:
				e = ewd.AddDataToError_any_params(base, ewd.ReplacePreviousData, "B", x.v, "D", nil)
			case 5:
				e = ewd.DeleteParameterFromError_any(base, "A")
			case 6:
				e = fmt.Errorf("wrap %d: %w", i, base)
			case 7:
				if b, ok := base.(ewd.IncomparableMaker); ok {
					e = ewd.MakeErrorIncomparable(b)
					break
				}
				e = errors.Join(base, io.EOF)
			default:
				e = ewd.NewErrorWithData_any_map(base, msgs[x.msg], ewd.PreferPreviousData, nil)
			}
			l = append(l, e)
		}
		return
	}
	var l []error
	if v, did := kit.Panics(func() { l = build() }); did {
		c.Skip(fmt.Sprint(v))
	}
	show := func(m map[string]any) string {
		var k []string
		for name, v := range m {
			k = append(k, fmt.Sprintf("%s=%v", name, v))
			m[name] = "scribbled"
		}
		sort.Strings(k)
		return fmt.Sprint(k)
	}
	fresh := l // the errors that the goroutines share
	atOnce(c, desc, p, func() func(g int) func(ins) string {
		l := fresh
		fresh, _ = build(), 0 // other errors to compare with
		return func(g int) func(ins) string {
			return func(x ins) string {
				i, j := x.a%n, x.b%n
				e := l[i]
				any, isAny := e.(ewd.ErrorWithData_any)
				switch x.op {
				case 0, 1, 2:
					return e.Error()
				case 3:
					return show(ewd.GetData_map(e))
				case 4:
					v, ok := ewd.GetParameter(e, "A")
					return fmt.Sprint(v, ok, ewd.HasParameter(e, "B"))
				case 5:
					return fmt.Sprint(errors.Is(e, l[j]), errors.Is(e, exported[x.d%len(exported)]))
				case 6:
					if isAny {
						return fmt.Sprint(any.ValidateSyntax(), any.ValidateError_Base(), any.ValidateError_Final())
					}
				case 7:
					if isAny {
						return fmt.Sprint(any.ValidateError_Params(ewd.ParamMap{"A": x.v}), any.Error_interpolate(ewd.ParamMap{"A": x.v}))
					}
				case 8:
					return ewd.AddDataToError_any_params(e, ewd.ReplacePreviousData, "A", x.v).Error()
				case 9:
					f := ewd.NewErrorWithData_any_params(e, msgs[x.d], ewd.PreferPreviousData, "Z", x.v)
					return fmt.Sprint(f.Error(), f.ValidateError_Final(), show(f.GetData_map()))
				case 10:
					f := ewd.DeleteParameterFromError_any(e, "A")
					if f == nil {
						return "nil"
					}
					return fmt.Sprint(f.Error(), show(f.GetData_map()))
				case 11:
					f, ok := ewd.AsErrorWithData[dataA](e, ewd.MissingDataAsZero)
					if ok {
						return fmt.Sprint(ok, f.Error(), f.GetData_struct())
					}
					return fmt.Sprint(ok)
				case 12:
					return fmt.Sprint(ewd.GetData_struct[dataA](e, ewd.MissingDataAsZero))
				case 13:
					return fmt.Sprint(ewd.HasData[dataB](e), ewd.HasData[dataA](e))
				case 14:
					return ewd.UnboxError(e).Error()
				case 15:
					if b, ok := e.(ewd.IncomparableMaker); ok {
						f := ewd.MakeErrorIncomparable(b)
						return fmt.Sprint(f.Error(), errors.Is(f, f), errors.Is(f, e))
					}
				case 16:
					f := e
					errorTransform.UnexpectEOF(&f)
					return fmt.Sprint(f, errors.Is(f, io.ErrUnexpectedEOF), errors.Is(e, io.ErrUnexpectedEOF))
				case 17:
					f := ewd.NewErrorWithData_struct(e, msgs[x.d], &dataB{dataA{int(x.v % 9), "y"}, "z"}, ewd.ReplacePreviousData)
					return fmt.Sprint(f.Error(), f.GetData_struct())
				case 18:
					var t ewd.ErrorWithData_any
					if errors.As(e, &t) {
						return t.Error()
					}
				case 19:
					f := ewd.AddDataToError_struct(e, &dataA{1, "q"}, ewd.ReplacePreviousData)
					return fmt.Sprint(f.Error(), f.GetData_struct())
				case 20:
					f := fmt.Errorf("%w and %w", e, l[j])
					return fmt.Sprint(f, errors.Is(f, l[j]), show(ewd.GetData_map(f)))
				default:
					return fmt.Sprintf("%v %s %+v", e, e, e)
				}
				return "-"
			}
		}
	})
}

// ---------------------------------------------------------------- struct types seen for the first time

type box1[A, B any] struct {
	Data  A
	Extra B
}
type box2[A, B any] struct {
	box1[B, A]
	Data A
}

type typeOps struct {
	name string
	do   func(how int) string
}

var unseen []typeOps

func addType[T any]() {
	var zero T
	unseen = append(unseen, typeOps{fmt.Sprintf("%T", zero), func(how int) string {
		base := ewd.NewErrorWithData_any_params(io.EOF, "m", ewd.PreferPreviousData, "Other", how)
		switch how % 6 {
		case 0:
			return fmt.Sprint(ewd.StructSuitableForErrorsWithData[T]())
		case 1:
			e := ewd.NewErrorWithData_struct(io.EOF, "m %v{Data}", new(T))
			return fmt.Sprint(e.Error(), e.GetData_struct())
		case 2:
			return fmt.Sprint(ewd.HasData[T](base))
		case 3:
			return fmt.Sprint(ewd.GetData_struct[T](base, ewd.MissingDataAsZero))
		case 4:
			_, did := kit.Panics(func() { ewd.CheckParametersForStruct_all[T]([]string{"Data", "Extra"}) })
			return fmt.Sprint(did)
		default:
			e, ok := ewd.AsErrorWithData[T](base, ewd.MissingDataAsZero)
			return fmt.Sprint(ok, e != nil && e.HasParameter("Data"))
		}
	}})
}

func addRow[A any]() {
	addCell[A, int]()
	addCell[A, string]()
	addCell[A, any]()
	addCell[A, error]()
	addCell[A, []byte]()
	addCell[A, *int]()
	addCell[A, bool]()
	addCell[A, float64]()
	addCell[A, map[string]int]()
	addCell[A, func()]()
}

func addCell[A, B any]() { addType[box1[A, B]](); addType[box2[A, B]]() }

func init() {
	addRow[int]()
	addRow[string]()
	addRow[any]()
	addRow[error]()
	addRow[[]byte]()
	addRow[*int]()
	addRow[bool]()
	addRow[float64]()
	addRow[map[string]int]()
	addRow[func()]()
}

var nextType int

func concTypes(c *kit.C) {
	p := programs(c, 6, 4)
	var l [4]typeOps
	for i := range l {
		if nextType < len(unseen) && i < 2 {
			l[i] = unseen[nextType]
			nextType++
			c.Label("unseen")
		} else {
			l[i] = unseen[kit.Int(c, "type", 0, len(unseen)-1)]
		}
	}
	desc := fmt.Sprintf("struct types %v, %v", []string{l[0].name, l[1].name, l[2].name, l[3].name}, p)
	c.Case(nextType < len(unseen), "%s", desc)
	atOnce(c, desc, p, func() func(g int) func(ins) string {
		return func(g int) func(ins) string {
			return func(x ins) string { return l[x.a%len(l)].do(x.op) }
		}
	})
}

// ---------------------------------------------------------------- handlers

// concHandler exchanges the handler for invalid points while it is called.
func concHandler(c *kit.C) {
	type set struct{ put, was int }
	plan := make([][]int, kit.Int(c, "goroutines", 2, 6)) // 0: exchange, 1: call, 2: read
	id, calls := 0, 0
	for g := range plan {
		for n := kit.Int(c, "steps", 1, 10); n > 0; n-- {
			plan[g] = append(plan[g], kit.Int(c, "op", 0, 2))
		}
	}
	c.Case(len(plan) > 2, "%v", plan)
	var count [200]struct {
		sync.Mutex
		n int
	}
	asked := -1 // what a handler is asked for by ask
	var mu sync.Mutex
	handler := func(i int) curvePoints.NaPErrorHandler {
		return func(reason string, comparison bool, pts ...curvePoints.CurvePointPtrInterfaceBaseRead) bool {
			if reason == "who" {
				asked = i
				return true
			}
			count[i].Lock()
			count[i].n++
			count[i].Unlock()
			return false
		}
	}
	who := func(h curvePoints.NaPErrorHandler) int { // mu is held
		mu.Lock()
		defer mu.Unlock()
		asked = -1
		h("who", false)
		return asked
	}
	before := curvePoints.SetNaPErrorHandler(handler(0))
	defer curvePoints.SetNaPErrorHandler(before)
	var start, done sync.WaitGroup
	start.Add(1)
	sets := make([][]set, len(plan))
	seen := make([][]int, len(plan))
	for g, ops := range plan {
		var ids []int
		for _, o := range ops {
			if o == 0 {
				id++
			}
			if o == 1 {
				calls++
			}
			ids = append(ids, id)
		}
		done.Add(1)
		go func() {
			defer done.Done()
			var nap curvePoints.Point_xtw_full
			start.Wait()
			for i, o := range ops {
				switch o {
				case 0:
					old := curvePoints.SetNaPErrorHandler(handler(ids[i]))
					sets[g] = append(sets[g], set{ids[i], who(old)})
				case 1:
					nap.IsNeutralElement()
				default:
					seen[g] = append(seen[g], who(curvePoints.GetNaPErrorHandler()))
				}
			}
		}()
	}
	start.Done()
	done.Wait()
	last := who(curvePoints.GetNaPErrorHandler())
	// the exchanges are in some order: every handler but the last was taken out exactly once
	out := map[int]int{last: 1}
	after := map[int]int{}
	for g := range sets {
		for _, s := range sets[g] {
			out[s.was]++
			after[s.was] = s.put
		}
	}
	for i := 0; i <= id; i++ {
		c.Check(out[i] == 1, "%v: handler %d was taken out %d times; exchanges %v, last %d", plan, i, out[i], sets, last)
	}
	c.Check(len(out) == id+1, "%v: exchanges %v, last %d", plan, sets, last)
	at := map[int]int{}
	i := 0
	for n := 0; n <= id; n++ {
		at[i] = n
		i = after[i]
	}
	for g := range sets {
		prev := -1
		for _, s := range sets[g] {
			c.Check(at[s.put] > prev && at[s.put] == at[s.was]+1, "%v: exchanges %v are in no order", plan, sets)
			prev = at[s.put]
		}
		for _, s := range seen[g] {
			c.Check(s >= 0 && s <= id, "%v: an unknown handler was read", plan)
		}
	}
	total := 0
	for i := range count {
		total += count[i].n
	}
	c.Check(total == calls, "%v: %d calls reached a handler instead of %d", plan, total, calls)
}

func TestP39(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "field", Quick: 1200, Fn: concField},
		kit.Sub{Name: "points", Quick: 600, Fn: concCurve},
		kit.Sub{Name: "serialisers", Quick: 1000, Fn: concSerial},
		kit.Sub{Name: "errors", Quick: 3000, Fn: concErrors},
		kit.Sub{Name: "types", Quick: 1600, Fn: concTypes},
		kit.Sub{Name: "methods", Quick: 2000, Fn: concMethods},
		kit.Sub{Name: "handler", Quick: 3000, Fn: concHandler},
	)
}

var _ = m.P
var _ ps.CurvePointDeserializer
