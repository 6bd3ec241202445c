//go:build go1.23

package errs

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"testing"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

// node is an error and what is known about it.
type node struct {
	err   error
	inner error // the error without box
	data  Map
	reach map[int]bool // the identities that are found along the chain
	id    int
	text  string
	plain bool // boxed without preserving the interface
	self  bool // its own identity is among reach
	s     *sops
	own   func() any
}

type hist struct {
	c     *kit.C
	nodes []*node
	log   string
	nonew bool
}

func (h *hist) add(n *node) *node {
	n.id = len(h.nodes)
	if n.reach == nil {
		n.reach = map[int]bool{}
	}
	if n.inner == nil {
		n.inner = n.err
	}
	if n.self {
		n.reach[n.id] = true
	}
	n.text = n.err.Error()
	h.nodes = append(h.nodes, n)
	return n
}

func (h *hist) pick(label string) *node {
	if len(h.nodes) == 0 || kit.Int(h.c, "nil", 0, 7) == 0 {
		return nil
	}
	return h.nodes[kit.Int(h.c, label, 0, len(h.nodes)-1)]
}

func (h *hist) step(f string, args ...any) { h.log += fmt.Sprintf("\n  "+f, args...) }

var keyPool = []string{"A", "B", "C", "D", "X", "Ä1", "Foo", "lower", "", "!m", "with space", "A{"}

func drawData(c *kit.C, s *sops) Map {
	m := Map{}
	n := kit.Size(c, "parameters", 0, 3, 40)
	for many := n > 3; n > 0; n-- {
		if many {
			m[fmt.Sprintf("P%d", n)] = anyValue(c)
		} else {
			m[kit.Oneof(c, "key", keyPool...)] = anyValue(c)
		}
	}
	if s != nil {
		for _, f := range s.fields {
			switch kit.Int(c, "give", 0, 7) {
			case 0:
				m[f.name] = anyValue(c)
			case 1:
			case 2:
				m[f.name] = nil
			default:
				m[f.name] = valueFor(c, f.typ).Interface()
			}
		}
	}
	return m
}

// pairsOf spells the map as arguments, with repeated names (the last one counts).
func pairsOf(c *kit.C, m Map) (kv []any) {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		if kit.Int(c, "repeat", 0, 5) == 0 {
			kv = append(kv, k, anyValue(c))
		}
	}
	for _, k := range keys {
		kv = append(kv, k, m[k])
	}
	return
}

func sortStrings(l []string) {
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// created judges the result of making an error from base.
func (h *hist) created(what string, r result, base *node, want Map, wantOK bool, s *sops) {
	c := h.c
	if !wantOK {
		c.Check(r.died, "%s returned instead of refusing\n%s", what, h.log)
		c.Label("refused")
		return
	}
	c.Check(!r.died, "%s panicked: %v\n%s", what, r.val, h.log)
	c.Check(r.err != nil, "%s returned nil\n%s", what, h.log)
	n := &node{err: r.err, data: want, self: true, s: s, own: r.own, reach: map[int]bool{}}
	if base != nil {
		for i := range base.reach {
			n.reach[i] = true
		}
		c.Check(identical(errors.Unwrap(r.err), base.inner), "%s does not wrap its base\n%s", what, h.log)
	} else {
		c.Check(errors.Unwrap(r.err) == nil, "%s wraps something\n%s", what, h.log)
	}
	for _, o := range h.nodes {
		c.Check(!identical(r.err, o.inner), "%s returned an error that existed before\n%s", what, h.log)
	}
	h.add(n)
}

func identical(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if s, ok := a.(sliceErr); ok {
		return reflect.ValueOf(s).Pointer() == reflect.ValueOf(b).Pointer()
	}
	return a == b
}

func baseErr(n *node) (error, Map) {
	if n == nil {
		return nil, Map{}
	}
	return n.err, n.data
}

var verif = struct{ n int }{}

func (h *hist) op() {
	c := h.c
	switch kit.Int(c, "op", 0, 12) {
	case 0, 1: // foreign errors
		b := h.pick("inner")
		e, d := baseErr(b)
		reach := map[int]bool{}
		if b != nil {
			for i := range b.reach {
				reach[i] = true
			}
		}
		switch kit.Int(c, "foreign", 0, 7) {
		case 0:
			h.step("#%d = errors.New", len(h.nodes))
			h.add(&node{err: errors.New("new"), data: Map{}, self: true})
		case 1:
			h.step("#%d = sliceErr", len(h.nodes))
			h.add(&node{err: sliceErr{"x"}, data: Map{}})
		case 2:
			verif.n++
			h.step("#%d = valErr", len(h.nodes))
			h.add(&node{err: valErr{verif.n}, data: Map{}, self: true})
		case 3, 4:
			if b == nil {
				return
			}
			h.step("#%d = fmt.Errorf(%%w, #%d)", len(h.nodes), b.id)
			h.add(&node{err: fmt.Errorf("wrapped: %w", e), data: d, reach: reach, self: true})
		case 5:
			h.step("#%d = ptrErr(#%v)", len(h.nodes), e != nil)
			h.add(&node{err: &ptrErr{"ptr", e}, data: d, reach: reach, self: true})
		case 6:
			b2 := h.pick("inner")
			if b == nil || b2 == nil {
				return
			}
			for i := range b2.reach {
				reach[i] = true
			}
			h.step("#%d = errors.Join(#%d, #%d)", len(h.nodes), b.id, b2.id)
			h.add(&node{err: errors.Join(e, b2.err), data: Map{}, reach: reach, self: true})
		default:
			m := drawData(c, nil)
			h.step("#%d = user defined error with %s", len(h.nodes), show(m))
			h.add(&node{err: &userErr{text: "user", inner: e, data: copyMap(m)}, data: m, reach: reach, self: true})
		}
	case 2, 3, 4: // new error or added data, from a map or pairs
		b := h.pick("base")
		e, d := baseErr(b)
		mode, miss := kit.Oneof(c, "mode", modes...), kit.Oneof(c, "missing", misses...)
		var s *sops
		if kit.Bool(c, "typed") {
			s = kit.Oneof(c, "type", suitable...)
		}
		m := drawData(c, s)
		text := kit.Oneof(c, "text", "", "text", "text %v{!m}", "broken {")
		form := kit.Int(c, "form", 0, 3)
		h.step("#%d = form %d from %s: base %v mode %v missing %v type %v data %s", len(h.nodes), form, text, e != nil, mode, miss, s != nil, show(m))
		want, ok := merge(d, m, mode)
		if ok && s != nil {
			ok = s.complete(want, miss)
		}
		in := copyMap(m)
		kv := pairsOf(c, m)
		var r result
		anyCall := func(f func() Any) result {
			var x Any
			r := result{}
			r.val, r.died = kit.Panics(func() { x = f() })
			if x != nil {
				r.err = x
			}
			return r
		}
		switch {
		case form == 0 && s == nil:
			r = anyCall(func() Any { return ewd.NewErrorWithData_any_map(e, text, mode, in) })
		case form == 0:
			r = s.newMap(e, text, mode, miss, in)
		case form == 1 && s == nil:
			r = anyCall(func() Any { return ewd.NewErrorWithData_any_params(e, text, mode, kv...) })
		case form == 1:
			r = s.newParams(e, text, mode, miss, kv...)
		case form == 2 && s == nil:
			r = anyCall(func() Any { return ewd.AddDataToError_any_map(e, mode, in) })
		case form == 2:
			r = s.addMap(e, mode, miss, in)
		case s == nil:
			r = anyCall(func() Any { return ewd.AddDataToError_any_params(e, mode, kv...) })
		default:
			r = s.addParams(e, mode, miss, kv...)
		}
		if e == nil && form >= 2 {
			c.Check(!r.died && r.err == nil, "adding data to nil gives %v %v\n%s", r.err, r.val, h.log)
			return
		}
		if e == nil && text == "" {
			ok = false
		}
		c.Check(sameMap(in, m), "the map passed was changed\n%s", h.log)
		h.created("new error", r, b, want, ok, s)
		for k := range in { // the error does not depend on what was passed
			in[k] = "overwritten"
		}
		in["another"] = 1
		for i := range kv {
			kv[i] = "overwritten"
		}
	case 5, 6: // from a struct
		b := h.pick("base")
		e, d := baseErr(b)
		s := kit.Oneof(c, "type", suitable...)
		mode := kit.Oneof(c, "mode", modes...)
		given := []ewd.PreviousDataTreatment{mode}
		if mode == ewd.ReplacePreviousData && kit.Bool(c, "default") {
			given = nil
		}
		v, m := s.draw(c)
		text := kit.Oneof(c, "text", "", "text")
		form := kit.Int(c, "form", 0, 1)
		h.step("#%d = struct form %d %s from %s: base %v mode %v data %s", len(h.nodes), form, s.name, text, e != nil, mode, show(m))
		want, ok := merge(d, m, mode)
		if ok {
			ok = s.complete(want, ewd.EnsureDataIsPresent)
		}
		var r result
		if form == 0 {
			r = s.newStruct(e, text, v, given...)
			if e == nil && text == "" {
				ok = false
			}
		} else {
			r = s.addStruct(e, v, given...)
			if e == nil {
				c.Check(!r.died && r.err == nil, "adding a struct to nil gives %v %v\n%s", r.err, r.val, h.log)
				return
			}
		}
		h.created("new error from struct", r, b, want, ok, s)
		v.SetZero()
	case 7, 8: // delete
		b := h.pick("base")
		e, d := baseErr(b)
		k := kit.Oneof(c, "key", keyPool...)
		want := copyMap(d)
		delete(want, k)
		if kit.Bool(c, "typed") {
			s := kit.Oneof(c, "type", suitable...)
			miss := kit.Oneof(c, "missing", misses...)
			h.step("#%d = delete %q from %v for %s, missing %v", len(h.nodes), k, e != nil, s.name, miss)
			r := s.del(e, k, miss)
			if e == nil {
				c.Check(!r.died && r.err == nil, "deleting from nil gives %v %v\n%s", r.err, r.val, h.log)
				return
			}
			ok := s.complete(want, miss)
			h.created("typed delete", r, b, want, ok, s)
			return
		}
		h.step("#%d = delete %q from %v", len(h.nodes), k, e != nil)
		r := result{}
		var x Any
		r.val, r.died = kit.Panics(func() { x = ewd.DeleteParameterFromError_any(e, k) })
		if x != nil {
			r.err = x
		}
		if e == nil {
			c.Check(!r.died && r.err == nil, "deleting from nil gives %v %v\n%s", r.err, r.val, h.log)
			return
		}
		h.created("delete", r, b, want, true, nil)
	case 9: // convert
		b := h.pick("base")
		e, d := baseErr(b)
		s := kit.Oneof(c, "type", suitable...)
		miss := kit.Oneof(c, "missing", misses...)
		h.step("#%d = AsErrorWithData[%s](%v, %v)", len(h.nodes), s.name, e != nil, miss)
		r := s.as(e, miss)
		if e == nil {
			c.Check(!r.died && r.ok && r.err == nil, "AsErrorWithData(nil): %v %v %v\n%s", r.val, r.ok, r.err, h.log)
			return
		}
		want := copyMap(d)
		ok := s.complete(want, miss)
		c.Check(!r.died && r.ok == ok, "AsErrorWithData: ok=%v panic %v\n%s", r.ok, r.val, h.log)
		if !ok {
			c.Label("refused")
			return
		}
		n := &node{err: r.err, data: want, self: true, s: s, own: r.own, reach: map[int]bool{}}
		if u := errors.Unwrap(r.err); !identical(u, b.inner) {
			c.Check(identical(u, errors.Unwrap(b.inner)), "AsErrorWithData wraps something else\n%s", h.log)
			for i := range b.reach {
				if h.nodes[i].inner != b.inner {
					n.reach[i] = true
				}
			}
		} else {
			for i := range b.reach {
				n.reach[i] = true
			}
		}
		h.add(n)
	case 10: // box
		b := h.pick("base")
		if b == nil {
			return
		}
		n := &node{inner: b.inner, data: b.data, reach: b.reach, s: b.s, own: b.own}
		kind := "plain"
		switch x := b.err.(type) {
		case interface {
			Any
			ewd.IncomparableMaker
		}:
			if b.s != nil && kit.Bool(c, "struct") {
				if _, isTyped := b.err.(interface{ GetData_struct() struct{} }); isTyped || b.own != nil && !b.plain {
					var e error
					if _, did := kit.Panics(func() { e = b.s.box(b.err) }); !did {
						n.err, kind = e, "struct"
						break
					}
				}
			}
			if kit.Bool(c, "any") {
				n.err, kind = ewd.MakeErrorIncomparable_any(x), "any"
			} else {
				n.err, n.plain = ewd.MakeErrorIncomparable(x), true
			}
		case ewd.IncomparableMaker:
			n.err, n.plain = ewd.MakeErrorIncomparable(x), true
		default:
			return
		}
		h.step("#%d = box %s of #%d", len(h.nodes), kind, b.id)
		c.Label("boxed")
		c.Check(identical(ewd.UnboxError(n.err), b.inner), "unboxing gives another error\n%s", h.log)
		c.Check(!reflect.TypeOf(n.err).Comparable(), "boxed errors can be compared\n%s", h.log)
		c.Check(n.err.Error() == b.text, "boxing changed the message\n%s", h.log)
		if !n.plain {
			n.own = b.own
		}
		h.add(n)
	case 11: // malformed calls
		b := h.pick("base")
		e, _ := baseErr(b)
		s := kit.Oneof(c, "type", suitable...)
		mode, miss := kit.Oneof(c, "mode", modes...), ewd.MissingDataAsZero
		var r result
		switch kit.Int(c, "malformed", 0, 4) {
		case 0:
			r = s.newParams(e, "text", mode, miss, "A")
		case 1:
			r = s.newParams(e, "text", mode, miss, kit.Oneof[any](c, "key", 1, nil, someErr), 2)
		case 2:
			r = s.newMap(e, "text", ewd.PreviousDataTreatment{}, miss, Map{"fresh key": 1})
		case 3:
			v, _ := s.draw(c)
			r = s.newStruct(e, "text", v, mode, mode)
		default:
			_, d := baseErr(b)
			missing := false
			for _, f := range s.fields {
				if x, ok := d[f.name]; !ok {
					missing = true
				} else if !f.fits(x) {
					missing = true
				}
			}
			if !missing {
				return
			}
			r = s.newMap(e, "text", mode, ewd.MissingDataTreatment{}, Map{})
		}
		c.Check(r.died, "a malformed call was accepted\n%s", h.log)
	default:
		if len(h.nodes) > 0 {
			h.check(h.nodes[kit.Int(c, "node", 0, len(h.nodes)-1)], true)
		}
	}
}

// check compares everything that can be asked about the error with the model.
func (h *hist) check(n *node, full bool) {
	c := h.c
	got := ewd.GetData_map(n.err)
	c.Check(got != nil && sameMap(got, n.data), "#%d has the data %s instead of %s\n%s", n.id, show(got), show(n.data), h.log)
	c.Check(n.err.Error() == n.text, "the message of #%d changed from %q to %q\n%s", n.id, n.text, n.err.Error(), h.log)
	if !full {
		return
	}
	for k := range got { // the result is a copy
		got[k] = "overwritten"
	}
	got["another"] = 1
	typed, isAny := n.err.(Any)
	c.Check(isAny == (!n.plain && (isAnyErr(n.inner) || !identical(n.err, n.inner))), "#%d: interface\n%s", n.id, h.log)
	if isAny {
		m := typed.GetData_map()
		c.Check(m != nil && sameMap(m, n.data), "#%d has the data %s by method instead of %s\n%s", n.id, show(m), show(n.data), h.log)
		m["another"] = 2
	}
	for _, k := range append([]string{"another"}, keyPool...) {
		want, present := n.data[k]
		v, ok := ewd.GetParameter(n.err, k)
		c.Check(ok == present && same(v, want), "#%d: parameter %q is %v, %v instead of %v, %v\n%s", n.id, k, v, ok, want, present, h.log)
		c.Check(ewd.HasParameter(n.err, k) == present, "#%d: HasParameter(%q) is wrong\n%s", n.id, k, h.log)
		if isAny {
			v, ok := typed.GetParameter(k)
			c.Check(ok == present && same(v, want), "#%d: parameter %q is %v, %v by method instead of %v, %v\n%s", n.id, k, v, ok, want, present, h.log)
			c.Check(typed.HasParameter(k) == present, "#%d: HasParameter(%q) by method is wrong\n%s", n.id, k, h.log)
		}
	}
	ask := []*sops{kit.Oneof(c, "ask", suitable...), kit.Oneof(c, "ask", suitable...)}
	if n.s != nil {
		ask = append(ask, n.s)
	}
	for _, s := range ask {
		all := s.complete(copyMap(n.data), ewd.EnsureDataIsPresent)
		c.Check(s.has(n.err) == all, "#%d: HasData[%s] is %v\n%s", n.id, s.name, !all, h.log)
		for _, miss := range misses {
			ok := s.complete(copyMap(n.data), miss)
			var v any
			val, did := kit.Panics(func() { v = s.get(n.err, miss) })
			c.Check(did == !ok, "#%d: GetData_struct[%s] with %v: panic %v %v\n%s", n.id, s.name, miss, did, val, h.log)
			if ok {
				c.Check(s.holds(v, n.data) == "", "#%d: GetData_struct[%s] with %v: %s\n%s", n.id, s.name, miss, s.holds(v, n.data), h.log)
			}
		}
	}
	if n.s != nil && n.own != nil {
		var v any
		val, did := kit.Panics(func() { v = n.own() })
		c.Check(!did, "#%d: its method GetData_struct for %s panics: %v\n%s", n.id, n.s.name, val, h.log)
		c.Check(n.s.holds(v, n.data) == "", "#%d: its method GetData_struct for %s: %s\n%s", n.id, n.s.name, n.s.holds(v, n.data), h.log)
	}
	again := ewd.GetData_map(n.err)
	c.Check(sameMap(again, n.data), "#%d: the data became %s instead of %s\n%s", n.id, show(again), show(n.data), h.log)
}

func isAnyErr(e error) bool { _, ok := e.(Any); return ok }

func (h *hist) chains() {
	c := h.c
	for _, n := range h.nodes {
		for _, t := range h.nodes {
			want := false
			if _, isSlice := t.inner.(sliceErr); !isSlice {
				for i := range n.reach {
					want = want || h.nodes[i].inner == t.inner
				}
			}
			c.Check(errors.Is(n.err, t.err) == want, "errors.Is(#%d, #%d) is %v\n%s", n.id, t.id, !want, h.log)
		}
		c.Check(!errors.Is(n.err, io.ErrShortWrite), "#%d matches an unrelated error\n%s", n.id, h.log)
	}
}

func p28(c *kit.C) {
	h := &hist{c: c}
	n := kit.Size(c, "steps", 1, 14, 60)
	for i := 0; i < n; i++ {
		old := len(h.nodes)
		h.op()
		for j, x := range h.nodes {
			h.check(x, j >= old)
		}
	}
	h.chains()
	deep := false
	for _, n := range h.nodes {
		deep = deep || len(n.reach) >= 3 && len(n.data) >= 2
	}
	c.Case(deep, "history%s", h.log)
}

func TestP28(t *testing.T) {
	kit.Run(t, kit.Sub{Name: "histories", Quick: 16000, Fn: p28},
		kit.Sub{Name: "nil", Quick: 64, Fn: func(c *kit.C) {
			s := kit.Oneof(c, "type", suitable...)
			c.Case(len(s.fields) > 0, "%s", s.name)
			m := ewd.GetData_map(nil)
			c.Check(m != nil && len(m) == 0, "data of nil")
			v, ok := ewd.GetParameter(nil, "A")
			c.Check(v == nil && !ok && !ewd.HasParameter(nil, "A"), "parameters of nil")
			c.Check(s.has(nil) == (len(s.fields) == 0), "HasData[%s](nil)", s.name)
			c.Check(s.holds(s.get(nil, ewd.MissingDataAsZero), Map{}) == "", "GetData_struct[%s](nil)", s.name)
			_, did := kit.Panics(func() { s.get(nil, ewd.EnsureDataIsPresent) })
			c.Check(did == (len(s.fields) > 0), "GetData_struct[%s](nil)", s.name)
			c.Check(ewd.UnboxError(nil) == nil, "UnboxError(nil)")
			c.Check(ewd.DeleteParameterFromError_any(nil, "A") == nil, "DeleteParameterFromError_any(nil)")
		}})
}

func TestP29(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "suitability", Quick: 8000, Fn: p29suit},
		kit.Sub{Name: "roundtrip", Quick: 16000, Fn: p29round},
		kit.Sub{Name: "partial", Quick: 16000, Fn: p29partial},
		kit.Sub{Name: "subtypes", Quick: 2000, Fn: func(c *kit.C) {
			p := kit.Oneof(c, "pair", pairs...)
			want := p.a.suitable && (p.b.suitable || len(p.a.fields) == 0)
			for _, f := range p.a.fields {
				found := false
				for _, g := range p.b.fields {
					found = found || g.name == f.name
				}
				want = want && found
			}
			if p.a.suitable && !p.b.suitable && len(p.a.fields) == 0 {
				c.Skip("no demand") // an empty struct and an unsuitable type
			}
			c.Case(len(p.a.fields) > 0 && len(p.b.fields) > 0, "%s in %s", p.a.name, p.b.name)
			c.LabelIf(want, "is one")
			val, did := kit.Panics(p.sub)
			c.Check(did == !want, "CheckIsSubtype[%s, %s]: panic %v %v", p.a.name, p.b.name, did, val)
		}})
}

func p29suit(c *kit.C) {
	s := kit.Oneof(c, "type", catalogue...)
	err := s.suit()
	deep := false
	for _, f := range s.fields {
		deep = deep || len(f.index) > 1
	}
	c.Case(deep, "%s suitable %v", s.name, s.suitable)
	c.LabelIf(!s.suitable, "unsuitable")
	c.Check((err == nil) == s.suitable, "%v is suitable: %v, but the function says %v", s.typ, s.suitable, err)
	names := []string{}
	for _, f := range s.fields {
		names = append(names, f.name)
	}
	for i := len(names) - 1; i > 0; i-- {
		j := kit.Int(c, "swap", 0, i)
		names[i], names[j] = names[j], names[i]
	}
	if !s.suitable {
		if s.typ.Kind() == reflect.Struct {
			v := reflect.New(s.typ).Elem()
			r := s.newStruct(nil, "text", v)
			c.Check(r.died, "NewErrorWithData_struct accepts %s", s.name)
		}
		r := s.newMap(nil, "text", ewd.ReplacePreviousData, ewd.MissingDataAsZero, Map{})
		c.Check(r.died, "NewErrorWithData_map accepts %s", s.name)
		_, did := kit.Panics(func() { s.has(someErr) })
		c.Check(did, "HasData accepts %s", s.name)
		_, did = kit.Panics(func() { s.get(someErr, ewd.MissingDataAsZero) })
		c.Check(did, "GetData_struct accepts %s", s.name)
		_, did = kit.Panics(func() { s.checkAll(names) })
		c.Check(did, "CheckParametersForStruct_all accepts %s", s.name)
		return
	}
	val, did := kit.Panics(func() { s.checkAll(names) })
	c.Check(!did, "CheckParametersForStruct_all[%s](%q) panics: %v", s.name, names, val)
	bad := append([]string{}, names...)
	switch k := kit.Int(c, "bad", 0, 3); {
	case k == 0 || len(bad) == 0:
		bad = append(bad, "Another")
	case k == 1:
		bad = bad[1:]
	case k == 2:
		bad = append(bad, bad[kit.Int(c, "dup", 0, len(bad)-1)])
	default:
		bad[kit.Int(c, "rename", 0, len(bad)-1)] = "Another"
	}
	_, did = kit.Panics(func() { s.checkAll(bad) })
	c.Check(did, "CheckParametersForStruct_all[%s](%q) accepts the list", s.name, bad)
	for _, n := range append([]string{"Another", "", "hidden", "leafX"}, keyPool...) {
		has := false
		for _, f := range s.fields {
			has = has || f.name == n
		}
		_, did := kit.Panics(func() { s.checkOne(n) })
		c.Check(did == !has, "CheckParameterForStruct[%s](%q) panics: %v", s.name, n, did)
	}
}

func p29round(c *kit.C) {
	s := kit.Oneof(c, "type", suitable...)
	v, m := s.draw(c)
	deep := false
	for _, f := range s.fields {
		deep = deep || len(f.index) > 1
	}
	c.Case(deep, "%s %s", s.name, show(m))
	r := s.newStruct(nil, "text", v)
	c.Check(!r.died, "a struct of type %s is refused: %v", s.name, r.val)
	check := func(what string, r result, want Map) {
		got := ewd.GetData_map(r.err)
		c.Check(sameMap(got, want), "%s %s: the data are %s instead of %s", s.name, what, show(got), show(want))
		c.Check(s.has(r.err), "%s %s: HasData", s.name, what)
		for _, x := range []any{r.own(), s.get(r.err, ewd.EnsureDataIsPresent), s.get(r.err, ewd.MissingDataAsZero)} {
			c.Check(s.holds(x, want) == "", "%s %s, read back: %s", s.name, what, s.holds(x, want))
		}
	}
	check("by struct", r, m)
	r2 := s.newMap(nil, "text", kit.Oneof(c, "mode", modes...), kit.Oneof(c, "missing", misses...), m)
	c.Check(!r2.died, "the fields of type %s are refused as map: %v", s.name, r2.val)
	check("by map", r2, m)
	r3 := s.newParams(nil, "text", ewd.ReplacePreviousData, kit.Oneof(c, "missing", misses...), pairsOf(c, m)...)
	c.Check(!r3.died, "the fields of type %s are refused as parameters: %v", s.name, r3.val)
	check("by parameters", r3, m)
	// the same data read as another type
	o := kit.Oneof(c, "other", suitable...)
	for _, miss := range misses {
		var x any
		val, did := kit.Panics(func() { x = o.get(r.err, miss) })
		ok := o.complete(copyMap(m), miss)
		c.Check(did == !ok, "%s read as %s, %v: panic %v %v", s.name, o.name, miss, did, val)
		if ok {
			c.Check(o.holds(x, m) == "", "%s read as %s, %v: %s", s.name, o.name, miss, o.holds(x, m))
			c.Label("read as another type")
		}
	}
	// written twice, with another type
	ov, om := o.draw(c)
	mode := kit.Oneof(c, "mode", modes...)
	want, ok := merge(m, om, mode)
	if ok {
		ok = o.complete(want, ewd.EnsureDataIsPresent)
	}
	r4 := o.newStruct(r.err, "", ov, mode)
	c.Check(r4.died == !ok, "%s over %s with mode %v: panic %v %v", o.name, s.name, mode, r4.died, r4.val)
	if ok {
		got := ewd.GetData_map(r4.err)
		c.Check(sameMap(got, want), "%s over %s with mode %v: the data are %s instead of %s", o.name, s.name, mode, show(got), show(want))
		c.Check(o.holds(r4.own(), want) == "", "%s over %s with mode %v, read back: %s", o.name, s.name, mode, o.holds(r4.own(), want))
	}
}

func p29partial(c *kit.C) {
	s := kit.Oneof(c, "type", suitable...)
	m := drawData(c, s)
	missing := 0
	for _, f := range s.fields {
		if _, ok := m[f.name]; !ok {
			missing++
		}
	}
	c.Case(missing > 0 && missing < len(s.fields), "%s %s", s.name, show(m))
	base := ewd.NewErrorWithData_any_map(nil, "text", ewd.ReplacePreviousData, m)
	c.Check(s.has(base) == s.complete(copyMap(m), ewd.EnsureDataIsPresent), "HasData[%s] of %s", s.name, show(m))
	for _, miss := range misses {
		want := copyMap(m)
		ok := s.complete(want, miss)
		c.LabelIf(!ok, "refused")
		var v any
		val, did := kit.Panics(func() { v = s.get(base, miss) })
		c.Check(did == !ok, "GetData_struct[%s] of %s, %v: panic %v %v", s.name, show(m), miss, did, val)
		if ok {
			c.Check(s.holds(v, m) == "", "GetData_struct[%s] of %s, %v: %s", s.name, show(m), miss, s.holds(v, m))
		}
		for _, r := range []result{s.newMap(nil, "text", ewd.ReplacePreviousData, miss, m), s.newMap(base, "", ewd.ReplacePreviousData, miss, Map{}), s.newParams(base, "", ewd.PreferPreviousData, miss),
			s.addMap(base, ewd.AssertDataIsNotReplaced, miss, nil), s.del(base, "not there", miss)} {
			c.Check(r.died == !ok, "an error of type %s from %s, %v: panic %v %v", s.name, show(m), miss, r.died, r.val)
			if ok {
				got := ewd.GetData_map(r.err)
				c.Check(sameMap(got, want), "an error of type %s from %s, %v, has data %s", s.name, show(m), miss, show(got))
				c.Check(s.holds(r.own(), want) == "", "an error of type %s from %s, %v: %s", s.name, show(m), miss, s.holds(r.own(), want))
			}
		}
		r := s.as(base, miss)
		c.Check(!r.died && r.ok == ok, "AsErrorWithData[%s] of %s, %v: %v %v", s.name, show(m), miss, r.ok, r.val)
		if ok {
			got := ewd.GetData_map(r.err)
			c.Check(sameMap(got, want), "AsErrorWithData[%s] of %s, %v, has data %s", s.name, show(m), miss, show(got))
			c.Check(s.holds(r.own(), want) == "", "AsErrorWithData[%s] of %s, %v: %s", s.name, show(m), miss, s.holds(r.own(), want))
		}
		c.Check(sameMap(ewd.GetData_map(base), m), "the base error changed: %s instead of %s", show(ewd.GetData_map(base)), show(m))
	}
}
