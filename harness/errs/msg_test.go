//go:build go1.23

package errs

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

// expr is a part of an interpolation string.
type expr struct {
	op     byte // 's' literal, '%' and '$' parameters, 'p' and 'd' conditions on own and passed data, 'w' and 'W' wrapped error
	text   string
	verb   string
	name   string
	cond   string
	kids   []*expr
	always bool // an error within: the condition is ignored
	bad    bool
}

// prog is an interpolation string.
type prog struct {
	src    string
	list   []*expr
	failed bool   // it cannot be parsed
	rest   string // what is shown after the place of the error
	bad    bool   // there is an invalid verb, name or condition
}

var selectors = map[string]bool{"!m": true, "!map": true, "!parameters": true, "!params": true}

func validName(s string) bool {
	for i, r := range s {
		if i == 0 && !unicode.IsUpper(r) || r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			return false
		}
	}
	return s != ""
}

// mark finds invalid verbs, names and conditions.
func mark(list []*expr) (bad bool) {
	for _, e := range list {
		switch e.op {
		case '%', '$':
			e.bad = strings.Contains(e.verb, "%") || !validName(e.name) && !selectors[e.name]
			bad = bad || e.bad
		case 'p', 'd':
			if mark(e.kids) {
				e.always, bad = true, true
			}
			if e.cond != "m=0" && e.cond != "m>0" {
				e.always, e.bad, bad = true, true, true
			}
		}
	}
	return
}

type tok struct {
	op byte // as in expr, '{', '}', and 0 at the end
	s  string
}

func tokenise(s string) (r []tok) {
	lit := ""
	flush := func() {
		if lit != "" {
			r = append(r, tok{'s', lit})
			lit = ""
		}
	}
	for len(s) > 0 {
		n := 2
		switch {
		case len(s) > 1 && s[0] == '\\' && strings.IndexByte(`%${}\`, s[1]) >= 0:
			lit += s[1:2]
		case strings.HasPrefix(s, "%%"):
			lit += "%"
		case strings.HasPrefix(s, "%!"):
			flush()
			r = append(r, tok{'p', "%!"})
		case strings.HasPrefix(s, "$!"):
			flush()
			r = append(r, tok{'d', "$!"})
		case strings.HasPrefix(s, "%w"):
			flush()
			r = append(r, tok{'w', "%w"})
		case strings.HasPrefix(s, "$w"):
			flush()
			r = append(r, tok{'W', "$w"})
		case strings.IndexByte("%${}", s[0]) >= 0:
			flush()
			r = append(r, tok{s[0], s[:1]})
			n = 1
		default:
			lit += s[:1]
			n = 1
		}
		s = s[n:]
	}
	flush()
	return append(r, tok{0, ""})
}

type parser struct {
	toks []tok
	pos  int
	prog *prog
}

// fail says that the last token cannot stand where it does. It is part of what is shown after the diagnostic,
// unless the diagnostic is about this token.
func (p *parser) fail(shown bool) {
	p.prog.failed = true
	from := p.pos
	if shown {
		from--
	}
	for _, t := range p.toks[min(from, len(p.toks)-1):] {
		p.prog.rest += t.s
	}
}

func (p *parser) next() tok { t := p.toks[p.pos]; p.pos++; return t }

func (p *parser) seq(inner bool) (list []*expr) {
	for {
		t := p.next()
		switch t.op {
		case 0:
			if inner {
				p.fail(false)
			}
			return
		case '}':
			if !inner {
				p.fail(false)
			}
			return
		case '{':
			p.fail(false)
			return
		case 's':
			list = append(list, &expr{op: 's', text: t.s})
		case 'w', 'W':
			list = append(list, &expr{op: t.op})
		case '%', '$':
			e := &expr{op: t.op}
			u := p.next()
			if u.op == 's' {
				e.verb = u.s
				u = p.next()
			}
			if u.op != '{' {
				p.fail(true)
				return
			}
			if u = p.next(); u.op != 's' {
				p.fail(true)
				return
			}
			e.name = u.s
			if u = p.next(); u.op != '}' {
				p.fail(true)
				return
			}
			list = append(list, e)
		default:
			e := &expr{op: t.op}
			u := p.next()
			if u.op != 's' {
				p.fail(true)
				return
			}
			e.cond = u.s
			if u = p.next(); u.op != '{' {
				p.fail(true)
				return
			}
			e.kids = p.seq(true)
			list = append(list, e)
			if p.prog.failed {
				e.always = true
				return
			}
		}
	}
}

func parse(s string) *prog {
	r := &prog{src: s}
	p := &parser{toks: tokenise(strings.ToValidUTF8(s, "\uFFFD")), prog: r}
	r.list = p.seq(false)
	r.bad = mark(r.list)
	return r
}

// piece of an expected message: a literal, or a diagnostic of some sort, or anything.
type piece struct {
	lit  string
	kind byte // 0 literal, '<' diagnostic, '*' anything
}

type mnode struct {
	err    error
	box    error // the same error boxed, or nil
	any    Any   // err, or the box, with its interface
	data   Map
	prog   *prog // nil for foreign errors
	base   *mnode
	plain  []piece                 // foreign: the message
	interp func(passed Map) string // foreign errors that support $w
	need   string                  // of these: what they need to be passed
	depth  int
}

func (n *mnode) message() []piece {
	if n.prog == nil {
		return n.plain
	}
	return n.interpolate(nil)
}

func (n *mnode) supports() bool { return n.prog != nil || n.interp != nil }

func (n *mnode) interpolate(passed Map) []piece {
	if n.prog == nil {
		return []piece{{lit: n.interp(passed)}}
	}
	if passed == nil {
		passed = n.data
	}
	r := n.eval(n.prog.list, passed)
	if n.prog.failed {
		r = append(r, piece{kind: '<'}, piece{lit: n.prog.rest})
	}
	if n.prog.failed || n.prog.bad {
		r = append(r, piece{kind: '*'})
	}
	return r
}

func (n *mnode) eval(list []*expr, passed Map) (r []piece) {
	for _, e := range list {
		m := n.data
		if e.op == '$' || e.op == 'd' {
			m = passed
		}
		switch e.op {
		case 's':
			r = append(r, piece{lit: e.text})
		case '%', '$':
			v, ok := m[e.name]
			if selectors[e.name] {
				v, ok = m, true
			}
			verb := e.verb
			if verb == "" {
				verb = "v"
			}
			if e.bad || !ok {
				r = append(r, piece{kind: '<'})
			} else if selectors[e.name] && strings.Contains(verb, "p") { // the address of a map
				r = append(r, piece{kind: '*'})
			} else {
				r = append(r, piece{lit: fmt.Sprintf("%"+verb, v)})
			}
		case 'p', 'd':
			if e.bad {
				r = append(r, piece{kind: '<'})
			}
			if e.always || (len(m) == 0) == (e.cond == "m=0") {
				r = append(r, n.eval(e.kids, passed)...)
			}
		default:
			switch {
			case n.base == nil:
				r = append(r, piece{kind: '<'})
			case e.op == 'w':
				r = append(r, n.base.message()...)
			case !n.base.supports():
				r = append(r, piece{kind: '<'})
				r = append(r, n.base.message()...)
			default:
				r = append(r, n.base.interpolate(passed)...)
			}
		}
	}
	return
}

const (
	good = iota
	unknown
	wrong
)

// check says whether validation succeeds; base is for the check as a base of other errors.
func (n *mnode) check(passed Map, base bool) int {
	if n.prog == nil {
		if n.interp == nil || n.need == "" || base || passed == nil {
			return good
		}
		if _, ok := passed[n.need]; !ok {
			return wrong
		}
		return good
	}
	if n.prog.failed || n.prog.bad {
		return wrong
	}
	if passed == nil {
		passed = n.data
	}
	return n.checkList(n.prog.list, passed, base)
}

func (n *mnode) checkList(list []*expr, passed Map, base bool) (r int) {
	for _, e := range list {
		x := good
		switch e.op {
		case '%', '$':
			m := n.data
			if e.op == '$' {
				m = passed
			}
			if _, ok := m[e.name]; !ok && !selectors[e.name] && !(base && e.op == '$') {
				x = wrong
			}
		case 'p':
			if (len(n.data) == 0) == (e.cond == "m=0") {
				x = n.checkList(e.kids, passed, base)
			}
		case 'd':
			if base { // it is not said how well this is checked
				x = min(n.checkList(e.kids, passed, base), unknown)
			} else if (len(passed) == 0) == (e.cond == "m=0") {
				x = n.checkList(e.kids, passed, base)
			}
		case 'w':
			if n.base == nil {
				x = wrong
			} else {
				x = n.base.check(nil, false)
			}
		case 'W':
			if n.base == nil || !n.base.supports() {
				x = wrong
			} else if base {
				x = n.base.check(nil, true)
			} else {
				x = n.base.check(passed, false)
			}
		}
		r = max(r, x)
	}
	return
}

func exact(l []piece) (string, bool) {
	s := ""
	for _, p := range l {
		if p.kind != 0 {
			return "", false
		}
		s += p.lit
	}
	return s, true
}

// match says whether the text has the form of the pieces.
func match(s string, l []piece) bool {
	if e, ok := exact(l); ok {
		return s == e
	}
	// join literals
	var j []piece
	for _, p := range l {
		switch {
		case p.kind == 0 && p.lit == "":
		case p.kind == 0 && len(j) > 0 && j[len(j)-1].kind == 0:
			j[len(j)-1].lit += p.lit
		default:
			j = append(j, p)
		}
	}
	open := false // anything may precede the next literal
	for i, p := range j {
		switch {
		case p.kind == '*':
			open = true
		case p.kind == '<':
			k := strings.IndexByte(s, '<')
			if k < 0 {
				return false
			}
			s, open = s[k+1:], true
		case !open:
			if !strings.HasPrefix(s, p.lit) {
				return false
			}
			s = s[len(p.lit):]
		case i == len(j)-1:
			return strings.HasSuffix(s, p.lit)
		default:
			k := strings.Index(s, p.lit)
			if k < 0 {
				return false
			}
			s, open = s[k+len(p.lit):], false
		}
	}
	return open || s == ""
}

func showPieces(l []piece) string {
	s := ""
	for _, p := range l {
		switch p.kind {
		case 0:
			s += fmt.Sprintf("%q ", p.lit)
		case '<':
			s += "<diagnostic> "
		default:
			s += "... "
		}
	}
	return s
}

// source writes the parts as interpolation string.
func source(c *kit.C, list []*expr) string {
	var b strings.Builder
	for _, e := range list {
		switch e.op {
		case 's':
			b.WriteString(quote(c, e.text))
		case 'w':
			b.WriteString("%w")
		case 'W':
			b.WriteString("$w")
		case '%', '$':
			b.WriteString(string(e.op) + quoteVerb(c, e.verb) + "{" + quote(c, e.name) + "}")
		default:
			b.WriteString(map[byte]string{'p': "%!", 'd': "$!"}[e.op] + quote(c, e.cond) + "{" + source(c, e.kids) + "}")
		}
	}
	return b.String()
}

func quoteVerb(c *kit.C, s string) string {
	if s != "" && strings.IndexByte("%!w", s[0]) >= 0 { // cannot be written otherwise
		return `\` + s[:1] + quote(c, s[1:])
	}
	return quote(c, s)
}

func quote(c *kit.C, s string) string {
	var b strings.Builder
	for i, r := range s {
		switch r {
		case '%':
			if i > 0 && kit.Bool(c, "%%") {
				b.WriteString("%%")
			} else {
				b.WriteString(`\%`)
			}
		case '$', '{', '}':
			b.WriteString(`\` + string(r))
		case '\\':
			if i+1 < len(s) && strings.IndexByte(`%${}\`, s[i+1]) < 0 && kit.Bool(c, "backslash") {
				b.WriteString(`\`)
			} else {
				b.WriteString(`\\`)
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

var (
	literals  = []string{"text", " ", "a\nb", "%", "$", "{", "}", "\\", "100% {of} $5", `C:\dir`, "ü€𝔊", "!m", "w", "%d", "m>0", "v", "\\{", "<nil>", "\x00"}
	verbs     = []string{"", "", "", "v", "+v", "#v", "d", "s", "q", "x", "X", "T", "5d", "-8v", "08.3f", "t", "p", "c", "U", "e", "d items ", "v$", "v{", "v}", "$", "[1]d", "[2]d", "*d", ".2s", "é", "v\\", "-+# 012v", "v w"}
	names     = []string{"A", "B", "C", "D", "X", "Ä1", "Foo", "A_b", "Ω"}
	specials  = []string{"!m", "!map", "!parameters", "!params"}
	badVerbs  = []string{"%", "v%", "%v", "d%%", "v %d"}
	badNames  = []string{"lower", "1A", "_A", "A b", "A.B", "!M", "!", "!mm", "ǅx", "名", "A\u0301", "{", "A%", "$", "A\\", " A", "A ", "!m ", "\uFFFD"}
	badConds  = []string{"m", "M>0", "m<0", "m = 0", " m=0", "m>0 ", "m==0", "x", "m>1", "!", "m=0!", "w", "{"}
	goodConds = []string{"m=0", "m>0"}
)

func pickKey(c *kit.C, m Map, fallback string) string {
	var l []string
	for k := range m {
		if validName(k) {
			l = append(l, k)
		}
	}
	if len(l) == 0 {
		return fallback
	}
	sortStrings(l)
	return l[kit.Int(c, "known", 0, len(l)-1)]
}

// drawExprs makes parts. wild is how often (of 12) names that may be missing are used, faults how often invalid parts are.
func drawExprs(c *kit.C, data Map, wild, faults, depth int) (list []*expr) {
	n := kit.Size(c, "parts", 0, 4, 24)
	for i := 0; i < n; i++ {
		op := kit.Oneof[byte](c, "part", 's', 's', '%', '%', '$', '$', 'w', 'W', 'p', 'd')
		e := &expr{op: op}
		fault := kit.Int(c, "fault", 0, 11) < faults
		switch op {
		case 's':
			if len(list) > 0 && list[len(list)-1].op == 's' {
				continue
			}
			e.text = kit.Oneof(c, "literal", literals...)
		case '%', '$':
			e.verb = kit.Oneof(c, "verb", verbs...)
			switch kit.Int(c, "name", 0, 4) {
			case 0:
				e.name = kit.Oneof(c, "selector", specials...)
			default:
				e.name = kit.Oneof(c, "name", names...)
				if kit.Int(c, "wild", 0, 11) >= wild {
					e.name = pickKey(c, data, "!m")
				}
			}
			if fault {
				if kit.Bool(c, "bad verb") {
					e.verb = kit.Oneof(c, "verb", badVerbs...)
				} else {
					e.name = kit.Oneof(c, "name", badNames...)
				}
			}
		case 'p', 'd':
			if depth == 0 {
				continue
			}
			e.cond = kit.Oneof(c, "condition", goodConds...)
			if fault {
				e.cond = kit.Oneof(c, "condition", badConds...)
			}
			e.kids = drawExprs(c, data, wild, faults, depth-1)
		}
		list = append(list, e)
	}
	return
}

type world struct {
	c     *kit.C
	nodes []*mnode
	log   string
}

func (w *world) step(f string, args ...any) {
	w.log += fmt.Sprintf("\n  #%d = ", len(w.nodes)) + fmt.Sprintf(f, args...)
}

func (w *world) pick() *mnode {
	if len(w.nodes) == 0 || kit.Int(w.c, "nil", 0, 9) == 0 {
		return nil
	}
	if kit.Int(w.c, "last", 0, 2) > 0 {
		return w.nodes[len(w.nodes)-1]
	}
	return w.nodes[kit.Int(w.c, "node", 0, len(w.nodes)-1)]
}

func (w *world) add(n *mnode) {
	if n.any == nil {
		n.any, _ = n.err.(Any)
	}
	if n.base != nil {
		n.depth = n.base.depth + 1
	}
	w.nodes = append(w.nodes, n)
}

// interpErr supports $w but nothing else of the package.
type interpErr struct{ need string }

func (e *interpErr) Error() string { return "interpErr" }
func (e *interpErr) Error_interpolate(p Map) string {
	return fmt.Sprintf("interpErr[%v %v]", p == nil, p)
}
func (e *interpErr) ValidateError_Base() error { return nil }
func (e *interpErr) ValidateError_Params(p Map) error {
	if _, ok := p[e.need]; p != nil && !ok {
		return errors.New("parameter is missing")
	}
	return nil
}

type panicky struct{}

func (panicky) String() string { panic("in String") }

func drawParams(c *kit.C) Map {
	m := Map{}
	n := kit.Size(c, "parameters", 0, 4, 40)
	for many := n > 4; n > 0; n-- {
		k := kit.Oneof(c, "key", names...)
		if many && n > 4 {
			k = fmt.Sprintf("P%d", n)
		}
		switch kit.Int(c, "odd", 0, 15) {
		case 0:
			k = kit.Oneof(c, "key", "lower", "", "!m", "A b")
		case 1:
			m[k] = panicky{}
			continue
		case 2:
			m[k] = "\xff\x00"
			continue
		}
		m[k] = anyValue(c)
	}
	return m
}

// foreign adds an error that does not come from the package.
func (w *world) foreign() {
	c := w.c
	b := w.pick()
	var e error
	d := Map{}
	if b != nil {
		e, d = b.err, b.data
	}
	switch kit.Int(c, "foreign", 0, 4) {
	case 0:
		t := kit.Oneof(c, "text", "", "plain", "100%d {X} $w")
		w.step("errors.New(%q)", t)
		w.add(&mnode{err: errors.New(t), data: Map{}, plain: []piece{{lit: t}}})
	case 1:
		if b == nil {
			return
		}
		w.step("fmt.Errorf around %p", b)
		w.add(&mnode{err: fmt.Errorf("[%w]", e), data: d, plain: []piece{{lit: "[" + e.Error() + "]"}}})
	case 2:
		w.step("ptrErr")
		w.add(&mnode{err: &ptrErr{"ptr", e}, data: d, plain: []piece{{lit: "ptr"}}})
	case 3:
		m := drawParams(c)
		u := &userErr{text: "user", inner: e, data: copyMap(m)}
		w.step("userErr with %s", show(m))
		w.add(&mnode{err: u, data: m, plain: []piece{{lit: "user/plain"}}, interp: u.Error_interpolate})
	default:
		u := &interpErr{kit.Oneof(c, "need", names...)}
		w.step("interpErr that needs %s", u.need)
		w.add(&mnode{err: u, data: Map{}, plain: []piece{{lit: "interpErr"}}, interp: u.Error_interpolate, need: u.need})
	}
}

// create adds an error with the interpolation string, or with the default if p is nil.
func (w *world) create(b *mnode, m Map, p *prog) {
	c := w.c
	var e error
	d := Map{}
	if b != nil {
		e, d = b.err, b.data
		if b.box != nil && kit.Bool(c, "boxed") {
			e = b.box
		}
	}
	src := ""
	if p != nil {
		src = p.src
	}
	if src == "" {
		if b == nil {
			return
		}
		if b.supports() {
			p = parse("$w")
		} else {
			p = parse("%w")
		}
	}
	mode := kit.Oneof(c, "mode", modes...)
	want, ok := merge(d, m, mode)
	n := &mnode{prog: p, base: b, data: want}
	var s *sops
	if kit.Int(c, "typed", 0, 3) == 0 {
		s = kit.Oneof(c, "type", suitable...)
		ok = ok && s.complete(want, ewd.MissingDataAsZero)
	}
	if !ok {
		return
	}
	form := kit.Int(c, "form", 0, 5)
	if form >= 3 && src != "" {
		form -= 3
	}
	w.step("form %d typed %v from %q on %v with %s", form, s != nil, src, b != nil, show(m))
	var r result
	died, did := kit.Panics(func() {
		switch {
		case form == 0 && s == nil:
			r.err = ewd.NewErrorWithData_any_map(e, src, mode, m)
		case form == 0:
			r = s.newMap(e, src, mode, ewd.MissingDataAsZero, m)
		case form == 1 && s == nil:
			r.err = ewd.NewErrorWithData_any_params(e, src, mode, pairsOf(c, m)...)
		case form == 1:
			r = s.newParams(e, src, mode, ewd.MissingDataAsZero, pairsOf(c, m)...)
		case form == 2:
			s = kit.Oneof(c, "type", suitable...)
			v, sm := s.draw(c)
			n.data = copyMap(d)
			for k, x := range sm {
				n.data[k] = x
			}
			r = s.newStruct(e, src, v)
		case form == 3 && s == nil:
			r.err = ewd.AddDataToError_any_map(e, mode, m)
		case form == 3:
			r = s.addMap(e, mode, ewd.MissingDataAsZero, m)
		case form == 4:
			k := kit.Oneof(c, "key", names...)
			n.data = copyMap(d)
			delete(n.data, k)
			r.err = ewd.DeleteParameterFromError_any(e, k)
		default:
			s = kit.Oneof(c, "type", suitable...)
			n.data = copyMap(d)
			if !s.complete(n.data, ewd.MissingDataAsZero) {
				return
			}
			r = s.as(e, ewd.MissingDataAsZero)
		}
	})
	c.Check(!did && !r.died, "creating an error panics: %v %v%s", died, r.val, w.log)
	if r.err == nil {
		return
	}
	n.err = r.err
	if x, ok := r.err.(interface {
		Any
		ewd.IncomparableMaker
	}); ok && kit.Int(c, "box", 0, 3) == 0 {
		if kit.Bool(c, "plain") {
			n.box = ewd.MakeErrorIncomparable(x)
		} else {
			n.any = ewd.MakeErrorIncomparable_any(x)
			n.box = n.any
		}
	}
	w.add(n)
}

// judge compares the messages and the outcomes of the validation functions with the model.
func (w *world) judge(n *mnode, passed ...Map) {
	c := w.c
	id := 0
	for i, x := range w.nodes {
		if x == n {
			id = i
		}
	}
	text := func(what string, f func() string, want []piece) string {
		var got string
		val, did := kit.Panics(func() { got = f() })
		c.Check(!did, "%s of #%d panics: %v%s", what, id, val, w.log)
		c.Check(match(got, want), "%s of #%d is %q instead of %s%s", what, id, got, showPieces(want), w.log)
		return got
	}
	valid := func(what string, f func() error, want int) {
		var got error
		val, did := kit.Panics(func() { got = f() })
		c.Check(!did, "%s of #%d panics: %v%s", what, id, val, w.log)
		c.Check(want == unknown || (got == nil) == (want == good), "%s of #%d says %v%s", what, id, got, w.log)
	}
	msg := text("the message", n.err.Error, n.message())
	if n.box != nil {
		text("the message when boxed", n.box.Error, n.message())
	}
	if n.any == nil || n.prog == nil {
		return
	}
	c.LabelIf(n.prog.failed, "cannot be parsed")
	c.LabelIf(n.prog.bad && !n.prog.failed, "syntax error")
	if n.prog.failed || n.prog.bad { // everything is shown
		if n.base != nil {
			c.Check(strings.Contains(msg, n.base.err.Error()), "the message of #%d does not show the wrapped error: %q%s", id, msg, w.log)
		}
		if len(n.data) > 0 {
			c.Check(strings.Contains(msg, fmt.Sprintf("%v", n.data)), "the message of #%d does not show the parameters: %q%s", id, msg, w.log)
		}
	}
	text("the message without data passed", func() string { return n.any.Error_interpolate(nil) }, n.message())
	syntax := good
	if n.prog.failed || n.prog.bad {
		syntax = wrong
	}
	valid("ValidateSyntax", n.any.ValidateSyntax, syntax)
	valid("ValidateError_Final", n.any.ValidateError_Final, n.check(nil, false))
	valid("ValidateError_Params without parameters", func() error { return n.any.ValidateError_Params(nil) }, n.check(nil, false))
	valid("ValidateError_Base", n.any.ValidateError_Base, n.check(nil, true))
	_, clean := exact(n.message())
	c.LabelIf(clean, "no diagnostic")
	for _, p := range passed {
		keep := copyMap(p)
		want := n.interpolate(p)
		got := text(fmt.Sprintf("the message with %s passed", show(p)), func() string { return n.any.Error_interpolate(p) }, want)
		if p != nil {
			valid(fmt.Sprintf("ValidateError_Params with %s", show(p)), func() error { return n.any.ValidateError_Params(p) }, n.check(p, false))
			if n.prog.failed || n.prog.bad {
				c.Check(strings.Contains(got, fmt.Sprintf("%v", p)), "the message of #%d does not show the parameters passed: %q%s", id, got, w.log)
			}
		}
		c.Check(sameMap(keep, p), "the map passed was changed%s", w.log)
	}
	c.Check(sameMap(n.any.GetData_map(), n.data), "#%d has the data %s instead of %s%s", id, show(n.any.GetData_map()), show(n.data), w.log)
}

// ensure compares the functions that panic unless all errors are valid.
func (w *world) ensure() {
	c := w.c
	var l []Any
	var ms []*mnode
	for _, n := range w.nodes {
		if n.any != nil && n.prog != nil && kit.Bool(c, "ensure") {
			l, ms = append(l, n.any), append(ms, n)
		}
	}
	for what, f := range map[string]func(...Any){"Final": ewd.EnsureErrorsValid_Final, "Base": ewd.EnsureErrorsValid_Base, "Syntax": ewd.EnsureErrorsValid_Syntax} {
		want := good
		for _, n := range ms {
			x := good
			switch {
			case n.prog.failed || n.prog.bad:
				x = wrong
			case what != "Syntax":
				x = n.check(nil, what == "Base")
			}
			want = max(want, x)
		}
		val, did := kit.Panics(func() { f(l...) })
		c.Check(want == unknown || did == (want == wrong), "EnsureErrorsValid_%s panics: %v%s", what, val, w.log)
		if did {
			w.firstIssue(what, val, l)
		}
	}
}

// firstIssue: what is reported is the first of the issues.
func (w *world) firstIssue(what string, val any, l []Any) {
	for _, x := range l {
		issue := map[string]func() error{"Final": x.ValidateError_Final, "Base": x.ValidateError_Base, "Syntax": x.ValidateSyntax}[what]()
		if issue != nil {
			w.c.Check(strings.Contains(fmt.Sprint(val), issue.Error()), "EnsureErrorsValid_%s panics with %v, the first issue is %v%s", what, val, issue, w.log)
			return
		}
	}
}

func (w *world) passedMaps() []Map {
	r := []Map{nil, {}, drawParams(w.c)}
	if len(w.nodes) > 0 {
		r = append(r, copyMap(w.nodes[kit.Int(w.c, "passed", 0, len(w.nodes)-1)].data))
	}
	return r
}

func p30(c *kit.C) {
	w := &world{c: c}
	steps := kit.Size(c, "steps", 1, 6, 40)
	deep, nested := false, false
	for i := 0; i < steps; i++ {
		if kit.Int(c, "foreign", 0, 5) == 0 {
			w.foreign()
			continue
		}
		b := w.pick()
		m := drawParams(c)
		if kit.Int(c, "default", 0, 4) == 0 {
			w.create(b, m, nil)
			continue
		}
		known := copyMap(m)
		if b != nil {
			for k := range b.data {
				known[k] = nil
			}
		}
		p := &prog{list: drawExprs(c, known, 2, 0, 3)}
		if len(p.list) == 0 {
			p.list = []*expr{{op: 's', text: "x"}}
		}
		if b != nil && kit.Bool(c, "refer") {
			p.list = append(p.list, &expr{op: kit.Oneof[byte](c, "how", 'w', 'W')})
		}
		p.src = source(c, p.list)
		w.create(b, m, p)
	}
	if len(w.nodes) == 0 {
		c.Skip("nothing")
	}
	maps := w.passedMaps()
	for _, n := range w.nodes {
		w.judge(n, maps...)
		if l := n.message(); n.prog != nil {
			_, clean := exact(l)
			deep = deep || clean && len(l) > 2 && n.depth > 1
			for _, e := range n.prog.list {
				nested = nested || len(e.kids) > 0
			}
		}
	}
	c.Case(deep && nested, "%s", w.log)
}

// soup draws strings that are mostly not well-formed.
func soup(c *kit.C, data Map) string {
	switch kit.Int(c, "soup", 0, 4) {
	case 0: // tokens
		s := ""
		for n := kit.Size(c, "tokens", 0, 14, 150); n > 0; n-- {
			s += kit.Oneof(c, "token", "%", "$", "%!", "$!", "{", "}", "{", "}", "%w", "$w", "%%", `\%`, `\$`, `\{`, `\}`, `\\`, `\`, "A", "m>0", "m=0", "!m", "v", "text", "w", "!", "{A}", "}}", "m>0{", "\xff", "%v{Foo}", "${B}", "%!m=0{", "$!m>0{x}")
		}
		return s
	case 1: // bytes
		var b []byte
		for n := kit.Size(c, "bytes", 0, 12, 300); n > 0; n-- {
			b = append(b, byte(kit.Int(c, "byte", 0, 255)))
		}
		return string(b)
	default: // a well-formed string, changed
		s := source(c, drawExprs(c, data, 4, kit.Oneof(c, "faults", 0, 0, 1, 3), 3))
		for n := kit.Size(c, "edits", 0, 3, 20); n > 0; n-- {
			i := kit.Int(c, "at", 0, len(s))
			switch kit.Int(c, "edit", 0, 3) {
			case 0:
				s = s[:i] + kit.Oneof(c, "insert", "{", "}", "%", "$", "!", `\`, "w", "A", "%!", "$!m>0{", "\x80", " ") + s[i:]
			case 1:
				s = s[:i] + s[min(i+1, len(s)):]
			case 2:
				s = s[:i]
			default:
				j := kit.Int(c, "to", 0, len(s))
				if j > i {
					s = s[:j] + s[i:j] + s[j:]
				}
			}
		}
		return s
	}
}

func p31(c *kit.C) {
	w := &world{c: c}
	steps := kit.Size(c, "steps", 1, 4, 40)
	malformed := false
	for i := 0; i < steps; i++ {
		if kit.Int(c, "foreign", 0, 5) == 0 {
			w.foreign()
			continue
		}
		b := w.pick()
		m := drawParams(c)
		p := parse(soup(c, m))
		w.create(b, m, p)
	}
	if len(w.nodes) == 0 {
		c.Skip("nothing")
	}
	maps := w.passedMaps()
	for _, n := range w.nodes {
		w.judge(n, maps...)
		if n.prog != nil {
			malformed = malformed || n.prog.failed && len(n.prog.list) > 0 || n.prog.bad
		}
	}
	w.ensure()
	c.Case(malformed, "%s", w.log)
}

// p31missing has well-formed strings that refer to things that may be missing.
func p31missing(c *kit.C) {
	w := &world{c: c}
	steps := kit.Size(c, "steps", 1, 5, 40)
	for i := 0; i < steps; i++ {
		if kit.Int(c, "foreign", 0, 4) == 0 {
			w.foreign()
			continue
		}
		b := w.pick()
		m := drawParams(c)
		if kit.Int(c, "no parameters", 0, 2) == 0 {
			m = Map{}
		}
		p := &prog{list: drawExprs(c, m, 4, 0, 2)}
		if kit.Bool(c, "refer") {
			p.list = append(p.list, &expr{op: kit.Oneof[byte](c, "how", 'w', 'W')})
		}
		p.src = source(c, p.list)
		w.create(b, m, p)
	}
	if len(w.nodes) == 0 {
		c.Skip("nothing")
	}
	maps := w.passedMaps()
	differ := false
	for _, n := range w.nodes {
		w.judge(n, maps...)
		if n.prog != nil {
			differ = differ || n.check(nil, false) == wrong && n.check(nil, true) == good
		}
	}
	w.ensure()
	c.Case(differ, "%s", w.log)
}

// p31deep has deep nesting, complete or not.
func p31deep(c *kit.C) {
	n := kit.Oneof(c, "depth", 10, 100, 1000, 3000)
	open := kit.Oneof(c, "open", "%!m=0{", "$!m=0{", "%!m>0{", "%!m=0{a", "$!nonsense{")
	s := strings.Repeat(open, n) + kit.Oneof(c, "core", "", "core", "%v{A}", "%", "%lower{", "{", "%{lower}", "$w") + strings.Repeat("}", n+kit.Int(c, "surplus", -1, 1))
	p := parse(s)
	w := &world{c: c}
	w.create(nil, kit.Oneof(c, "data", Map{}, Map{"A": 1}), p)
	if len(w.nodes) == 0 {
		c.Skip("refused")
	}
	w.log = fmt.Sprintf("\n %d times %q then %q", n, open, s[len(open)*n:min(len(s), len(open)*n+10)])
	c.Case(p.failed || p.bad, "%s", w.log)
	w.judge(w.nodes[0], nil, Map{"B": 2})
}

func p31names(c *kit.C) {
	s := kit.Oneof(c, "name", append(append(append([]string{"", "A1", "Aé", "A٣", "A²", "Ⅷ", "Ａ", "İ", "Func", "A\x00"}, names...), badNames...), specials...)...)
	for n := kit.Int(c, "more", 0, 2); n > 0; n-- {
		s += string(rune(kit.Oneof(c, "range", 0, 0x80, 0x370, 0x2100, 0xff00, 0x1d400) + kit.Int(c, "rune", 0, 127)))
	}
	if !utf8.ValidString(s) {
		c.Skip("not a string of characters")
	}
	c.Case(utf8.RuneCountInString(s) > 1, "%q", s)
	want := validName(s)
	c.LabelIf(want, "valid")
	c.Check(ewd.ValidInterpolationName(s) == want, "ValidInterpolationName(%q) is %v", s, !want)
	if s == "" || selectors[s] {
		return
	}
	e := ewd.NewErrorWithData_any_params(nil, "%v{"+quote(c, s)+"}", ewd.ReplacePreviousData, s, 5)
	c.Check((e.ValidateError_Final() == nil) == want && (e.ValidateSyntax() == nil) == want, "a parameter named %q: %v", s, e.ValidateError_Final())
	c.Check((e.Error() == "5") == want, "a parameter named %q: %v", s, e)
}

func TestP30(t *testing.T) {
	kit.Run(t, kit.Sub{Name: "render", Quick: 24000, Fn: p30})
}

func TestP31(t *testing.T) {
	kit.Run(t,
		kit.Sub{Name: "malformed", Quick: 30000, Fn: p31},
		kit.Sub{Name: "missing", Quick: 16000, Fn: p31missing},
		kit.Sub{Name: "deep", Quick: 200, Fn: p31deep},
		kit.Sub{Name: "names", Quick: 8000, Fn: p31names})
}
