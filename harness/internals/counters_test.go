//go:build go1.23

package internals

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	cc "github.com/GottfriedHerold/Bandersnatch/internal/callcounters"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

// counter is the model of a call counter.
type counter struct {
	id       cc.Id
	created  bool
	ptr      *cc.CallCounter
	direct   int
	display  bool
	root     bool
	name     string
	parent   *counter
	children []*counter // without the implicit one
	rest     bool       // there is an implicit child for the difference
	adds     map[*counter]int
}

type registry struct {
	c   *kit.C
	m   map[cc.Id]*counter
	ids []cc.Id
	log string
}

var caseNo int

// get makes the model of a counter that is only referred to.
func (r *registry) get(id cc.Id) *counter {
	x := r.m[id]
	if x == nil {
		x = &counter{id: id, adds: map[*counter]int{}}
		r.m[id] = x
	}
	return x
}

func (x *counter) link(to *counter, w int) {
	x.adds[to] += w
}

// values computes what every counter holds: the increments of all counters, times the weights of all paths.
func (r *registry) values() map[*counter]int {
	val := map[*counter]int{}
	var flow func(x *counter, n int)
	flow = func(x *counter, n int) {
		val[x] += n
		for to, w := range x.adds {
			if w != 0 {
				flow(to, n*w)
			}
		}
	}
	for _, x := range r.m {
		flow(x, x.direct)
	}
	return val
}

func (x *counter) restValue(val map[*counter]int) int {
	n := val[x]
	for _, y := range x.children {
		n -= val[y]
	}
	return n
}

func (r *registry) pick(label string) cc.Id {
	return r.ids[kit.Int(r.c, label, 0, len(r.ids)-1)]
}

// pickPair gives two ids, the second one before the first one, so that there are no cycles.
func (r *registry) pickPair() (lo, hi cc.Id) {
	i := kit.Int(r.c, "from", 1, len(r.ids)-1)
	return r.ids[i], r.ids[kit.Int(r.c, "to", 0, i-1)]
}

func (r *registry) refuse(what string, f func()) {
	_, did := kit.Panics(f)
	r.c.Check(did, "%s: %s was accepted", r.log, what)
	r.c.Label("refused")
}

func (r *registry) op() {
	c := r.c
	name := func() string { return kit.Oneof(c, "name", "", "n1", "n2", "a name") }
	switch kit.Int(c, "op", 0, 15) {
	case 0, 1, 2: // create as child or root
		id, parent := r.pickPair()
		if kit.Int(c, "root", 0, 2) == 0 {
			id, parent = r.pick("id"), ""
		}
		n := name()
		r.log += fmt.Sprintf("\n hierarchical(%s, %q, %q)", id, n, parent)
		if r.get(id).created {
			r.refuse("creating a counter twice", func() { cc.CreateHierarchicalCallCounter(id, n, parent) })
			return
		}
		p := cc.CreateHierarchicalCallCounter(id, n, parent)
		r.made(id, p, n, true, parent == "", parent)
		if parent != "" {
			r.get(id).link(r.get(parent), 1)
		}
	case 3, 4: // create with all parameters
		id, parent := r.pickPair()
		if kit.Int(c, "no parent", 0, 2) == 0 {
			id, parent = r.pick("id"), ""
		}
		n, display, root := name(), kit.Int(c, "display", 0, 3) > 0, kit.Bool(c, "display root")
		r.log += fmt.Sprintf("\n new(%s, %q, %v, %q, %v)", id, n, display, parent, root)
		if r.get(id).created {
			r.refuse("creating a counter twice", func() { cc.CreateNewCallCounter(id, n, display, parent, root) })
			return
		}
		p := cc.CreateNewCallCounter(id, n, display, parent, root)
		r.made(id, p, n, display, root, parent)
	case 5: // create as child with difference
		id, parent := r.pickPair()
		if kit.Int(c, "no parent", 0, 3) == 0 {
			parent = ""
		}
		n := name()
		r.log += fmt.Sprintf("\n attached(%s, %q, %q)", id, n, parent)
		if r.get(id).created {
			r.refuse("creating a counter twice", func() { cc.CreateAttachedCallCounter(id, n, parent) })
			return
		}
		p := cc.CreateAttachedCallCounter(id, n, parent)
		r.made(id, p, n, true, false, parent)
		if parent != "" {
			r.get(parent).rest = true
		}
	case 6: // difference
		id := r.pick("id")
		on := kit.Bool(c, "on")
		x := r.get(id)
		r.log += fmt.Sprintf("\n %s.SetDisplayRemaining(%v)", id, on)
		if x.ptr != nil && kit.Bool(c, "pointer") {
			p := x.ptr.SetDisplayRemaining(on)
			c.Check(p == x.ptr, "%s returns another counter", r.log)
		} else {
			r.same(x, id.SetDisplayRemaining(on))
		}
		x.rest = on
	case 7, 8: // links
		from, to := r.pickPair()
		w := kit.Oneof(c, "weight", 1, -1, 2, -2, 0, 3)
		x, y := r.get(from), r.get(to)
		r.log += fmt.Sprintf("\n %s adds %d times to %s", from, w, to)
		switch k := kit.Int(c, "form", 0, 3); {
		case k == 0 && x.ptr != nil:
			r.same(x, x.ptr.AddThisToTarget(to, w))
		case k <= 1:
			r.same(x, from.AddThisToTarget(to, w))
		case k == 2 && y.ptr != nil:
			r.same(y, y.ptr.AddToThisFromSource(from, w))
		default:
			r.same(y, to.AddToThisFromSource(from, w))
		}
		x.link(y, w)
	case 9, 10, 11, 12: // increment
		id := r.pick("id")
		n := kit.Int(c, "times", 1, 4)
		r.log += fmt.Sprintf("\n %s += %d", id, n)
		if x := r.m[id]; x == nil || !x.created {
			r.refuse("incrementing a counter that does not exist", id.Increment)
			return
		}
		for i := 0; i < n; i++ {
			id.Increment()
		}
		r.m[id].direct += n
	case 13: // reset
		if kit.Bool(c, "all") {
			r.log += "\n reset all"
			cc.ResetAllCounters()
			for _, x := range r.m {
				x.direct = 0
			}
			return
		}
		id := r.pick("id")
		x := r.get(id)
		r.log += fmt.Sprintf("\n reset %s", id)
		if x.ptr != nil && kit.Bool(c, "pointer") {
			x.ptr.Reset()
		} else {
			id.Reset()
		}
		x.direct = 0
	case 14:
		r.log += "\n empty ids"
		for i, f := range []func(){func() { cc.CreateHierarchicalCallCounter("", "n", r.ids[0]) }, func() { cc.CreateNewCallCounter("", "n", true, "", true) }, func() { cc.Id("").Increment() },
			func() { cc.Id("").Get() }, func() { cc.Id("").SetDisplayRemaining(true) }, func() { cc.Id("").AddThisToTarget(r.ids[0], 1) }, func() { cc.Id("").AddToThisFromSource(r.ids[0], 1) }} {
			r.refuse(fmt.Sprint("an empty id, use ", i), f)
		}
		c.Check(!cc.Id("").Exists(), "the empty id exists")
	default:
		r.report(kit.Bool(c, "only positive"), kit.Bool(c, "names"))
	}
}

// made notes that a counter was created.
func (r *registry) made(id cc.Id, p *cc.CallCounter, name string, display, root bool, parent cc.Id) {
	x := r.get(id)
	x.created, x.display, x.root, x.name = true, display, root, name
	if name == "" {
		x.name = string(id)
	}
	r.same(x, p)
	if parent != "" {
		x.parent = r.get(parent)
		x.parent.children = append(x.parent.children, x)
	}
}

// same checks that the same id always has the same counter.
func (r *registry) same(x *counter, p *cc.CallCounter) {
	r.c.Check(p != nil && (x.ptr == nil || x.ptr == p), "%s: %s is another counter than before", r.log, x.id)
	x.ptr = p
}

func (r *registry) check() {
	c := r.c
	val := r.values()
	for _, id := range r.ids {
		x := r.m[id]
		c.Check(id.Exists() == (x != nil && x.created), "%s: %s exists: %v", r.log, id, id.Exists())
		if x != nil && x.ptr != nil {
			n, ok := x.ptr.Get()
			c.Check(n == val[x] && ok, "%s: %s has the value %d, %v by pointer instead of %d", r.log, id, n, ok, val[x])
		}
		n, ok := id.Get()
		if x == nil {
			c.Check(n == 0 && !ok, "%s: the counter %s that does not exist has the value %d, %v", r.log, id, n, ok)
			continue
		}
		c.Check(n == val[x] && (ok || !x.created), "%s: %s has the value %d, %v instead of %d", r.log, id, n, ok, val[x])
	}
}

// report checks ReportCallCounters: the counters below each display root, in any order of roots and children.
func (r *registry) report(positive, names bool) {
	c := r.c
	for _, x := range r.m { // the counters only referred to, too
		if x.ptr == nil {
			r.same(x, x.id.AddThisToTarget("zz", 0))
		}
	}
	val := r.values()
	list := cc.ReportCallCounters(positive, names)
	byPtr := map[*cc.CallCounter]*counter{}
	for _, x := range r.m {
		byPtr[x.ptr] = x
	}
	what := fmt.Sprintf("%s: report %v %v", r.log, positive, names)
	visible := func(x *counter) bool { return x.display && (!positive || val[x] != 0) }
	pos := 0
	var parse func(x *counter)
	parse = func(x *counter) {
		e := list[pos]
		pos++
		c.Check(e.Calls == val[x], "%s: %s has %d instead of %d", what, x.id, e.Calls, val[x])
		if x.created {
			want := string(x.id)
			if names {
				want = x.name
			}
			c.Check(e.Tag == want, "%s: %s is called %q instead of %q", what, x.id, e.Tag, want)
		}
		todo := map[*counter]bool{}
		for _, y := range x.children {
			if visible(y) {
				todo[y] = true
			}
		}
		rest := x.rest && (!positive || x.restValue(val) != 0)
		for len(todo) > 0 || rest {
			c.Check(pos < len(list), "%s: ends before the children of %s", what, x.id)
			e := list[pos]
			y := byPtr[e.CC]
			switch {
			case y != nil && todo[y]:
				delete(todo, y)
				parse(y)
			case y == nil && rest:
				rest = false
				pos++
				c.Check(e.Calls == x.restValue(val), "%s: the difference at %s is %d instead of %d", what, x.id, e.Calls, x.restValue(val))
				if n, ok := e.CC.Get(); true {
					c.Check(n == e.Calls && ok, "%s: the difference at %s is %d when asked", what, x.id, n)
				}
			default:
				c.Fatalf("%s: %q (%d) below %s", what, e.Tag, e.Calls, x.id)
			}
		}
	}
	seen := map[*counter]bool{}
	for pos < len(list) {
		x := byPtr[list[pos].CC]
		if x == nil {
			c.Check(!strings.HasPrefix(list[pos].Tag, prefixOf(r.ids[0])), "%s: lists %q", what, list[pos].Tag)
			pos++ // of another case
			continue
		}
		c.Check(!x.created || x.root && visible(x), "%s: %s is a root", what, x.id)
		c.Check(!seen[x], "%s: %s twice", what, x.id)
		seen[x] = true
		parse(x)
	}
	for _, x := range r.m {
		c.Check(!x.created || !x.root || !visible(x) || seen[x], "%s: %s is missing", what, x.id)
	}
}

func prefixOf(id cc.Id) string { s := string(id); return s[:strings.Index(s, ".")+1] }

// structure checks GetCallCounterStructureReport, if all counters were created.
func (r *registry) structure(indent string) {
	c := r.c
	for _, x := range r.m {
		if !x.created {
			return
		}
	}
	c.Label("structure")
	var want []string
	shown := map[*counter]bool{}
	var walk func(path string, x *counter, hidden bool)
	walk = func(path string, x *counter, hidden bool) {
		shown[x] = true
		s := string(x.id)
		if !x.display {
			s += " (hidden)"
		} else if hidden {
			s += " (recursively hidden)"
		}
		want = append(want, path+"/"+s)
		path += "/" + string(x.id)
		hidden = hidden || !x.display
		for _, y := range x.children {
			walk(path, y, hidden)
		}
		if x.rest {
			s := string(x.id) + "Other"
			if hidden {
				s += " (recursively hidden)"
			}
			want = append(want, path+"/"+s)
		}
	}
	for _, x := range r.m {
		if x.root {
			walk("", x, false)
		}
	}
	for _, x := range r.m {
		if !shown[x] {
			s := "unrooted/" + string(x.id)
			if !x.display {
				s += " (hidden)"
			}
			want = append(want, s)
		}
	}
	out := cc.GetCallCounterStructureReport(indent)
	c.Check(strings.HasSuffix(out, "\n") || out == "", "%s: the structure report does not end with a newline: %q", r.log, out)
	var got, path []string
	unrooted := false
	for _, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		depth := 0
		for strings.HasPrefix(line, indent) {
			line, depth = line[len(indent):], depth+1
		}
		if line == "Call counters not below any display root node" && depth == 0 {
			c.Check(!unrooted, "%s: two headings\n%s", r.log, out)
			unrooted = true
			continue
		}
		if !strings.HasPrefix(line, prefixOf(r.ids[0])) {
			path = nil
			continue // of another case
		}
		if unrooted {
			c.Check(depth == 1, "%s: depth %d\n%s", r.log, depth, out)
			got = append(got, "unrooted/"+line)
			continue
		}
		c.Check(depth <= len(path), "%s: depth %d below %q\n%s", r.log, depth, path, out)
		path = path[:depth]
		got = append(got, strings.Join(append([]string{""}, append(path, line)...), "/"))
		path = append(path, strings.SplitN(line, " ", 2)[0])
	}
	sort.Strings(got)
	sort.Strings(want)
	c.Check(fmt.Sprint(got) == fmt.Sprint(want), "%s: the structure report is\n%s\nwhich has %q\ninstead of %q", r.log, out, got, want)
}

func p35(c *kit.C) {
	forget()
	caseNo++
	r := &registry{c: c, m: map[cc.Id]*counter{}}
	alike := kit.Int(c, "alike", 0, 2) == 0
	for n := kit.Size(c, "ids", 2, 8, 40); n > 0; n-- {
		name := string(rune('a' + len(r.ids)%26))
		if len(r.ids) >= 8 {
			name += fmt.Sprint(len(r.ids))
		} else if alike {
			name = []string{"a", "A", "aa", "a.a", "a_b", "ä", "0", "00"}[len(r.ids)]
		}
		r.ids = append(r.ids, cc.Id(fmt.Sprintf("case%d.%s", caseNo, name)))
	}
	n := kit.Size(c, "steps", 1, 30, 200)
	for i := 0; i < n; i++ {
		r.op()
		if kit.Int(c, "check", 0, 3) == 0 {
			r.check()
		}
	}
	r.check()
	for i := 0; i < 4; i++ {
		r.report(i&1 == 0, i&2 == 0)
	}
	r.structure("##")
	r.check()
	// non-trivial: some counter gets increments over two links
	deep := false
	for _, x := range r.m {
		for y, w := range x.adds {
			for _, w2 := range y.adds {
				deep = deep || w != 0 && w2 != 0 && x.direct != 0
			}
		}
	}
	c.Case(deep, "%s", strings.ReplaceAll(r.log, prefixOf(r.ids[0]), ""))
}

func TestP35(t *testing.T) {
	n := 60000
	if !forgets { // all counters ever created are gone through for each value read
		n = 3600
	}
	kit.Run(t, kit.Sub{Name: "histories", Quick: n, Fn: p35})
}
