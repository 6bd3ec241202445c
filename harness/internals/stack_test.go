//go:build go1.23

// Package internals checks the supporting packages: stack, call counters, precomputed sequences, helpers and faulty streams.
package internals

import (
	"fmt"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/internal/stack"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

type wide struct {
	a, b int
	s    string
	x    [5]int
}

// stackHistory plays the same operations on stacks and on lists.
func stackHistory[T comparable](c *kit.C, name string, gen func(int) T) {
	type reg struct {
		st   *stack.Stack[T]
		list []T
	}
	var regs []*reg
	var refs []*T // references to elements, some of which have been removed or moved since
	for n := kit.Int(c, "stacks", 1, 3); n > 0; n-- {
		r := &reg{}
		switch kit.Int(c, "make", 0, 2) {
		case 0:
			s := stack.MakeStack[T]()
			r.st = &s
		case 1:
			r.st = stack.NewStack[T]()
		default:
			var s stack.Stack[T]
			r.st = &s
		}
		regs = append(regs, r)
	}
	log, next, grown, shrunk := "", 0, 0, 0
	fresh := func() T { next++; return gen(next) }
	n := kit.Int(c, "steps", 1, 40)
	for i := 0; i < n; i++ {
		r := regs[kit.Int(c, "stack", 0, len(regs)-1)]
		l := len(r.list)
		switch k := kit.Int(c, "op", 0, 11); k {
		case 0, 1:
			v := fresh()
			r.st.Push(v)
			r.list = append(r.list, v)
			log += " push"
			grown++
		case 2:
			v := fresh()
			w := v
			r.st.PushPtr(&w)
			w = fresh()
			r.list = append(r.list, v)
			log += " pushptr"
			grown++
		case 3, 4:
			log += " pop"
			var v T
			val, did := kit.Panics(func() { v = r.st.Pop() })
			if l == 0 {
				c.Check(did && val != nil, "%s:%s returned %v from the empty stack", name, log, v)
				c.Label("empty")
				break
			}
			c.Check(!did && v == r.list[l-1], "%s:%s gives %v (panic %v) instead of %v", name, log, v, val, r.list[l-1])
			r.list = r.list[:l-1]
			shrunk++
		case 5:
			log += " top"
			var p *T
			val, did := kit.Panics(func() { p = r.st.Top() })
			if l == 0 {
				c.Check(did && val != nil, "%s:%s of the empty stack", name, log)
				c.Label("empty")
				break
			}
			c.Check(!did && *p == r.list[l-1], "%s:%s gives %v (panic %v) instead of %v", name, log, p, val, r.list[l-1])
			if kit.Bool(c, "modify") {
				v := fresh()
				*p, r.list[l-1] = v, v
			}
			refs = append(refs, p)
		case 6, 7:
			pos := kit.Int(c, "pos", -2, l+1)
			if k == 7 && l > 0 {
				pos = kit.Int(c, "pos", 0, l-1)
			}
			log += fmt.Sprintf(" peek(%d)", pos)
			var p *T
			val, did := kit.Panics(func() { p = r.st.Peek(pos) })
			if pos < 0 || pos >= l {
				c.Check(did && val != nil, "%s:%s of %d elements", name, log, l)
				c.Label("outside")
				break
			}
			c.Check(!did && *p == r.list[l-1-pos], "%s:%s gives %v (panic %v) instead of %v", name, log, p, val, r.list[l-1-pos])
			if kit.Bool(c, "modify") {
				v := fresh()
				*p, r.list[l-1-pos] = v, v
			}
			refs = append(refs, p)
		case 8: // grow
			m := kit.Int(c, "many", 1, 300)
			if kit.Int(c, "very", 0, 30) == 0 {
				m = kit.Oneof(c, "verymany", 511, 512, 1023, 1024, 1025, 2000, 4096, 5000)
			}
			log += fmt.Sprintf(" push*%d", m)
			for ; m > 0; m-- {
				v := fresh()
				r.st.Push(v)
				r.list = append(r.list, v)
			}
			grown++
		case 9: // shrink
			m := kit.Int(c, "many", 0, l)
			log += fmt.Sprintf(" pop*%d", m)
			for ; m > 0; m-- {
				want := r.list[len(r.list)-1]
				v := r.st.Pop()
				c.Check(v == want, "%s:%s gives %v instead of %v", name, log, v, want)
				r.list = r.list[:len(r.list)-1]
			}
			shrunk++
		case 10: // what a reference refers to now, wherever it comes from
			if len(refs) == 0 {
				break
			}
			p := refs[kit.Int(c, "ref", 0, len(refs)-1)]
			v := *p
			r.st.PushPtr(p)
			r.list = append(r.list, v)
			log += " pushref"
			c.Label("reference to an element")
			grown++
		default: // everything, from the top
			for j := range r.list {
				v := *r.st.Peek(j)
				c.Check(v == r.list[l-1-j], "%s:%s: element %d from the top is %v instead of %v", name, log, j, v, r.list[l-1-j])
			}
		}
		for _, r := range regs {
			c.Check(r.st.Len() == len(r.list), "%s:%s: length %d instead of %d", name, log, r.st.Len(), len(r.list))
			c.Check(r.st.IsEmpty() == (len(r.list) == 0), "%s:%s: IsEmpty", name, log)
		}
	}
	for _, r := range regs {
		for j := len(r.list) - 1; j >= 0; j-- {
			v := r.st.Pop()
			c.Check(v == r.list[j], "%s:%s: in the end, element %d is %v instead of %v", name, log, j, v, r.list[j])
		}
		c.Check(r.st.IsEmpty(), "%s:%s: not empty in the end", name, log)
	}
	c.Case(grown >= 2 && shrunk >= 1, "%s %d:%s", name, len(regs), log)
}

func TestP34(t *testing.T) {
	kit.Run(t, kit.Sub{Name: "histories", Quick: 16000, Fn: func(c *kit.C) {
		switch kit.Int(c, "type", 0, 5) {
		case 0:
			stackHistory(c, "int", func(i int) int { return i })
		case 1:
			stackHistory(c, "string", func(i int) string { return fmt.Sprint(i) })
		case 2:
			stackHistory(c, "pointer", func(i int) *int { return &i })
		case 3:
			stackHistory(c, "struct", func(i int) wide { return wide{a: i, s: fmt.Sprint(-i), x: [5]int{4: i}} })
		case 4:
			stackHistory(c, "any", func(i int) any {
				if i%2 == 0 {
					return i
				}
				return fmt.Sprint(i)
			})
		default:
			stackHistory(c, "byte", func(i int) byte { return byte(i) })
		}
	}})
}
