//go:build go1.23

package internals

import (
	"fmt"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

type (
	clOwn    struct{ v int }    // returns its own type
	clAny    struct{ v string } // returns any
	clFace   struct{ v int }    // returns another interface
	clNamed  struct{ v int }    // returns a named pointer type
	clValue  struct{ v int }    // method of the value
	clNone   struct{ v int }
	clArg    struct{ v int } // takes an argument
	clTwo    struct{ v int } // returns two values
	clOther  struct{ v int } // returns something else
	clNumber int             // not a struct
	clPtr    *clNamed
	visible  interface{ show() string }
)

func (x *clOwn) Clone() *clOwn         { y := *x; return &y }
func (x *clAny) Clone() any            { y := *x; return &y }
func (x *clFace) show() string         { return fmt.Sprint(x.v) }
func (x *clFace) Clone() visible       { y := *x; return &y }
func (x *clNamed) Clone() clPtr        { y := *x; return &y }
func (x clValue) Clone() *clValue      { return &x }
func (x *clArg) Clone(int) *clArg      { return x }
func (x *clTwo) Clone() (*clTwo, bool) { return x, true }
func (x *clOther) Clone() any          { return clOther{x.v} }
func (x *clNumber) Clone() any         { y := *x; return &y }

func p37clone(c *kit.C) {
	v := kit.Int(c, "v", -5, 5)
	how := kit.Int(c, "how", 0, 10)
	c.Case(true, "type %d, value %d", how, v)
	fails := func(f func()) {
		_, did := kit.Panics(f)
		c.Check(did, "type %d: Clone does not fail", how)
	}
	switch how {
	case 0:
		x := &clOwn{v}
		y := common.Clone(x)
		c.Check(y != x && *y == clOwn{v}, "clone of own type: %v", y)
		y.v++
		c.Check(x.v == v, "the clone is not independent")
	case 1:
		x := &clAny{fmt.Sprint(v)}
		y := common.Clone(x)
		c.Check(y != x && *y == *x, "clone as any: %v", y)
	case 2:
		x := &clFace{v}
		y := common.Clone(x)
		c.Check(y != x && *y == *x, "clone as an interface: %v", y)
	case 3: // of another type of pointer, which may be refused
		x := &clNamed{v}
		var y *clNamed
		if _, did := kit.Panics(func() { y = common.Clone(x) }); !did {
			c.Check(y != x && *y == *x, "clone as a named pointer: %v", y)
		}
	case 4:
		x := &clValue{v}
		y := common.Clone(x)
		c.Check(y != x && *y == *x, "clone by a method of the value: %v", y)
	case 5:
		fails(func() { common.Clone(&clNone{v}) })
	case 6:
		fails(func() { common.Clone(&clArg{v}) })
	case 7:
		fails(func() { common.Clone(&clTwo{v}) })
	case 8:
		fails(func() { common.Clone(&clOther{v}) })
	case 9:
		x := clNumber(v)
		y := common.Clone(&x)
		c.Check(y != &x && *y == x, "clone of a number: %v", y)
	case 10:
		p := curvePoints.SubgroupGenerator_xtw_subgroup
		q := common.Clone(&p)
		c.Check(q != &p && fmt.Sprint(q) == fmt.Sprint(p), "clone of a point: %v", q)
		q.DoubleEq()
		c.Check(fmt.Sprint(p) == fmt.Sprint(curvePoints.SubgroupGenerator_xtw_subgroup), "the clone of a point is not independent")
	}
	x := [2]int{v, 1}
	a := utils.AddressOfCopy(x)
	c.Check(a != &x && *a == x, "AddressOfCopy gives %v", *a)
}
