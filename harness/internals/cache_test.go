//go:build go1.23

package internals

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

type elem struct{ v uint64 }

type world36 struct {
	c       *kit.C
	log     string
	mu      sync.Mutex
	created map[int64]int
	fails   map[int64]int // creation of this element panics
	seq     map[int64][]uint64
}

// at gives the elements that are created for a key.
func (w *world36) at(key int64, n int) []uint64 {
	l := w.seq[key]
	if len(l) < n {
		r := rand.New(rand.NewSource(key ^ 0x55))
		l = nil
		for i := 0; i < n+20; i++ {
			l = append(l, r.Uint64()^uint64(key)<<56)
		}
		w.seq[key] = l
	}
	return l[:n]
}

func (w *world36) cache(yield bool) *testutils.PrecomputedCache[int64, *elem] {
	pc := testutils.MakePrecomputedCache(
		func(key int64) *rand.Rand { return rand.New(rand.NewSource(key ^ 0x55)) },
		func(r *rand.Rand, key int64) *elem {
			if yield {
				runtime.Gosched()
			}
			w.mu.Lock()
			k := w.created[key]
			f, fails := w.fails[key]
			if fails && f == k {
				delete(w.fails, key)
				w.mu.Unlock()
				panic("cannot create")
			}
			w.created[key] = k + 1
			w.mu.Unlock()
			return &elem{r.Uint64() ^ uint64(key)<<56}
		},
		func(e *elem) *elem {
			if yield {
				runtime.Gosched()
			}
			return &elem{e.v}
		})
	return &pc
}

// judge compares a result with the sequence that begins with pre.
func (w *world36) judge(what string, key int64, amount int, got []*elem, pre []uint64) string {
	if got == nil || len(got) != amount {
		return fmt.Sprintf("%s: %d elements (nil %v) instead of %d", what, len(got), got == nil, amount)
	}
	var own []uint64
	if amount > len(pre) {
		own = w.at(key, amount-len(pre))
	}
	for i, e := range got {
		want := uint64(0)
		if i < len(pre) {
			want = pre[i]
		} else {
			want = own[i-len(pre)]
		}
		if e == nil || e.v != want {
			return fmt.Sprintf("%s: element %d is %v instead of %x", what, i, e, want)
		}
	}
	return ""
}

func newWorld(c *kit.C) *world36 {
	return &world36{c: c, created: map[int64]int{}, fails: map[int64]int{}, seq: map[int64][]uint64{}}
}

// timely runs f, and fails if it is blocked.
func timely(c *kit.C, what string, f func()) {
	done := make(chan any, 1)
	go func() {
		v, did := kit.Panics(f)
		if did {
			done <- fmt.Sprintf("panic: %v", v)
		} else {
			done <- nil
		}
	}()
	select {
	case v := <-done:
		c.Check(v == nil, "%s: %v", what, v)
	case <-time.After(60 * time.Second):
		c.Fatalf("%s: blocked", what)
	}
}

// p36seq plays histories with one goroutine.
func p36seq(c *kit.C) {
	w := newWorld(c)
	pc := w.cache(false)
	pre := map[int64][]uint64{}
	exists := map[int64]bool{}
	most := map[int64]int{}
	requests := 0
	n := kit.Int(c, "steps", 1, 20)
	for i := 0; i < n; i++ {
		key := int64(kit.Int(c, "key", -1, 2))
		switch kit.Int(c, "op", 0, 7) {
		case 0: // prepopulate
			m := kit.Int(c, "entries", 0, 6)
			var in []*elem
			var vals []uint64
			for j := 0; j < m; j++ {
				v := uint64(i*100 + j)
				in, vals = append(in, &elem{v}), append(vals, v)
			}
			w.log += fmt.Sprintf(" prepopulate(%d, %d)", key, m)
			ok := !exists[key]
			timely(c, w.log, func() {
				_, did := kit.Panics(func() { pc.PrepopulateCache(key, in) })
				if did == ok {
					panic(fmt.Sprint("panic ", did))
				}
			})
			if ok {
				pre[key], exists[key] = vals, true
			}
			for j := range in { // what was passed is not kept
				in[j].v = 0xBAD
				in[j] = nil
			}
		case 1: // a failure
			w.fails[key] = w.created[key] + kit.Int(c, "after", 0, 3)
			w.log += fmt.Sprintf(" fail(%d)", key)
		default:
			amount := kit.Oneof(c, "amount", 0, 1, 2, 3, 5, 8, 13, 40, 40+i*i)
			w.log += fmt.Sprintf(" get(%d, %d)", key, amount)
			need := amount - len(pre[key])
			f, fails := w.fails[key]
			fails = fails && f < need && need > w.created[key]
			timely(c, w.log, func() {
				var got []*elem
				val, did := kit.Panics(func() { got = pc.GetElements(key, amount) })
				if did != fails {
					panic(fmt.Sprint("panic ", did, val))
				}
				if did {
					return
				}
				if s := w.judge("get", key, amount, got, pre[key]); s != "" {
					panic(s)
				}
				for j := range got { // the result is private
					got[j].v ^= 0xBAD
					got[j] = nil
				}
			})
			if amount > 0 {
				exists[key] = true
				requests++
			}
			if fails {
				c.Label("failed creation")
				most[key] = max(most[key], f)
				continue
			}
			most[key] = max(most[key], need)
			c.LabelIf(w.created[key] == most[key], "created as needed")
		}
	}
	c.Case(requests >= 2, "%s", w.log)
}

type request struct {
	key    int64
	amount int
	pre    []uint64 // prepopulate with these instead
	failed bool
	got    []*elem
	vals   []elem
}

// p36conc has requests run by several goroutines.
func p36conc(c *kit.C) {
	w := newWorld(c)
	pc := w.cache(true)
	keys := kit.Int(c, "keys", 1, 3)
	var plan [][]*request
	total := 0
	for g := kit.Int(c, "goroutines", 2, 8); g > 0; g-- {
		var l []*request
		for n := kit.Int(c, "requests", 1, 6); n > 0; n-- {
			r := &request{key: int64(kit.Int(c, "key", 0, keys-1)), amount: kit.Int(c, "amount", 0, 12)}
			if kit.Int(c, "prepopulate", 0, 7) == 0 {
				r.pre = []uint64{}
				for j := kit.Int(c, "entries", 0, 4); j > 0; j-- {
					r.pre = append(r.pre, uint64(1000*len(plan)+100*len(l)+j))
				}
				w.log += fmt.Sprintf(" pre(%d, %d)", r.key, len(r.pre))
			} else {
				w.log += fmt.Sprintf(" get(%d, %d)", r.key, r.amount)
			}
			l = append(l, r)
			total++
		}
		plan = append(plan, l)
		w.log += ";"
	}
	c.Case(total >= 4, "%s", w.log)
	timely(c, w.log, func() {
		var start, done sync.WaitGroup
		start.Add(1)
		for _, l := range plan {
			done.Add(1)
			go func() {
				defer done.Done()
				start.Wait()
				for _, r := range l {
					if r.pre != nil {
						var in []*elem
						for _, v := range r.pre {
							in = append(in, &elem{v})
						}
						_, r.failed = kit.Panics(func() { pc.PrepopulateCache(r.key, in) })
						for i := range in {
							in[i].v = 0xBAD
						}
						continue
					}
					_, r.failed = kit.Panics(func() { r.got = pc.GetElements(r.key, r.amount) })
					for i, e := range r.got { // written while others read
						r.vals = append(r.vals, *e)
						e.v = 0xBAD
						r.got[i] = nil
					}
				}
			}()
		}
		start.Done()
		done.Wait()
	})
	winner := map[int64]*request{}
	asked := map[int64]bool{}
	for _, l := range plan {
		for _, r := range l {
			if r.pre != nil && !r.failed {
				c.Check(winner[r.key] == nil, "%s: key %d was prepopulated twice", w.log, r.key)
				winner[r.key] = r
				c.Label("prepopulated")
			}
			asked[r.key] = asked[r.key] || r.pre == nil && r.amount > 0
		}
	}
	most := map[int64]int{}
	for g, l := range plan {
		for i, r := range l {
			if r.pre != nil {
				c.Check(!r.failed || asked[r.key] || winner[r.key] != nil, "%s: prepopulating the unused key %d was refused", w.log, r.key)
				continue
			}
			c.Check(!r.failed && r.got != nil, "%s: request %d of goroutine %d failed", w.log, i, g)
			var pre []uint64
			if x := winner[r.key]; x != nil {
				pre = x.pre
			}
			most[r.key] = max(most[r.key], r.amount-len(pre))
			back := make([]*elem, len(r.vals))
			for j := range r.vals {
				back[j] = &r.vals[j]
			}
			s := w.judge(fmt.Sprintf("request %d of goroutine %d", i, g), r.key, r.amount, back, pre)
			c.Check(s == "", "%s: %s", w.log, s)
		}
	}
	for k, n := range most {
		c.LabelIf(w.created[k] == n, "created as needed")
	}
}

// p36forms has the variants with functions left out.
func p36forms(c *kit.C) {
	seed := int64(kit.U64(c, "seed"))
	n, m := kit.Int(c, "n", 0, 30), kit.Int(c, "m", 0, 30)
	c.Case(n > 0 && m > 0, "seed %x, %d and %d elements", seed, n, m)
	pc := testutils.MakePrecomputedCache(testutils.DefaultCreateRandFromSeed, func(r *rand.Rand, k int64) uint64 { return r.Uint64() }, nil)
	r := rand.New(rand.NewSource(seed))
	var want []uint64
	for i := 0; i < 30; i++ {
		want = append(want, r.Uint64())
	}
	for _, k := range []int{n, m, n} {
		got := pc.GetElements(seed, k)
		c.Check(got != nil && len(got) == k, "%d elements instead of %d", len(got), k)
		for i := range got {
			c.Check(got[i] == want[i], "element %d is %x instead of %x", i, got[i], want[i])
			got[i] = 0
		}
	}
	// without random generator
	count := 0
	pc2 := testutils.MakePrecomputedCache(nil, func(r *rand.Rand, k string) int {
		if r != nil {
			panic("generator")
		}
		count++
		return count
	}, nil)
	got := pc2.GetElements("k", n)
	for i := range got {
		c.Check(got[i] == i+1, "element %d is %d", i, got[i])
	}
	// without creation: only what was prepopulated
	pc3 := testutils.MakePrecomputedCache[string, int](nil, nil, nil)
	list := make([]int, n)
	for i := range list {
		list[i] = i * 7
	}
	pc3.PrepopulateCache("k", list)
	for try := 0; try < 2; try++ {
		timely(c, "prepopulated without creation", func() {
			var got []int
			val, did := kit.Panics(func() { got = pc3.GetElements("k", m) })
			if did != (m > n) {
				panic(fmt.Sprintf("%d of %d: panic %v %v", m, n, did, val))
			}
			for i := range got {
				if got[i] != i*7 {
					panic("wrong element")
				}
			}
			if got := pc3.GetElements("k", n); len(got) != n {
				panic("length")
			}
		})
	}
}

// keyed plays requests for keys of any type; the keys given are distinct.
func keyed[K comparable](c *kit.C, name string, keys []K) {
	index := map[K]int{}
	for i, k := range keys {
		index[k] = i + 1
	}
	c.Check(len(index) == len(keys), "VERIF-HARNESS keys of %s", name)
	source := func(k K) *rand.Rand { return rand.New(rand.NewSource(int64(index[k]))) }
	pc := testutils.MakePrecomputedCache(source, func(r *rand.Rand, k K) uint64 { return r.Uint64() ^ uint64(index[k])<<50 }, nil)
	most := kit.Oneof(c, "most", 1, 2, 5, 40)
	if kit.Int(c, "long", 0, 40) == 0 {
		most = kit.Oneof(c, "longmost", 500, 1100, 3000, 5000)
	}
	log := fmt.Sprintf("%s %#v:", name, keys)
	used, pre, seq := map[int]bool{}, map[int][]uint64{}, map[int][]uint64{}
	for n := kit.Int(c, "steps", 1, 12); n > 0; n-- {
		i := kit.Int(c, "which", 0, len(keys)-1)
		k := keys[i]
		if !used[i] && kit.Int(c, "prepopulate", 0, 4) == 0 {
			l := make([]uint64, kit.Int(c, "entries", 0, 3))
			for j := range l {
				l[j] = uint64(i*10 + j)
			}
			log += fmt.Sprintf(" pre(%d, %d)", i, len(l))
			timely(c, log, func() { pc.PrepopulateCache(k, l) })
			pre[i], used[i] = l, true
			continue
		}
		amount := kit.Int(c, "amount", 0, most)
		log += fmt.Sprintf(" get(%d, %d)", i, amount)
		var got []uint64
		timely(c, log, func() { got = pc.GetElements(k, amount) })
		c.Check(len(got) == amount, "%s: %d elements", log, len(got))
		used[i] = used[i] || amount > 0
		if need := amount - len(pre[i]); need > len(seq[i]) {
			r := source(k)
			seq[i] = nil
			for len(seq[i]) < need+100 {
				seq[i] = append(seq[i], r.Uint64()^uint64(i+1)<<50)
			}
		}
		for j, v := range got {
			want := uint64(0)
			if j < len(pre[i]) {
				want = pre[i][j]
			} else {
				want = seq[i][j-len(pre[i])]
			}
			c.Check(v == want, "%s: element %d is %x instead of %x", log, j, v, want)
			got[j] = ^v
		}
	}
	c.Case(len(used) >= 2, "%s", log)
	c.LabelIf(most >= 500, "long")
}

type key36 struct {
	a, b string
	n    int8
}

type verbose36 int // prints the same for all values

func (verbose36) String() string { return "key" }

// pick draws some of the values.
func pick[K any](c *kit.C, vals ...K) []K {
	n := kit.Int(c, "keys", 1, 4)
	var l []K
	from := kit.Int(c, "from", 0, len(vals)-1)
	for i := 0; i < n && i < len(vals); i++ {
		l = append(l, vals[(from+i)%len(vals)])
	}
	return l
}

// p36keys has keys of many types, different but alike.
func p36keys(c *kit.C) {
	switch kit.Int(c, "type", 0, 6) {
	case 0:
		keyed(c, "integers", pick(c, 0, 1<<32, 1<<32+1, -1, 1, 1<<31-1, 1<<63-1, -1<<63, 1<<31, -1<<31))
	case 1:
		keyed(c, "strings", pick(c, "", " ", "a", "A", "a ", " a", "\x00", "\x00\x00", "a\x00", "0", "00", "\u00e9", "e\u0301", "a,b", "a b"))
	case 2:
		keyed(c, "structs", pick(c, key36{"a b", "c", 0}, key36{"a", "b c", 0}, key36{"a b c", "", 0}, key36{"", "a b c", 0}, key36{}, key36{"", "", 1}, key36{" ", "", 1}, key36{"", " ", 1}))
	case 3:
		keyed(c, "any", pick[any](c, 1, int64(1), "1", uint8(1), 1.0, true, "true", nil, "<nil>", [1]int{1}, "[1]", key36{}, verbose36(1), verbose36(2), "key"))
	case 4:
		keyed(c, "arrays", pick(c, [3]uint8{1, 2, 3}, [3]uint8{1, 2}, [3]uint8{0, 1, 2}, [3]uint8{12, 3}, [3]uint8{}, [3]uint8{255, 255, 255}))
	case 5:
		keyed(c, "floats", pick(c, 0.0, 1e-320, 1, 1+1e-15, -1, 1e308, 0.1, 0.30000000000000004, 0.3))
	default:
		keyed(c, "printing alike", pick(c, verbose36(0), 1, 2, 3))
	}
}

func TestP36(t *testing.T) {
	kit.Run(t, kit.Sub{Name: "sequential", Quick: 8000, Fn: p36seq}, kit.Sub{Name: "concurrent", Quick: 6000, Fn: p36conc}, kit.Sub{Name: "forms", Quick: 2000, Fn: p36forms}, kit.Sub{Name: "keys", Quick: 4000, Fn: p36keys})
}
