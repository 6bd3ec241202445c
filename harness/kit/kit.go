//go:build go1.23

// Package kit is the glue between the generated-input checks and run.py: it runs the sub-checks of a property
// with rapid under seeds derived from VERIF_SEED, counts what was generated, and writes a fragment of the evidence.
package kit

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/GottfriedHerold/Bandersnatch/zz_verif/rapid"
)

// Sub is one sub-check of a property.
type Sub struct {
	Name  string
	Quick int // cases generated in the quick tier, over all shards
	Fn    func(c *C)
}

// C is what a sub-check gets: rapid's T and the bookkeeping for the evidence.
type C struct {
	*rapid.T
	st *subStat
}

type subStat struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Rounds      int            `json:"rounds"`
	Failed      bool           `json:"failed"`
	Seed        uint64         `json:"seed"`
	Checks      int            `json:"checks"`
	hashes      map[uint64]struct{}
	nextSample  int
}

var (
	caseStart atomic.Int64
	current   atomic.Pointer[subStat]
)

const (
	hashCap     = 400000
	caseTimeout = 150 * time.Second
	memCap      = 3 << 30
)

// Case records a generated case: key identifies the input, nontrivial says whether it counts by the rule.
func (c *C) Case(nontrivial bool, format string, args ...any) {
	st := c.st
	st.Evaluations++
	sample := st.Evaluations >= st.nextSample && len(st.Samples) < 6
	if !nontrivial && !sample {
		return
	}
	key := fmt.Sprintf(format, args...)
	if nontrivial {
		st.Nontrivial++
		if len(st.hashes) < hashCap {
			h := fnv.New64a()
			h.Write([]byte(st.Name))
			h.Write([]byte{0})
			h.Write([]byte(key))
			st.hashes[h.Sum64()] = struct{}{}
		}
	}
	if sample {
		if len(key) > 600 {
			key = key[:600] + "..."
		}
		st.Samples = append(st.Samples, key)
		st.nextSample = st.nextSample*7 + 3
	}
}

// Label counts a class of cases.
func (c *C) Label(l string) { c.st.Labels[l]++ }

// LabelIf counts a class of cases conditionally.
func (c *C) LabelIf(cond bool, l string) {
	if cond {
		c.st.Labels[l]++
	}
}

// Check fails the case unless cond holds.
func (c *C) Check(cond bool, format string, args ...any) {
	if !cond {
		c.Fatalf(format, args...)
	}
}

func envInt(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			panic(err)
		}
		return n
	}
	return def
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func seedFor(name string, shard, round int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(name))
	s := mix(mix(mix(uint64(int64(envInt("VERIF_SEED", 1))))^h.Sum64()) ^ uint64(shard)<<32 ^ uint64(round))
	s >>= 1 // leave room for rapid's increments
	if s == 0 {
		s = 1
	}
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func watchdog() {
	tick := 0
	for {
		time.Sleep(500 * time.Millisecond)
		tick++
		st := current.Load()
		start := caseStart.Load()
		if st == nil || start == 0 {
			continue
		}
		code := 0
		if time.Since(time.Unix(0, start)) > caseTimeout {
			code = 77
		} else if tick%2 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memCap {
				code = 78
			}
		}
		if code != 0 {
			fmt.Printf("VERIF-STUCK code=%d sub=%s seed=%d checks=%d case=%d\n", code, st.Name, st.Seed, st.Checks, st.Evaluations)
			buf := make([]byte, 1<<16)
			os.Stdout.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(code)
		}
	}
}

// Run runs the sub-checks. The environment says how: VERIF_TIER, VERIF_SEED, VERIF_SHARD, VERIF_SHARDS,
// VERIF_BUDGET (seconds, of this process), VERIF_OUT (directory), VERIF_ONLY (a sub-check), VERIF_REPLAY_SEED, VERIF_REPLAY_CHECKS.
func Run(t *testing.T, subs ...Sub) {
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	budget := time.Duration(envInt("VERIF_BUDGET", 200)) * time.Second
	out, only := os.Getenv("VERIF_OUT"), os.Getenv("VERIF_ONLY")
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		must(err)
		scale = f
	}
	start := time.Now()
	go watchdog()

	stats := make([]*subStat, len(subs))
	for i, s := range subs {
		stats[i] = &subStat{Name: s.Name, Labels: map[string]int{}, hashes: map[uint64]struct{}{}, nextSample: 1}
	}
	defer func() { writeFragment(out, shard, stats) }()

	perShard := func(s Sub) int {
		n := int(float64(s.Quick)*scale) / shards
		if n < 1 {
			n = 1
		}
		return n
	}
	runOne := func(i, round, checks int) bool {
		s, st := subs[i], stats[i]
		st.Rounds++
		st.Seed, st.Checks = seedFor(s.Name, shard, round), checks
		if rs := os.Getenv("VERIF_REPLAY_SEED"); rs != "" {
			v, err := strconv.ParseUint(rs, 10, 64)
			must(err)
			st.Seed, st.Checks = v, envInt("VERIF_REPLAY_CHECKS", checks)
		}
		must(flag.Set("rapid.seed", strconv.FormatUint(st.Seed, 10)))
		must(flag.Set("rapid.checks", strconv.Itoa(st.Checks)))
		current.Store(st)
		ok := t.Run(s.Name, func(t *testing.T) {
			rapid.Check(t, func(rt *rapid.T) {
				caseStart.Store(time.Now().UnixNano())
				defer caseStart.Store(0)
				s.Fn(&C{rt, st})
			})
		})
		if !ok {
			st.Failed = true
			fmt.Printf("VERIF-FAILED sub=%s seed=%d checks=%d\n", s.Name, st.Seed, st.Checks)
		}
		return ok
	}
	for round := 0; ; round++ {
		for i, s := range subs {
			if only != "" && only != s.Name {
				continue
			}
			n := perShard(s)
			if round > 0 { // later rounds are finer, so that the budget is respected
				n = (n + 3) / 4
			}
			// chunks, so that a slow machine ends the run early rather than late
			for chunk := 0; n > 0; chunk++ {
				k := (perShard(s) + 7) / 8
				if k > n {
					k = n
				}
				n -= k
				if time.Since(start) > budget {
					if !thorough {
						fmt.Printf("VERIF-BUDGET sub=%s skipped=%d\n", s.Name, n+k)
					}
					return
				}
				if !runOne(i, round*16+chunk, k) {
					return
				}
			}
		}
		if !thorough {
			return
		}
	}
}

func writeFragment(out string, shard int, stats []*subStat) {
	if out == "" {
		return
	}
	var hs []byte
	for _, st := range stats {
		l := make([]uint64, 0, len(st.hashes))
		for h := range st.hashes {
			l = append(l, h)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		for _, h := range l {
			hs = binary.LittleEndian.AppendUint64(hs, h)
		}
	}
	must(os.WriteFile(filepath.Join(out, fmt.Sprintf("hashes.%d", shard)), hs, 0o644))
	js, err := json.Marshal(stats)
	must(err)
	must(os.WriteFile(filepath.Join(out, fmt.Sprintf("frag.%d.json", shard)), js, 0o644))
}

// Oneof draws one of the given values.
func Oneof[T any](c *C, label string, vals ...T) T { return rapid.SampledFrom(vals).Draw(c.T, label) }

// Int draws an int in [lo, hi].
func Int(c *C, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, label) }

// Size draws a length from lo..hi, and now and then (in about one of 50 cases) one of up to big.
func Size(c *C, label string, lo, hi, big int) int {
	if r := rapid.IntRange(0, 127).Draw(c.T, label+" large"); r == 77 || r == 99 {
		c.Label("long " + label)
		return rapid.IntRange(hi, big).Draw(c.T, label)
	}
	return rapid.IntRange(lo, hi).Draw(c.T, label)
}

// Bool draws a bool.
func Bool(c *C, label string) bool { return rapid.Bool().Draw(c.T, label) }

// U64 draws an (unbiased) uint64.
func U64(c *C, label string) uint64 {
	hi := rapid.Uint32Range(0, 1<<32-1).Draw(c.T, label)
	lo := rapid.Uint32Range(0, 1<<32-1).Draw(c.T, label)
	return mix(uint64(hi)<<32 | uint64(lo))
}

// Panics runs f and returns what it panicked with.
func Panics(f func()) (val any, did bool) {
	did = true
	defer func() {
		if did {
			val = recover()
			if n := fmt.Sprintf("%T", val); n == "rapid.stopTest" || n == "rapid.invalidData" {
				panic(val) // a failing check inside f, not a panic of the code under test
			}
		}
	}()
	f()
	return nil, false
}

// GoodMessage checks that an error of the library has a message without any diagnostic, and that its own validation functions find nothing wrong with it.
func (c *C) GoodMessage(err error, format string, args ...any) {
	desc := fmt.Sprintf(format, args...)
	s := err.Error()
	c.Check(s != "" && !strings.Contains(s, "PARSE-ERROR") && !strings.Contains(s, "<missing value>") && !strings.Contains(s, "INVALID CONDITION"), "%s: bad message %q", desc, s)
	if v, ok := err.(interface {
		ValidateSyntax() error
		ValidateError_Final() error
	}); ok {
		c.Check(v.ValidateSyntax() == nil && v.ValidateError_Final() == nil, "%s: the error is not valid: %v, %v (message %q)", desc, v.ValidateSyntax(), v.ValidateError_Final(), s)
	}
}
