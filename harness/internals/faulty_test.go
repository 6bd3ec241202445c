//go:build go1.23

package internals

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

var designated = []error{errors.New("designated"), io.EOF, io.ErrUnexpectedEOF, &myErr{"my"}, fmt.Errorf("wrapped %w", io.ErrClosedPipe)}

func p38(c *kit.C) {
	thr := kit.Oneof(c, "threshold", 0, 1, 2, 3, 7, 8, 20, 64, 100, 512, 600, 5000)
	e := kit.Oneof(c, "error", designated...)
	b := testutils.NewFaultyBuffer(thr, e)
	var content []byte // what is in the buffer, unread
	var nr, nw int
	var failedR, failedW bool
	log := fmt.Sprintf("threshold %d:", thr)
	next := byte(0)
	draw := func(n int) []byte {
		r := make([]byte, n)
		for i := range r {
			next++
			r[i] = next
		}
		return r
	}
	faults := 0
	for n := kit.Size(c, "steps", 1, 30, 200); n > 0; n-- {
		size := kit.Size(c, "size", 0, 24, 5000)
		if thr > 100 {
			size *= kit.Oneof(c, "times", 1, 10, 43, 100)
		}
		switch kit.Int(c, "near", 0, 3) {
		case 0:
			size = max(0, thr-nr+kit.Int(c, "off", -1, 1))
		case 1:
			size = max(0, thr-nw+kit.Int(c, "off", -1, 1))
		}
		switch kit.Int(c, "op", 0, 9) {
		case 0, 1, 2, 3: // read
			p := bytes.Repeat([]byte{0xAA}, size+3)
			log += fmt.Sprintf(" read(%d)", size)
			got, err := b.Read(p[:size])
			limit := thr - nr
			want, wantErr := 0, error(nil)
			switch {
			case size == 0:
			case failedR:
				c.Check(got == 0 && err != nil && errors.Is(err, e), "%s: %d, %v after the fault", log, got, err)
				wantErr = err
			case size > limit && (limit == 0 || len(content) >= limit):
				want, wantErr, failedR = limit, e, true
				faults++
			case len(content) == 0:
				wantErr = io.EOF
			default:
				want = min(size, len(content))
			}
			c.Check(got == want && err == wantErr, "%s gives %d, %v instead of %d, %v", log, got, err, want, wantErr)
			c.Check(bytes.Equal(p[:want], content[:want]), "%s gives % x instead of % x", log, p[:want], content[:want])
			for _, x := range p[size:] {
				c.Check(x == 0xAA, "%s wrote beyond what was asked for", log)
			}
			content = content[want:]
			nr += want
		case 4, 5, 6, 7: // write
			p := draw(size)
			log += fmt.Sprintf(" write(%d)", size)
			q := append([]byte{}, p...)
			got, err := b.Write(q)
			c.Check(bytes.Equal(p, q), "%s changed its argument", log)
			for i := range q {
				q[i] = 0xEE
			}
			limit := thr - nw
			want, wantErr := size, error(nil)
			switch {
			case size == 0:
			case failedW:
				c.Check(got == 0 && err != nil && errors.Is(err, e), "%s: %d, %v after the fault", log, got, err)
				want, wantErr = 0, err
			case size > limit:
				want, wantErr, failedW = limit, e, true
				faults++
			}
			c.Check(got == want && err == wantErr, "%s gives %d, %v instead of %d, %v", log, got, err, want, wantErr)
			content = append(content[:len(content):len(content)], p[:want]...)
			nw += want
		case 8:
			log += " reset"
			b.Reset()
			content, nr, nw, failedR, failedW = nil, 0, 0, false, false
		default:
			log += fmt.Sprintf(" set(%d)", size)
			p := draw(size)
			q := append([]byte{}, p...)
			b.SetContent(q)
			for i := range q {
				q[i] = 0xEE
			}
			content, nr, nw, failedR, failedW = p, 0, 0, false, false
		}
		c.Check(bytes.Equal(b.Bytes(), content), "%s: contains % x instead of % x", log, b.Bytes(), content)
	}
	c.Case(faults >= 1, "%s", log)
	c.LabelIf(faults >= 2, "two faults")
}

// p38stream uses the buffer through the functions of io.
func p38stream(c *kit.C) {
	thr := kit.Size(c, "threshold", 0, 40, 5000)
	size := kit.Size(c, "content", 0, 60, 5000)
	want := kit.Size(c, "wanted", 0, 60, 5000)
	e := designated[kit.Oneof(c, "error", 0, 3)]
	b := testutils.NewFaultyBuffer(thr, e)
	p := make([]byte, size)
	for i := range p {
		p[i] = byte(i + 1)
	}
	b.SetContent(p)
	c.Case(thr < size && want > thr || size > thr, "threshold %d, %d bytes, read %d", thr, size, want)
	q := make([]byte, want)
	n, err := io.ReadFull(b, q)
	m := min(want, size, thr)
	c.Check(n == m && bytes.Equal(q[:n], p[:m]), "ReadFull gives %d bytes", n)
	switch {
	case want <= min(size, thr):
		c.Check(err == nil, "ReadFull: %v", err)
	case thr <= size:
		c.Check(errors.Is(err, e), "ReadFull: %v at threshold", err)
	case size == 0:
		c.Check(err == io.EOF, "ReadFull: %v at the end", err)
	default:
		c.Check(err == io.ErrUnexpectedEOF, "ReadFull: %v at the end", err)
	}
	w := testutils.NewFaultyBuffer(thr, e)
	k, err := io.Copy(w, bytes.NewReader(p))
	c.Check(int(k) == min(size, thr) && bytes.Equal(w.Bytes(), p[:min(size, thr)]), "Copy to it transfers %d bytes", k)
	c.Check((err == nil) == (size <= thr) && (err == nil || err == e), "Copy to it: %v", err)
	w.Reset()
	c.Check(len(w.Bytes()) == 0, "content after Reset")
	k, err = io.Copy(w, bytes.NewReader(p))
	c.Check(int(k) == min(size, thr) && (err == nil) == (size <= thr), "Copy to it after Reset: %d, %v", k, err)
	var zero testutils.FaultyBuffer
	for i, f := range []func(){func() { zero.Read(p) }, func() { zero.Write(p) }, func() { zero.SetContent(p) }, zero.Reset, func() { zero.Bytes() }, func() { testutils.NewFaultyBuffer(thr, nil) }} {
		_, did := kit.Panics(f)
		c.Check(did, "use %d without an error is accepted", i)
	}
}

func TestP38(t *testing.T) {
	kit.Run(t, kit.Sub{Name: "histories", Quick: 40000, Fn: p38}, kit.Sub{Name: "streams", Quick: 8000, Fn: p38stream})
}
