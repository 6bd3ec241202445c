//go:build go1.23

// Package refio has readers and writers that fail where they are told to, and keep account of what was transferred.
package refio

import (
	"errors"
	"io"

	"github.com/GottfriedHerold/Bandersnatch/zz_verif/kit"
)

// ErrFault is the error of faults that are not ends of the input.
var ErrFault = errors.New("injected fault")

// OtherFault is another type of error, with an identity of its own.
type OtherFault struct{ N int }

func (o *OtherFault) Error() string { return "other injected fault" }

// Reader delivers Data in chunks and then fails with End (io.EOF if nil).
type Reader struct {
	Data     []byte
	End      error
	Chunk    int  // at most so many bytes at a time (0: as many as fit)
	WithData bool // the error comes with the last bytes rather than after them
	Empty    int  // every Empty-th call returns 0, nil
	Consumed int
	Rest     []byte // delivered after End was reported once (whoever stops at an error does not see it)
	calls    int
	After    int // number of calls after the end was reported
}

func (r *Reader) end() error {
	if r.End == nil {
		return io.EOF
	}
	return r.End
}

func (r *Reader) Read(p []byte) (n int, err error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if r.Empty > 0 && r.calls%r.Empty == 0 {
		return 0, nil
	}
	left := r.Data[r.Consumed:]
	if len(left) == 0 {
		r.After++
		r.Data, r.Rest = append(r.Data[:len(r.Data):len(r.Data)], r.Rest...), nil
		return 0, r.end()
	}
	n = len(p)
	if r.Chunk > 0 && n > r.Chunk {
		n = r.Chunk
	}
	n = copy(p[:n], left)
	// dirty the rest of p, as readers may use it as scratch space
	for i := n; i < len(p); i++ {
		p[i] = 0xEE
	}
	r.Consumed += n
	if r.WithData && r.Consumed == len(r.Data) {
		err = r.end()
	}
	return
}

// DrawReader draws the manner in which data are delivered.
func DrawReader(c *kit.C, data []byte, end error) *Reader {
	r := &Reader{Data: data, End: end}
	r.Chunk = kit.Oneof(c, "chunk", 0, 0, 1, 3, 7, 31, 32, 33)
	r.WithData = kit.Bool(c, "withdata")
	if kit.Int(c, "empty", 0, 5) == 0 {
		r.Empty = kit.Int(c, "emptyevery", 2, 4)
	}
	if !r.WithData && kit.Int(c, "once", 0, 3) == 0 { // an interruption: the data go on after it (with what was cut from them)
		c.Label("interrupted input")
		r.Rest = append(append([]byte(nil), data[len(data):cap(data)]...), make([]byte, 64)...)
	}
	return r
}

// Writer accepts Limit bytes and then fails with Err (never, if Limit is negative).
type Writer struct {
	Got    []byte
	Limit  int
	Err    error
	Early  bool // fail with the write that reaches the limit exactly, after having taken all of its bytes
	Once   bool // fail only once; what is written after that is taken
	Calls  int
	failed bool
}

func (w *Writer) Write(p []byte) (n int, err error) {
	w.Calls++
	if w.Limit < 0 || (w.Once && w.failed) {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	n = w.Limit - len(w.Got)
	if n > len(p) {
		n = len(p)
	}
	w.Got = append(w.Got, p[:n]...)
	if n < len(p) || (w.Early && len(w.Got) == w.Limit && len(p) > 0) {
		err, w.failed = w.Err, true
	}
	return
}

// DrawEnd draws the error of an input that ends early.
func DrawEnd(c *kit.C) error {
	switch kit.Int(c, "end", 0, 4) {
	case 0, 1:
		return io.EOF
	case 2:
		return ErrFault
	case 3:
		return &OtherFault{kit.Int(c, "n", 0, 9)}
	}
	return kit.Oneof[error](c, "disguised", io.ErrUnexpectedEOF, &Disguise{io.EOF}, &Disguise{io.ErrUnexpectedEOF})
}

// Disguise is an error of an input or output of its own that wraps another one.
type Disguise struct{ Err error }

func (e *Disguise) Error() string { return "disguised " + e.Err.Error() }
func (e *Disguise) Unwrap() error { return e.Err }

// Disguised tells whether err is not io.EOF, but can be mistaken for an end of the input.
func Disguised(err error) bool {
	return err != nil && err != io.EOF && (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF))
}

// CheckDisguised checks the cause of an error that is due to a disguised one.
func CheckDisguised(c *kit.C, err, end error, desc string) {
	c.Label("error wraps an end of the input")
	isEOF, isUnexpected := errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF)
	if errors.Is(end, io.EOF) { // may be turned into io.ErrUnexpectedEOF
		c.Check(isEOF || isUnexpected, "%s: the error %v is neither io.EOF nor io.ErrUnexpectedEOF", desc, err)
		return
	}
	c.Check(errors.Is(err, end), "%s: the error does not wrap %v: %v", desc, end, err)
	c.Check(!isEOF && isUnexpected, "%s: error %v", desc, err)
}
