package main

import (
	"errors"
	"io"
	"os"

	"github.com/v2pro/plz"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/zzverif/sym"
)

type capture struct{ lines [][]byte }

func (c *capture) Write(p []byte) (int, error) {
	c.lines = append(c.lines, append([]byte(nil), p...))
	return len(p), nil
}

func captureLog() *capture {
	c := &capture{}
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &json.JsonFormat{}, Writer: c})
	return c
}

type textErr struct{ s string }

func (e *textErr) Error() string {
	if e == nil {
		return "nil"
	}
	return e.s
}

type res struct {
	i    int
	err  error
	seen *[]int
}

func (r *res) Close() error {
	*r.seen = append(*r.seen, r.i)
	return r.err
}

// anError is nil or an error of one of two types
func anError() error {
	switch sym.Choice("err", sym.Param("errs", 3)) {
	case 1:
		return errors.New(string([]byte{'e', sym.ByteIn("c", 'a', 'z')}))
	case 2:
		return &textErr{"t"}
	case 3:
		return io.EOF
	case 4:
		return os.ErrClosed
	case 5: // a pointer that is nil is an error that is not
		return (*textErr)(nil)
	case 6:
		return &textErr{""}
	}
	return nil
}

func checkMerged(err error, want []error) {
	if len(want) == 0 {
		sym.Assert(err == nil, "nil when every error is nil")
		return
	}
	sym.Assert(err != nil, "an error when one is not nil")
	m, ok := err.(plz.MultiError)
	sym.Assert(ok, "merged as a MultiError")
	sym.Assert(len(m) == len(want), "exactly the errors that are not nil")
	for i := range m {
		sym.Assert(m[i] == want[i], "exactly the errors that are not nil, in order")
	}
	sym.Assert(err.Error() != "", "the merged error has a text")
}

// Merge: any combination of errors
func Merge() {
	n := sym.Choice("n", sym.Param("n", 5)+1)
	errs := make([]error, n)
	var want []error
	for i := range errs {
		errs[i] = anError()
		if errs[i] != nil {
			want = append(want, errs[i])
		}
	}
	given := append([]error(nil), errs...)
	checkMerged(plz.MergeErrors(errs...), want)
	for i := range errs {
		sym.Assert(errs[i] == given[i], "the given errors are left alone")
	}
	sym.Reach("checked")
}

// CloseAll: any subset of closers fails
func CloseAll() {
	captureLog()
	n := sym.Choice("n", sym.Param("n", 4)+1)
	var seen []int
	var want []error
	rs := make([]io.Closer, n)
	for i := range rs {
		r := &res{i, anError(), &seen}
		rs[i] = r
		if r.err != nil {
			want = append(want, r.err)
		}
		if sym.Choice("wrap", 2) == 1 {
			rs[i] = plz.WrapCloser(r.Close)
		}
	}
	var props []interface{}
	switch sym.Choice("props", 4) {
	case 1:
		props = []interface{}{"k", sym.IntIn("v", 0, 99)}
	case 2: // spare capacity that belongs to the caller
		props = append(make([]interface{}, 0, 8), "k", "v")
	case 3:
		props = []interface{}{"odd"}
	}
	checkMerged(plz.CloseAll(rs, props...), want)
	sym.Assert(len(seen) == n, "each one closed exactly once")
	for i := range seen {
		sym.Assert(seen[i] == i, "each one closed exactly once, in order")
	}
	// again: the log handlers are cached by now
	seen = nil
	checkMerged(plz.CloseAll(rs, props...), want)
	sym.Assert(len(seen) == n, "each one closed exactly once, again")
	sym.Reach("checked")
}

// CloseOne: a single resource
func CloseOne() {
	captureLog()
	var seen []int
	r := &res{0, anError(), &seen}
	var c io.Closer = r
	if sym.Choice("wrap", 2) == 1 {
		c = plz.WrapCloser(r.Close)
	}
	var props []interface{}
	if sym.Choice("props", 2) == 1 {
		props = []interface{}{"k", "v"}
	}
	for k := 1; k <= 2; k++ {
		err := plz.Close(c, props...)
		sym.Assert(err == r.err, "the resource's own error")
		sym.Assert(len(seen) == k, "closed exactly once")
	}
	sym.Reach("checked")
}
