package main

import (
	"errors"
	"io"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/zzverif/sym"
)

var errBroken = errors.New("broken reader")

// chunkReader delivers data in chunks of symbolic size, then end; the final error can come together
// with the last data or on its own.
type chunkReader struct {
	data  []byte
	end   error
	with  bool
	reads int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.reads++
	if len(r.data) == 0 {
		return 0, r.end
	}
	max := len(p)
	if len(r.data) < max {
		max = len(r.data)
	}
	n := 1 + sym.Choice("chunk", max)
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}

// newSource makes a source over data: a string source, or a reader source with symbolic chunking.
// A reader source over no data is refused by NewSource with the reader's error.
func newSource(data []byte, end error) *parse.Source {
	k := sym.Choice("kind", 2)
	if k == 0 && end == io.EOF || len(data) == 0 {
		return parse.NewSourceString(string(data))
	}
	r := &chunkReader{data: data, end: end, with: sym.Choice("with", 2) == 1}
	buf := make([]byte, 1+sym.Choice("buf", sym.Param("maxbuf", 3)))
	src, err := parse.NewSource(r, buf)
	sym.Assert(err == nil && src != nil, "NewSource over data succeeds")
	return src
}

func isPrefix(p, of []byte) bool {
	if len(p) > len(of) {
		return false
	}
	ok := true
	for i := range p {
		if p[i] != of[i] {
			ok = false
		}
	}
	return ok
}

// drain reads everything that is left.
func drain(src *parse.Source, limit int) []byte {
	var out []byte
	for i := 0; ; i++ {
		sym.Assert(i <= limit, "draining the source terminates")
		out = append(out, src.Peek()...)
		if src.Error() != nil {
			return out
		}
		src.Consume()
	}
}

// Source: every operation sequence against the model "data[pos:]".
func Source() {
	n := sym.Choice("n", sym.Param("n", 3)+1)
	data := sym.Bytes("d", n)
	end := io.EOF
	if sym.Choice("end", 2) == 1 {
		end = errBroken
	}
	src := newSource(append([]byte(nil), data...), end)
	pos := 0
	over := false
	ops := sym.Param("ops", 3)
	maxn := sym.Param("maxn", 3)
	for k := 0; k < ops; k++ {
		rest := data[pos:]
		switch sym.Choice("op", 6) {
		case 0:
			p := src.Peek()
			sym.Assert(isPrefix(p, rest), "Peek is a prefix of the remaining input")
			sym.Assert(len(rest) == 0 || len(p) > 0, "Peek is not empty while input remains")
			sym.Obs("peek", p)
		case 1:
			if len(rest) > 0 {
				sym.Assert(src.Peek1() == rest[0], "Peek1 is the next byte")
			} else {
				src.Peek1()
				over = true
				sym.Assert(src.Error() != nil, "Peek1 past the end reports an error")
			}
		case 2:
			m := sym.Choice("m", maxn+2)
			p, err := src.PeekN(m)
			sym.Obs("peekn", p)
			if m <= len(rest) {
				sym.Assert(err == nil, "PeekN within the input succeeds")
				sym.Assert(len(p) == m && isPrefix(p, rest), "PeekN returns exactly the next bytes")
			} else {
				sym.Assert(err != nil, "PeekN past the end reports an error")
				sym.Assert(len(p) == len(rest) && isPrefix(p, rest), "PeekN past the end returns what remains")
			}
		case 3:
			m := len(src.Peek())
			src.Consume()
			pos += m
			if len(rest) == 0 {
				over = true
			}
		case 4:
			m := sym.Choice("m", maxn+2)
			src.ConsumeN(m)
			if m > len(rest) {
				over = true
				pos = n
				sym.Assert(src.Error() != nil, "ConsumeN past the end reports an error")
			} else {
				pos += m
			}
		case 5:
			if len(rest) > 0 {
				src.Consume1(rest[0])
				pos++
			} else {
				src.Consume1('x')
				over = true
				sym.Assert(src.Error() != nil, "Consume1 past the end reports an error")
			}
		}
		if pos < n && !over {
			sym.Assert(src.Error() == nil, "no error while input remains")
		}
		if over {
			break
		}
	}
	rest := data[pos:]
	out := drain(src, n+3)
	sym.Obs("rest", out)
	sym.Assert(len(out) == len(rest) && isPrefix(out, rest), "what is left is exactly the rest of the input")
	sym.Assert(src.Error() != nil, "the end is reported")
	if !over {
		if n == 0 {
			end = io.EOF
		}
		sym.Assert(src.Error() == end, "the reader's own error is reported at the end")
	}
	sym.Reach("checked")
}
