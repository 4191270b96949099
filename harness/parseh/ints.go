package main

import (
	"io"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/zzverif/sym"
)

// number: a text of len digits (leading zeros allowed: zeros of them) whose value is <= max iff fits.
// value is exact when fits.
func number(max string) (text []byte, v uint64, fits bool) {
	zeros := sym.Choice("zeros", 3)
	for i := 0; i < zeros; i++ {
		text = append(text, '0')
	}
	n := sym.Choice("len", len(max)+2) // 0 .. len(max)+1 significant digits
	if n == 0 {
		return text, 0, true
	}
	// compare with max digit by digit: agree on k digits, then smaller / larger / end
	k := 0
	rel := 0
	if n == len(max) {
		k = sym.Choice("agree", n+1)
		if k < n {
			rel = 1 + sym.Choice("rel", 2)
		}
	}
	p := uint64(1)
	for i := 1; i < n; i++ {
		p *= 10
	}
	fits = n < len(max) || n == len(max) && rel != 2
	for i := 0; i < n; i++ {
		lo, hi := byte(0), byte(9)
		if i == 0 {
			lo = 1
		}
		if n == len(max) {
			if i < k {
				lo, hi = max[i]-'0', max[i]-'0'
			} else if i == k && rel == 1 {
				if max[i]-'0' <= lo {
					sym.Assume(false)
				}
				hi = max[i] - '0' - 1
			} else if i == k && rel == 2 {
				if max[i] == '9' {
					sym.Assume(false)
				}
				lo = max[i] - '0' + 1
			}
		}
		x := lo
		if lo != hi {
			x = sym.ByteIn("d", lo, hi)
		}
		text = append(text, x+'0')
		if fits {
			v += uint64(x) * p
			p /= 10
		}
	}
	return text, v, fits
}

func finishInt(src *parse.Source, text []byte, tail int, fits, equal bool) {
	if fits {
		if tail > 0 {
			sym.Assert(src.Error() == nil, "no error for a value that fits")
		} else {
			sym.Assert(src.Error() == nil || src.Error() == io.EOF, "no error but end of input for a value that fits")
		}
		sym.Assert(equal, "the exact value is returned")
		out := drain(src, len(text)+3)
		sym.Assert(len(out) == tail && isPrefix(out, text[len(text)-tail:]), "exactly the digits are consumed")
		sym.Reach("fits")
	} else {
		sym.Assert(src.Error() != nil && src.Error() != io.EOF, "a value that does not fit is reported as an error")
		sym.Reach("overflow")
	}
}

func intSource(text []byte) *parse.Source {
	// a few cuts: IntText covers arbitrary chunking
	if sym.Choice("kind", 2) == 0 {
		return parse.NewSourceString(string(text))
	}
	cut := []int{len(text), 1, len(text) / 2, len(text) - 1}[sym.Choice("cut", 4)]
	src, err := parse.NewSource(&cutReader{data: append([]byte(nil), text...), cut: cut, with: sym.Choice("with", 2) == 1}, make([]byte, len(text)+1))
	sym.Assert(err == nil, "NewSource over data succeeds")
	return src
}

type cutReader struct {
	data []byte
	cut  int
	with bool
}

func (r *cutReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(r.data)
	if r.cut > 0 && r.cut < n {
		n = r.cut
	}
	r.cut = 0
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, io.EOF
	}
	return n, nil
}

func tail(text []byte) ([]byte, int) {
	switch sym.Choice("tail", 3) {
	case 1:
		c := sym.Byte("t")
		sym.Assume(c < '0' || c > '9')
		return append(text, c), 1
	case 2:
		c := sym.Byte("t")
		sym.Assume(c < '0' || c > '9')
		return append(text, c, '7'), 2
	}
	return text, 0
}

func Uints() {
	text, v, fits := number("18446744073709551615")
	text, t := tail(text)
	if len(text) == 0 {
		return
	}
	src := intSource(text)
	got := read.Uint64(src)
	sym.ObsInt("got", int(got))
	finishInt(src, text, t, fits, got == v)
}

func Ints() {
	neg := sym.Choice("neg", 2) == 1
	size := sym.Choice("size", 3)
	max := "9223372036854775807"
	if size == 0 {
		max = "2147483647"
	}
	if neg {
		max = max[:len(max)-1] + "8"
	}
	text, v, fits := number(max)
	text, t := tail(text)
	sv := int64(v)
	if neg {
		text = append([]byte{'-'}, text...)
		sv = -sv
	}
	if len(text) == 0 || len(text) == t && text[0] == '-' {
		return
	}
	src := intSource(text)
	var got int64
	switch size {
	case 0:
		got = int64(read.Int32(src))
	case 1:
		got = read.Int64(src)
	case 2:
		got = int64(read.Int(src))
	}
	sym.ObsInt("got", int(got))
	finishInt(src, text, t, fits, got == sv)
}

// IntText: arbitrary short texts, arbitrary chunking.
func IntText() {
	n := sym.Choice("n", sym.Param("n", 3)+1)
	data := sym.Bytes("d", n)
	src := newSource(append([]byte(nil), data...), io.EOF)
	kind := sym.Choice("reader", 4)
	i, neg := 0, false
	if kind > 0 && n > 0 && data[0] == '-' {
		neg = true
		i = 1
	}
	v := int64(0)
	for i < n && data[i] >= '0' && data[i] <= '9' {
		v = v*10 + int64(data[i]-'0')
		i++
	}
	if neg {
		v = -v
	}
	var got int64
	switch kind {
	case 0:
		got = int64(read.Uint64(src))
	case 1:
		got = int64(read.Int32(src))
	case 2:
		got = read.Int64(src)
	case 3:
		got = int64(read.Int(src))
	}
	sym.ObsInt("got", int(got))
	sym.Assert(got == v, "the value of the digit prefix is returned")
	sym.Assert(src.Error() == nil || src.Error() == io.EOF, "no error but end of input")
	after(src, data, i)
}
