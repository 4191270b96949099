package main

import (
	"io"
	"unicode"
	"unicode/utf8"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
	"github.com/v2pro/plz/zzverif/sym"
)

// decode is UTF-8 decoding written from the definition (RFC 3629), independent of the code under test.
func decode(b []byte) (rune, int) {
	if len(b) == 0 {
		return utf8.RuneError, 0
	}
	c := b[0]
	need, lo, hi := 0, byte(0x80), byte(0xBF)
	var r rune
	switch {
	case c < 0x80:
		return rune(c), 1
	case c < 0xC2:
		return utf8.RuneError, 1
	case c < 0xE0:
		need, r = 1, rune(c&0x1F)
	case c < 0xF0:
		need, r = 2, rune(c&0x0F)
		if c == 0xE0 {
			lo = 0xA0
		}
		if c == 0xED {
			hi = 0x9F
		}
	case c < 0xF5:
		need, r = 3, rune(c&0x07)
		if c == 0xF0 {
			lo = 0x90
		}
		if c == 0xF4 {
			hi = 0x8F
		}
	default:
		return utf8.RuneError, 1
	}
	for i := 1; i <= need; i++ {
		if i >= len(b) || b[i] < lo || b[i] > hi {
			return utf8.RuneError, 1
		}
		lo, hi = 0x80, 0xBF
		r = r<<6 | rune(b[i]&0x3F)
	}
	return r, need + 1
}

func Runes() {
	n := 1 + sym.Choice("n", sym.Param("n", 4))
	data := sym.Bytes("d", n)
	src := newSource(append([]byte(nil), data...), io.EOF)
	pos := 0
	if sym.Choice("skip", 2) == 1 && n > 1 {
		src.ConsumeN(1)
		pos = 1
	}
	r, w := src.PeekRune()
	r1, w1 := decode(data[pos:])
	sym.ObsInt("r", int(r))
	sym.ObsInt("w", w)
	sym.Assert(r == r1 && w == w1, "PeekRune is the UTF-8 decoding of the remaining input")
	out := drain(src, n+3)
	sym.Assert(len(out) == n-pos && isPrefix(out, data[pos:]), "PeekRune consumes nothing")
	sym.Reach("checked")
}

// after checks that exactly the first k bytes of data are gone.
func after(src *parse.Source, data []byte, k int) {
	out := drain(src, len(data)+3)
	sym.Assert(len(out) == len(data)-k && isPrefix(out, data[k:]), "exactly the matching prefix is consumed")
	sym.Reach("checked")
}

func Tokens() {
	n := sym.Choice("n", sym.Param("n", 4)+1)
	data := sym.Bytes("d", n)
	src := newSource(append([]byte(nil), data...), io.EOF)
	var space []byte
	if sym.Choice("space", 2) == 1 {
		space = append(make([]byte, 0, 8), 'z')
	}
	b1 := sym.Byte("b1")
	k := 0
	var out []byte
	if sym.Choice("two", 2) == 0 {
		out = read.AnyExcept1(src, space, b1)
		for k < n && data[k] != b1 {
			k++
		}
	} else {
		b2 := sym.Byte("b2")
		out = read.AnyExcept2(src, space, b1, b2)
		for k < n && data[k] != b1 && data[k] != b2 {
			k++
		}
	}
	sym.Obs("out", out)
	sym.Assert(len(out) == len(space)+k, "the token is the longest matching prefix")
	sym.Assert(isPrefix(space, out) && isPrefix(out[len(space):], data), "the token is the matching text, appended to the given buffer")
	if k < n {
		sym.Assert(src.Error() == nil, "no error while input remains")
	}
	after(src, data, k)
}

var tabA = &unicode.RangeTable{R16: []unicode.Range16{{'0', '9', 1}, {'a', 'c', 2}, {0xe0, 0xf0, 4}, {0x4e00, 0x4e10, 1}}, R32: []unicode.Range32{{0x10000, 0x10100, 1}}, LatinOffset: 2}
var tabB = &unicode.RangeTable{R16: []unicode.Range16{{'b', 'd', 1}, {0xfffd, 0xfffd, 1}}, LatinOffset: 1}
var tabX = &unicode.RangeTable{R16: []unicode.Range16{{'3', '5', 1}, {0xe4, 0xe4, 1}}, LatinOffset: 2}
var tabY = &unicode.RangeTable{R16: []unicode.Range16{{'8', 'd', 1}, {0x4e02, 0x4e04, 2}}, LatinOffset: 1}

func inY(r rune) bool { return r >= '8' && r <= 'd' || r == 0x4e02 || r == 0x4e04 }
func inA(r rune) bool {
	return r >= '0' && r <= '9' || r == 'a' || r == 'c' || r >= 0xe0 && r <= 0xf0 && (r-0xe0)%4 == 0 || r >= 0x4e00 && r <= 0x4e10 || r >= 0x10000 && r <= 0x10100
}
func inB(r rune) bool { return r >= 'b' && r <= 'd' || r == 0xfffd }
func inX(r rune) bool { return r >= '3' && r <= '5' || r == 0xe4 }

func Ranges() {
	n := sym.Choice("n", sym.Param("n", 3)+1)
	data := sym.Bytes("d", n)
	src := cutSource(data)
	mode := sym.Choice("mode", 8)
	match := func(r rune) bool {
		switch mode {
		case 0, 1:
			return inA(r)
		case 2:
			return (inA(r) || inB(r)) && !inX(r)
		case 3:
			return (inA(r) || inB(r)) && !inX(r)
		case 4:
			return !inX(r)
		case 5:
			return (inB(r) || inA(r))
		}
		return inA(r) && !inX(r) && !inY(r)
	}
	T := func(t ...*unicode.RangeTable) []*unicode.RangeTable { return t }
	var got []rune
	count := -1
	switch mode {
	case 0:
		got = read.UnicodeRange(src, nil, tabA)
	case 1:
		count = skip.UnicodeRange(src, tabA)
	case 2:
		got = read.UnicodeRanges(src, nil, T(tabA, tabB), T(tabX))
	case 3:
		count = skip.UnicodeRanges(src, T(tabA, tabB), T(tabX))
	case 4:
		got = read.UnicodeRanges(src, nil, nil, T(tabX))
	case 5:
		got = read.UnicodeRanges(src, nil, T(tabB, tabA), nil)
	case 6:
		got = read.UnicodeRanges(src, nil, T(tabA), T(tabX, tabY))
	case 7:
		count = skip.UnicodeRanges(src, T(tabA), T(tabY, tabX))
	}
	k, i := 0, 0
	for k < n {
		r, w := decode(data[k:])
		if !match(r) {
			break
		}
		if count < 0 {
			sym.Assert(i < len(got) && got[i] == r, "the runes read are the matching prefix")
		}
		i++
		k += w
	}
	if count < 0 {
		sym.Assert(len(got) == i, "nothing beyond the matching prefix is read")
	} else {
		sym.Assert(count == k, "the count is the length of the matching prefix")
	}
	sym.ObsInt("k", k)
	after(src, data, k)
}

func Spaces() {
	n := sym.Choice("n", sym.Param("n", 3)+1)
	data := sym.Bytes("d", n)
	src := cutSource(data)
	k := 0
	var c int
	if sym.Choice("mode", 2) == 0 {
		c = skip.Space(src)
		for k < n && (data[k] == ' ' || data[k] >= 9 && data[k] <= 13) {
			k++
		}
	} else {
		c = skip.UnicodeSpace(src)
		for k < n {
			r, w := decode(data[k:])
			if !(r == ' ' || r >= 9 && r <= 13 || r == 0x85 || r == 0xA0 || r == 0x1680 || r >= 0x2000 && r <= 0x200a || r == 0x2028 || r == 0x2029 || r == 0x202f || r == 0x205f || r == 0x3000) {
				break
			}
			k += w
		}
	}
	sym.ObsInt("c", c)
	sym.Assert(c == k, "the count is the length of the blank prefix")
	after(src, data, k)
}

// cutSource: a string, or a reader that delivers the data in two pieces cut at a symbolic place
func cutSource(data []byte) *parse.Source {
	if len(data) == 0 || sym.Choice("kind", 2) == 0 {
		return parse.NewSourceString(string(data))
	}
	src, err := parse.NewSource(&cutReader{data: append([]byte(nil), data...), cut: sym.Choice("cut", len(data)), with: true}, make([]byte, len(data)))
	sym.Assert(err == nil, "NewSource over data succeeds")
	return src
}
