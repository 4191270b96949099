package main

import (
	"github.com/v2pro/plz/msgfmt"
	"github.com/v2pro/plz/zzverif/sym"
)

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	}
	return -1
}

// BytesEsc: a []byte property
func BytesEsc() {
	n := sym.Choice("n", sym.Param("n", 3)+1)
	pre := []int{0, 1, 40}[sym.Choice("pre", 3)]
	post := []int{0, 2}[sym.Choice("post", 2)]
	s := make([]byte, 0, pre+n+post)
	for i := 0; i < pre; i++ {
		s = append(s, 'a'+byte(i%26))
	}
	s = append(s, sym.Bytes("s", n)...)
	for i := 0; i < post; i++ {
		s = append(s, 'x')
	}
	out := []byte(msgfmt.Sprintf("<{v}>", "v", s))
	sym.Obs("out", out)
	sym.Assert(len(out) >= 2 && out[0] == '<' && out[len(out)-1] == '>', "the literal text around")
	out = out[1 : len(out)-1]
	var d []byte
	plain := 0
	for i := 0; i < len(out); i++ {
		c := out[i]
		sym.Assert(c >= 0x20 && c < 0x80, "no raw control character, line break or non-ASCII byte")
		if c != '\\' {
			d = append(d, c)
			plain++
			continue
		}
		i++
		sym.Assert(i < len(out), "an escape is complete")
		switch out[i] {
		case '\\':
			d = append(d, '\\')
		case '"':
			d = append(d, '"')
		case 'n':
			d = append(d, '\n')
		case 'r':
			d = append(d, '\r')
		case 't':
			d = append(d, '\t')
		case 'x':
			sym.Assert(i+2 < len(out), "an escape is complete")
			h, l := hexVal(out[i+1]), hexVal(out[i+2])
			sym.Assert(h >= 0 && l >= 0, "hex digits")
			d = append(d, byte(h<<4|l))
			i += 2
		default:
			sym.Fail("unknown escape")
		}
	}
	sym.Assert(eq(d, s), "the original bytes can be recovered")
	letters := 0
	for _, c := range s {
		if c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == ' ' {
			letters++
		}
	}
	sym.Assert(plain >= letters, "letters, digits and spaces are kept as they are")
	sym.Reach("checked")
}
