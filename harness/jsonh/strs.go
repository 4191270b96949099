package main

import (
	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/zzverif/sym"
)

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// jsonString decodes the JSON string at out[i:]; returns the decoded bytes and the position after the
// closing quote, or -1 if it is not a JSON string. Bytes >= 0x80 are kept as they are.
func jsonString(out []byte, i int) ([]byte, int) {
	if i >= len(out) || out[i] != '"' {
		return nil, -1
	}
	i++
	var d []byte
	for i < len(out) {
		c := out[i]
		switch {
		case c == '"':
			return d, i + 1
		case c < 0x20:
			return nil, -1
		case c == '\\':
			i++
			if i >= len(out) {
				return nil, -1
			}
			switch out[i] {
			case '"', '\\', '/':
				d = append(d, out[i])
			case 'b':
				d = append(d, '\b')
			case 'f':
				d = append(d, '\f')
			case 'n':
				d = append(d, '\n')
			case 'r':
				d = append(d, '\r')
			case 't':
				d = append(d, '\t')
			case 'u':
				if i+4 >= len(out) {
					return nil, -1
				}
				v := 0
				for j := 1; j <= 4; j++ {
					h := hexVal(out[i+j])
					if h < 0 {
						return nil, -1
					}
					v = v<<4 | h
				}
				i += 4
				if v >= 0x80 {
					return append(d, []byte(string(rune(v)))...), -2 // not produced for single bytes
				}
				d = append(d, byte(v))
			default:
				return nil, -1
			}
			i++
		default:
			d = append(d, c)
			i++
		}
	}
	return nil, -1
}

func eqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if a[i] != b[i] {
			ok = false
		}
	}
	return ok
}

// strInput: optional concrete plain prefix/suffix around a window of symbolic bytes
func strInput() []byte {
	n := sym.Choice("n", sym.Param("n", 3)+1)
	pre := []int{0, 1, 70}[sym.Choice("pre", 3)]
	post := []int{0, 2}[sym.Choice("post", 2)]
	s := make([]byte, 0, pre+n+post)
	for i := 0; i < pre; i++ {
		s = append(s, 'a'+byte(i%26))
	}
	s = append(s, sym.Bytes("s", n)...)
	for i := 0; i < post; i++ {
		s = append(s, 'x')
	}
	return s
}

func dest(tag string) []byte {
	if sym.Choice(tag, 2) == 0 {
		return nil
	}
	b := make([]byte, 2, 4)
	b[0], b[1] = 'p', 'q'
	return b
}

func checkDest(space []byte, out []byte) int {
	n := len(space)
	sym.Assert(len(out) >= n, "output keeps what the buffer held")
	for i := 0; i < n; i++ {
		sym.Assert(out[i] == space[i], "output keeps what the buffer held")
	}
	return n
}

func Strings() {
	s := strInput()
	sp := dest("dest")
	out := jsonfmt.WriteString(sp, string(s))
	sym.Obs("out", out)
	k := checkDest(sp, out)
	d, e := jsonString(out, k)
	sym.Assert(e == len(out), "a JSON string and nothing after it")
	sym.Assert(eqBytes(d, s), "decodes to the original string")
	sym.Reach("checked")
}

// wantBytes is the documented text for a byte slice: ASCII as it is, everything else as \xNN
func wantBytes(s []byte) []byte {
	var w []byte
	for _, b := range s {
		if b >= 0x80 || b < 0x20 && b != '\n' && b != '\r' && b != '\t' {
			w = append(w, '\\', 'x', "0123456789abcdef"[b>>4], "0123456789abcdef"[b&15])
		} else {
			w = append(w, b)
		}
	}
	return w
}

func Bytes() {
	s := strInput()
	sp := dest("dest")
	var out []byte
	if sym.Choice("api", 2) == 0 {
		out = jsonfmt.WriteBytes(sp, s)
	} else {
		sp = nil
		out = []byte(jsonfmt.MarshalToString(s))
	}
	sym.Obs("out", out)
	k := checkDest(sp, out)
	d, e := jsonString(out, k)
	sym.Assert(e == len(out), "a JSON string and nothing after it")
	sym.Assert(eqBytes(d, wantBytes(s)), "decodes to the text of the bytes")
	sym.Reach("checked")
}
