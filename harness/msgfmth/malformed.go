package main

import (
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/v2pro/plz/msgfmt"
	"github.com/v2pro/plz/zzverif/sym"
)

const marker = "%! (INVALID FORMAT) "

func props(c int) ([]interface{}, map[string]string) {
	switch c {
	case 0:
		return nil, nil
	case 1:
		return []interface{}{"a", "x", "", 1}, map[string]string{"a": "x", "": "1"}
	case 2: // a key without value
		return []interface{}{"b", 7, "a"}, map[string]string{"b": "7"}
	case 3: // keys that are not strings
		return []interface{}{1, 2, nil, 3, "a", nil}, map[string]string{"a": "null"}
	case 4: // a value that json can not encode
		return []interface{}{"c", make(chan int), "a", []byte("z")}, map[string]string{"a": "z", "c": "\"can not encode chan int  to json\""}
	}
	return []interface{}{"a", time.Unix(0, 0).UTC()}, nil
}

// reference reader of templates without directives: literal text and {name}
func refFormat(t []byte, m map[string]string) ([]byte, bool) {
	var out []byte
	i := 0
	spaces := func() {
		for i < len(t) {
			r, n := utf8.DecodeRune(t[i:])
			if !unicode.IsSpace(r) && !unicode.Is(unicode.White_Space, r) {
				return
			}
			i += n
		}
	}
	for i < len(t) {
		if t[i] != '{' {
			out = append(out, t[i])
			i++
			continue
		}
		i++
		spaces()
		var name []byte
		for i < len(t) {
			r, n := utf8.DecodeRune(t[i:])
			if unicode.Is(unicode.Pattern_White_Space, r) || unicode.Is(unicode.Pattern_Syntax, r) {
				break
			}
			if r == utf8.RuneError && n == 1 {
				name = append(name, "\uFFFD"...)
			} else {
				name = append(name, t[i:i+n]...)
			}
			i += n
		}
		spaces()
		if i >= len(t) || t[i] != '}' {
			return nil, false
		}
		i++
		v, ok := m[string(name)]
		if !ok {
			return nil, false
		}
		out = append(out, v...)
	}
	return out, true
}

// Malformed: every template of up to n bytes
func Malformed() {
	n := sym.Choice("n", sym.Param("n", 4)+1)
	t := sym.Bytes("t", n)
	kv, m := props(sym.Choice("props", 5))
	got := []byte(msgfmt.Sprintf(string(t), kv...))
	want, ok := refFormat(t, m)
	if ok {
		sym.Obs("got", got)
		sym.Assert(eq(got, want), "a well formed template is formatted")
		sym.Reach("formatted")
	} else {
		sym.Assert(strings.HasPrefix(string(got), marker), "a malformed template is rendered as a visible marker")
		sym.Reach("marked")
	}
}

// Directive: templates with a directive followed by arbitrary text
func Directive() {
	head := []string{"{a,", "x{a,goTime", "{a,goTime,", "{a, select", "{a,plural,", "{b,goTime}{a,", "{a,goTime}{"}[sym.Choice("head", 7)]
	n := sym.Choice("n", sym.Param("n", 3)+1)
	tail := sym.BytesOf("tail", n, sym_alphabet)
	sym.ConcreteBytes(tail)
	kv, _ := props(sym.Choice("props", 6))
	t := head + string(tail)
	got := msgfmt.Sprintf(t, kv...)
	sym.ObsInt("len", len(got))
	closed := strings.Count(t, "{") == strings.Count(t, "}")
	if !closed && !strings.Contains(head+string(tail), "}") {
		sym.Assert(strings.HasPrefix(got, marker), "unclosed braces are rendered as a visible marker")
		sym.Reach("unclosed")
	}
	sym.Reach("done")
}

const sym_alphabet = "{}, a2\xc3"
