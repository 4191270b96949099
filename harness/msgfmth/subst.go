package main

import (
	"bytes"
	"errors"
	"time"

	"github.com/v2pro/plz/msgfmt"
	"github.com/v2pro/plz/zzverif/sym"
)

type named struct{ s string }

func (n named) String() string { return "<" + n.s + ">" }

type ptrNamed struct{ n int }

func (n *ptrNamed) String() string { return "ptr" + string([]byte{'0' + byte(n.n)}) }

type point struct{ X, Y int }

// value returns a property value of a type chosen by the executor, and the text it is formatted as.
// (type by type, so that no code of /repo is part of the oracle)
func value(tag string, kinds int) (interface{}, []byte) { return valueOf(tag, kinds, false) }

func valueOf(tag string, kinds int, fixed bool) (interface{}, []byte) {
	switch sym.Choice(tag+"kind", kinds) {
	case 0:
		if fixed {
			return "st", []byte("st")
		}
		b := sym.Bytes(tag+"str", 2)
		return string(b), b
	case 1:
		if fixed {
			return 42, []byte("42")
		}
		d := sym.ByteIn(tag+"int", 0, 99)
		if d >= 10 {
			return int(d), []byte{'0' + d/10, '0' + d%10}
		}
		return int(d), []byte{'0' + d}
	case 2:
		if fixed {
			return named{"n"}, []byte("<n>")
		}
		b := sym.Bytes(tag+"named", 1)
		return named{string(b)}, []byte{'<', b[0], '>'}
	case 3:
		return nil, []byte("null")
	case 4:
		if fixed {
			return []byte("by"), []byte("by")
		}
		b := sym.BytesIn(tag+"bytes", 1, 'a', 'z')
		return b, append([]byte(nil), b...)
	case 5:
		if !fixed && sym.Bool(tag+"bool") {
			return true, []byte("true")
		}
		return false, []byte("false")
	case 6:
		d := sym.ByteIn(tag+"pt", 0, 9)
		return point{1, int(d)}, append(append([]byte(`{"X":1,"Y":`), '0'+d), '}')
	case 7:
		d := sym.ByteIn(tag+"sl", 0, 9)
		return []int{7, int(d)}, []byte{'[', '7', ',', '0' + d, ']'}
	case 8:
		d := sym.ByteIn(tag+"ptr", 0, 9)
		return &ptrNamed{int(d)}, []byte{'p', 't', 'r', '0' + d}
	case 9:
		b := sym.BytesIn(tag+"err", 1, 'a', 'z')
		return errors.New(string(b)), []byte{'"', b[0], '"'}
	case 10:
		return uint8(200), []byte("200")
	case 11:
		x := 5
		return &x, []byte("5")
	case 12:
		return [1]*point{nil}, []byte("[null]")
	default:
		return 1.5, []byte("1.5")
	}
}

const nkinds = 14

// template parts are rendered here, independently of msgfmt
type part struct {
	lit  []byte
	key  string
	text string // what is written inside the braces
}

func render(parts []part, keys []string, texts [][]byte) (string, []byte, bool) {
	var t, want []byte
	ok := true
	for _, p := range parts {
		if p.text == "" {
			t = append(t, p.lit...)
			want = append(want, p.lit...)
			continue
		}
		t = append(t, '{')
		t = append(t, p.text...)
		t = append(t, '}')
		found := false
		for i, k := range keys {
			if k == p.key {
				want = append(want, texts[i]...)
				found = true
				break
			}
		}
		if !found {
			ok = false
		}
	}
	return string(t), want, ok
}

var names = []string{"a", "ab", "é1"}

func parts(nvars int, litLen int, keys []string) []part {
	var ps []part
	lit := func() {
		if n := sym.Choice("lit", litLen+1); n > 0 {
			b := sym.Bytes("lit", n)
			for _, c := range b {
				sym.Assume(c != '{')
			}
			ps = append(ps, part{lit: b})
		}
	}
	for i := 0; i < nvars; i++ {
		lit()
		k := keys[sym.Choice("name", len(keys))]
		text := k
		switch sym.Choice("space", sym.Param("spaces", 3)) {
		case 1:
			text = " " + k
		case 2:
			text = "\u3000\t" + k + "\u2028 "
		case 3:
			text = "\u00a0" + k
		}
		ps = append(ps, part{key: k, text: text})
	}
	lit()
	return ps
}

// Subst: literal text and variables in any order, properties in any order, with extra ones.
func Subst() {
	var kv []interface{}
	var keys []string
	var texts [][]byte
	np := sym.Choice("props", sym.Param("props", 2)+1)
	for i := 0; i < np; i++ {
		k := names[sym.Choice("key", len(names))]
		v, txt := value("v", sym.Param("kinds", 6))
		kv = append(kv, k, v)
		keys = append(keys, k)
		texts = append(texts, txt)
	}
	nv := 0
	if np > 0 {
		nv = sym.Choice("vars", sym.Param("vars", 2)+1)
	}
	ps := parts(nv, sym.Param("lit", 1), keys)
	t, want, ok := render(ps, keys, texts)
	sym.Assume(ok) // unknown names are the subject of Malformed
	got := msgfmt.Sprintf(t, kv...)
	sym.ObsStr("got", got)
	sym.Assert(eq([]byte(got), want), "literal text unchanged, every variable replaced by its property")
	if len(want) > 0 {
		var b bytes.Buffer
		n, err := msgfmt.Fprintf(&b, t, kv...)
		sym.Assert(err == nil && n == len(want) && eq(b.Bytes(), want), "Fprintf writes the same text")
	}
	sym.Reach("checked")
}

var layouts = []string{time.RFC3339, "Mon Jan _2 15:04:05 2006", "15h04", "2006 x", "x"}

// Time: the goTime directive
func Time() {
	at := time.Unix(int64(sym.Choice("s", 3))*86399+3600*24*365*20, 0).UTC()
	name := names[sym.Choice("name", len(names))]
	dir := "goTime"
	layout := time.RFC3339
	if l := sym.Choice("layout", len(layouts)+1); l > 0 {
		layout = layouts[l-1]
		dir += ","
		if sym.Choice("sp", 2) == 1 {
			dir += " "
		}
		dir += layout
	}
	inner := name + "," + dir
	if sym.Choice("sp2", 2) == 1 {
		inner = " " + name + " , " + dir
	}
	kv := []interface{}{"t0", 1, name, at, "a", "other"}
	if sym.Choice("order", 2) == 1 {
		kv = []interface{}{name, at, "zz", nil}
	}
	lit := sym.Bytes("lit", 1)
	sym.Assume(lit[0] != '{')
	got := msgfmt.Sprintf("<{"+inner+"}"+string(lit)+"{"+inner+"}>", kv...)
	w := at.Format(layout)
	want := append(append([]byte("<"+w), lit...), []byte(w+">")...)
	sym.ObsStr("got", got)
	sym.Assert(eq([]byte(got), want), "goTime formats the time with the layout")
	sym.Reach("checked")
}

func eq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		if a[i] != b[i] {
			ok = false
		}
	}
	return ok
}

// Print: Println and Fprintln
func Print() {
	var b bytes.Buffer
	n := sym.Choice("n", 4)
	var vals []interface{}
	var want []byte
	for i := 0; i < n; i++ {
		v, txt := value("v", 8)
		vals = append(vals, v)
		if n == 1 {
			want = txt
		} else {
			_, isStr := v.(string)
			_, isNamed := v.(named)
			_, isBytes := v.([]byte)
			sym.Assume(!isStr && !isNamed && !isBytes) // rendered as JSON inside the array: C10, C13
			if i > 0 {
				want = append(want, ',')
			}
			want = append(want, txt...)
		}
	}
	if n > 1 {
		want = append(append([]byte("["), want...), ']')
	}
	want = append(append([]byte(nil), want...), '\n')
	k, err := msgfmt.Fprintln(&b, vals...)
	sym.Obs("out", b.Bytes())
	sym.Assert(err == nil && k == len(want), "Fprintln reports what it wrote")
	sym.Assert(eq(b.Bytes(), want), "Fprintln writes the values and a line break to the writer")
	sym.Reach("checked")
}
