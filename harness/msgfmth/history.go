package main

import (
	"bytes"
	"strings"

	"github.com/v2pro/plz/msgfmt"
	"github.com/v2pro/plz/zzverif/sym"
)

// one call: properties of any shape for the fixed template; ok tells whether the template's names are all there
func call(t int, tag string) ([]interface{}, []byte, bool) {
	var kv []interface{}
	var keys []string
	var texts [][]byte
	n := sym.Choice(tag+"props", sym.Param("props", 2)+1)
	for i := 0; i < n; i++ {
		keys = append(keys, []string{"a", "b"}[sym.Choice(tag+"key", 2)])
		texts = append(texts, nil)
	}
	_, _, ok := render(templates[t], keys, texts)
	for i := 0; i < n; i++ {
		// the marker shows all values, what they look like there is not the subject
		v, txt := valueOf(tag, sym.Param("kinds", 6), !ok)
		kv = append(kv, keys[i], v)
		texts[i] = txt
	}
	if sym.Param("odd", 1) == 1 && sym.Choice(tag+"odd", 2) == 1 {
		kv = append(kv, "b")
	}
	_, want, ok := render(templates[t], keys, texts)
	return kv, want, ok
}

var templates = [][]part{
	{{lit: []byte("x")}, {key: "a", text: "a"}},
	{{key: "b", text: "b"}, {key: "a", text: "a"}},
}

func check(got string, want []byte, ok bool) {
	if ok {
		sym.Assert(eq([]byte(got), want), "the output depends on this call's template and properties only")
	} else {
		sym.Assert(strings.HasPrefix(got, marker), "an unknown name is marked whatever was formatted before")
	}
}

// out formats by one of the functions; they share caches and buffers
func out(api int, text string, kv []interface{}) string {
	switch api {
	case 0:
		return msgfmt.Sprintf(text, kv...)
	default:
		var b bytes.Buffer
		n, err := msgfmt.Fprintf(&b, text, kv...)
		sym.Assert(err == nil && n == b.Len(), "Fprintf reports what it wrote")
		return b.String()
	}
}

// nesting is a value whose text is made by calls of the package
type nesting struct {
	text string
	kv   []interface{}
}

func (n nesting) String() string {
	var b bytes.Buffer
	msgfmt.Fprintf(&b, n.text, n.kv...)
	return b.String() + msgfmt.Sprintf(n.text, n.kv...)
}

// Nested: formatting while formatting, and after it
func Nested() {
	t := sym.Choice("template", len(templates))
	text, _, _ := render(templates[t], nil, nil)
	kv1, want1, ok1 := call(t, "h")
	sym.Assume(ok1)
	api := sym.Choice("api", 2)
	before := sym.Choice("before", 3)
	for i := 0; i < before; i++ {
		check(out(1, text, kv1), want1, true)
	}
	l := sym.Bytes("lit", 1)
	sym.Assume(l[0] != '{')
	got := out(api, string(l)+"{n}"+string(l)+"{n}", []interface{}{"n", nesting{text, kv1}})
	var want []byte
	for i := 0; i < 2; i++ {
		want = append(append(append(want, l...), want1...), want1...)
	}
	sym.ObsStr("got", got)
	sym.Assert(eq([]byte(got), want), "calls made while formatting do not change the text")
	check(out(1, text, kv1), want1, true)
	sym.Reach("checked")
}

// History: a call after other calls with the same template and other properties
func History() {
	t := sym.Choice("template", len(templates))
	text, _, _ := render(templates[t], nil, nil)
	kv1, want1, ok1 := call(t, "h")
	kv2, want2, ok2 := call(t, "c")
	sym.Assume(ok1 || ok2)
	api := sym.Choice("api", sym.Param("apis", 2))
	check(out(api, text, kv1), want1, ok1)
	got := out(api, text, kv2)
	if ok2 {
		sym.ObsStr("got", got)
	}
	check(got, want2, ok2)
	// a formatter compiled for the first properties, used for the second
	f := msgfmt.FormatterOf(text, kv1)
	check(string(f.Format(nil, kv2)), want2, ok2)
	check(string(f.Format(nil, kv1)), want1, ok1)
	sym.Reach("checked")
}

// Shapes: more different property lists than the cache keeps, then any of them again
func Shapes() {
	text, _, _ := render(templates[1], nil, nil)
	shapes := sym.Param("shapes", 20)
	for i := 0; i < shapes; i++ {
		var kv []interface{}
		for j := 0; j < i/2; j++ {
			kv = append(kv, "z", j)
		}
		if i%2 == 0 {
			kv = append(kv, "a", i, "b", "s")
		} else {
			kv = append(kv, "b", true, "a", "t")
		}
		got := msgfmt.Sprintf(text, kv...)
		if i%2 == 0 {
			sym.Assert(got == "s"+itoa(i), "any number of different property lists")
		} else {
			sym.Assert(got == "truet", "any number of different property lists")
		}
	}
	kv, want, ok := call(1, "c")
	check(msgfmt.Sprintf(text, kv...), want, ok)
	sym.Reach("checked")
}

func itoa(i int) string {
	if i >= 10 {
		return string([]byte{'0' + byte(i/10), '0' + byte(i%10)})
	}
	return string([]byte{'0' + byte(i)})
}

// slowWriter takes the text it is given after others had time to run
type slowWriter struct {
	gate chan int
	got  []byte
}

func (w *slowWriter) Write(p []byte) (int, error) {
	w.gate <- 1
	w.got = append(w.got, p...)
	<-w.gate
	return len(p), nil
}

// Parallel: calls with different property types running at the same time
func Parallel() {
	text, _, _ := render(templates[0], nil, nil)
	n := sym.Param("threads", 2)
	done := make(chan string, n)
	kvs := [][]interface{}{{"a", "s"}, {"a", 5}, {"b", 1, "a", true}, {"a", "s"}}
	wants := []string{"xs", "x5", "xtrue", "xs"}
	res := make([]string, n)
	first := sym.Choice("first", 3)
	api := sym.Choice("api", 2)
	gate := make(chan int, 1)
	if sym.Choice("before", 2) == 1 {
		check(out(api, text, kvs[1]), []byte("x5"), true)
	}
	for i := 0; i < n; i++ {
		i := i
		go func() {
			kv := kvs[(first+i)%4]
			if api == 0 {
				res[i] = msgfmt.Sprintf(text, kv...)
			} else {
				w := &slowWriter{gate: gate}
				msgfmt.Fprintf(w, text, kv...)
				res[i] = string(w.got)
			}
			done <- ""
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	for i := 0; i < n; i++ {
		sym.Assert(res[i] == wants[(first+i)%4], "concurrent calls do not influence each other")
	}
	sym.Assert(msgfmt.Sprintf(text, kvs[1]...) == "x5", "nor later calls")
	sym.Reach("checked")
}
