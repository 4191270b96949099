package main

import (
	"errors"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
	"github.com/v2pro/plz/zzverif/sym"
)

type valErr struct{ msg string }

func (e valErr) Error() string { return e.msg }

type ptrErr struct{ msg string }

func (e *ptrErr) Error() string { return e.msg }

type directErr struct{ msg *string }

func (e directErr) Error() string { return *e.msg }

type strErr string

func (e strErr) Error() string { return string(e) }

// keptBuf is memory the marshalers keep and hand out: nobody else may write to it
var keptBuf []byte

func kept(out string) []byte {
	keptBuf = append(append(make([]byte, 0, len(out)+8), out...), "mine"...)
	return keptBuf[:len(out)]
}

type marsh struct {
	out string
	err error
}

func (m marsh) MarshalJSON() ([]byte, error) { return kept(m.out), m.err }

type ptrMarsh struct{ m marsh }

func (m *ptrMarsh) MarshalJSON() ([]byte, error) { return kept(m.m.out), m.m.err }

type directMarsh struct{ m *marsh }

func (m directMarsh) MarshalJSON() ([]byte, error) { return kept(m.m.out), m.m.err }

type marshaler interface{ MarshalJSON() ([]byte, error) }

// split checks that out is pre + x + post and returns x
func split(out []byte, pre, post string) []byte {
	sym.Assert(len(out) >= len(pre)+len(post), "the text around the value")
	for i := 0; i < len(pre); i++ {
		sym.Assert(out[i] == pre[i], "the text around the value")
	}
	for i := 0; i < len(post); i++ {
		sym.Assert(out[len(out)-len(post)+i] == post[i], "the text around the value")
	}
	return out[len(pre) : len(out)-len(post)]
}

// place puts a value in one of several places
func place(x interface{}) (obj interface{}, pre, post string) {
	switch sym.Choice("place", 6) {
	case 0:
		return x, "", ""
	case 1:
		return []interface{}{1, x}, "[1,", "]"
	case 2:
		return struct{ V interface{} }{x}, `{"V":`, "}"
	case 3:
		return map[string]interface{}{"k": x}, `{"k":`, "}"
	case 4:
		return &x, "", ""
	default:
		return [1]interface{}{x}, "[", "]"
	}
}

func msgText() string {
	n := sym.Choice("n", sym.Param("n", 3)+1)
	if sym.Choice("long", 2) == 1 {
		return "some plain text " + string(sym.Bytes("m", n)) + "."
	}
	return string(sym.Bytes("m", n))
}

// Errors: error values of several shapes, with any message, in several places
func Errors() {
	msg := msgText()
	var obj interface{}
	pre, post := "", ""
	switch sym.Choice("shape", 9) {
	case 0:
		obj, pre, post = place(errors.New(msg))
	case 1:
		obj, pre, post = place(valErr{msg})
	case 2:
		obj, pre, post = place(&ptrErr{msg})
	case 3:
		obj, pre, post = place(directErr{&msg})
	case 4:
		obj, pre, post = place(strErr(msg))
	case 5:
		obj, pre, post = []error{nil, valErr{msg}}, "[null,", "]"
	case 6:
		obj, pre, post = struct {
			A error
			B error
			C *ptrErr
			D valErr
		}{B: &ptrErr{msg}}, `{"A":null,"B":`, `,"C":null,"D":""}`
	case 7:
		obj, pre, post = map[int]directErr{3: {&msg}}, `{"3":`, "}"
	case 8:
		obj, pre, post = struct {
			A *ptrErr
			B *valErr
		}{A: &ptrErr{msg}}, `{"A":`, `,"B":null}`
	}
	out := []byte(jsonfmt.MarshalToString(obj))
	sym.Obs("out", out)
	x := split(out, pre, post)
	d, e := jsonString(x, 0)
	sym.Assert(e == len(x), "an error is a JSON string")
	sym.Assert(eqBytes(d, []byte(msg)), "it decodes to the message")
	sym.Reach("checked")
}

// Marshalers: json.Marshaler values
func Marshalers() {
	fail := sym.Choice("fail", 2) == 1
	var m marsh
	msg := ""
	if fail {
		msg = msgText()
		m = marsh{"ignored", errors.New(msg)}
	} else {
		n := sym.Choice("n", sym.Param("n", 3)+1)
		b := sym.Bytes("m", n)
		m = marsh{`{"x":[` + string(b) + `]}`, nil}
	}
	var obj interface{}
	pre, post := "", ""
	switch sym.Choice("shape", 7) {
	case 0:
		obj, pre, post = place(m)
	case 1:
		obj, pre, post = place(&ptrMarsh{m})
	case 2:
		obj, pre, post = place(directMarsh{&m})
	case 3:
		obj, pre, post = []marshaler{nil, m}, "[null,", "]"
	case 4:
		obj, pre, post = struct {
			A marshaler
			B *ptrMarsh
			C marshaler
			D int
		}{C: &ptrMarsh{m}}, `{"A":null,"B":null,"C":`, `,"D":0}`
	case 5:
		obj, pre, post = map[string]marsh{"k": m}, `{"k":`, "}"
	case 6:
		obj, pre, post = [2]*marsh{nil, &m}, "[null,", "]"
	}
	var out []byte
	switch sym.Choice("api", 3) {
	case 0:
		out = []byte(jsonfmt.MarshalToString(obj))
	case 1:
		out = jsonfmt.EncoderOfObject(obj).Encode(nil, nil, reflect2.PtrOf(obj))
	case 2:
		out = jsonfmt.EncoderOfObject(obj).Encode(nil, make([]byte, 0, 4), reflect2.PtrOf(obj))
	}
	sym.Obs("out", out)
	own := string(keptBuf)
	res := string(out)
	for i := range keptBuf {
		keptBuf[i] ^= 1
	}
	sym.Assert(string(out) == res, "what the marshaler does later does not change the output")
	for i := range keptBuf {
		keptBuf[i] ^= 1
	}
	after := append(out, "z]"...)
	sym.Assert(len(after) == len(out)+2 && string(keptBuf) == own, "the marshaler's memory is left alone")
	x := split(out, pre, post)
	if fail {
		d, e := jsonString(x, 0)
		sym.Assert(e == len(x) && eqBytes(d, []byte(msg)), "a failing marshaler is reported in a JSON string")
	} else {
		sym.Assert(eqBytes(x, []byte(m.out)), "the marshaler's output is embedded verbatim")
	}
	sym.Reach("checked")
}
