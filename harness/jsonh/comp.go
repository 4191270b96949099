package main

import (
	"context"
	"reflect"
	"unsafe"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
	"github.com/v2pro/plz/zzverif/sym"
)

// gi: a small int and its text; gs: a short string and its JSON; gb: a bool
func gi() (int, string) {
	d := sym.ByteIn("i", 0, 9)
	return int(d), string([]byte{'0' + d})
}
func gs() (string, string) {
	b := sym.ByteIn("s", 'a', 'z')
	return string([]byte{b}), string([]byte{'"', b, '"'})
}
func gb() (bool, string) {
	if sym.Choice("b", 2) == 1 {
		return true, "true"
	}
	return false, "false"
}
func gp() (*int, string) {
	if sym.Choice("nil", 2) == 1 {
		return nil, "null"
	}
	v, s := gi()
	return &v, s
}

type inner struct {
	X int8
	Y string
}
type outer struct {
	A int8
	b int
	C string `json:"c,omitempty"`
	D bool   `json:"-"`
	E *int
	F func()
	G chan int
	H inner
	I interface{} `json:",omitempty"`
	É bool
	é bool
}
type embed struct {
	inner
	Inner
	*Ptr
}
type Inner struct{ X int }
type Ptr struct{ Z int }
type list struct {
	V    int
	Next *list
}
type tree struct {
	V    uint8
	Kids []tree
	M    map[string]*tree
}
type nest []nest
type direct struct{ P *int }
type direct2 struct{ D direct }
type namer interface{ Name() string }
type nv struct{ N int }

func (n nv) Name() string { return "" }

type np struct{ N int }

func (n *np) Name() string { return "" }

type nd struct{ N *int }

func (n nd) Name() string { return "" }

type myInt int16
type myStr string
type pad struct {
	A uint8
	B int64
	C bool
	D uint16
	E float64
	F string
	G [3]uint8
	H uintptr
}

func ints(n int) ([]int, string) {
	var l []int
	s := "["
	for i := 0; i < n; i++ {
		v, t := gi()
		l = append(l, v)
		if i > 0 {
			s += ","
		}
		s += t
	}
	return l, s + "]"
}

// gen returns a value of the k-th type and the JSON texts it may be encoded to
func gen(k int) (interface{}, string, string) {
	switch k {
	case 0:
		a, ta := gi()
		c, tc := gs()
		e, te := gp()
		x, tx := gi()
		y, ty := gs()
		i, ti := gb()
		o := outer{A: int8(a), b: 7, C: c, D: true, E: e, H: inner{int8(x), y}, I: i, É: i, é: true}
		return o, `{"A":` + ta + `,"c":` + tc + `,"E":` + te + `,"H":{"X":` + tx + `,"Y":` + ty + `},"I":` + ti + `,"É":` + ti + `}`, ""
	case 1:
		l, t := ints(sym.Choice("n", 4))
		return l, t, ""
	case 2:
		return [0]int{}, "[]", ""
	case 3:
		a, ta := gi()
		return [1]int{a}, "[" + ta + "]", ""
	case 4:
		a, ta := gi()
		b, tb := gi()
		c, tc := gi()
		return [3]int8{int8(a), int8(b), int8(c)}, "[" + ta + "," + tb + "," + tc + "]", ""
	case 5:
		a, ta := gs()
		b, tb := gs()
		return []string{a, "", b}, "[" + ta + `,"",` + tb + "]", ""
	case 6:
		l, t := ints(sym.Choice("n", 3))
		l2, t2 := ints(sym.Choice("n", 3))
		return [][]int{l, nil, l2}, "[" + t + ",[]," + t2 + "]", ""
	case 7:
		a, ta := gi()
		b, tb := gs()
		c, tc := gi()
		d, td := gs()
		return []inner{{int8(a), b}, {int8(c), d}}, `[{"X":` + ta + `,"Y":` + tb + `},{"X":` + tc + `,"Y":` + td + `}]`, ""
	case 8:
		p, t := gp()
		return [1]*int{p}, "[" + t + "]", ""
	case 9:
		p, t := gp()
		return direct{p}, `{"P":` + t + `}`, ""
	case 10:
		p, t := gp()
		return [1]direct2{{direct{p}}}, `[{"D":{"P":` + t + `}}]`, ""
	case 11: // map with one string key
		k, tk := gs()
		v, tv := gi()
		return map[string]int{k: v}, "{" + tk + ":" + tv + "}", ""
	case 12: // two keys, any order
		v, tv := gi()
		w, tw := gi()
		return map[string]int{"k": v, "l": w}, `{"k":` + tv + `,"l":` + tw + "}", `{"l":` + tw + `,"k":` + tv + "}"
	case 13:
		k, tk := gi()
		v, tv := gs()
		return struct{ M map[int]string }{map[int]string{k: v}}, `{"M":{"` + tk + `":` + tv + "}}", ""
	case 14:
		var m map[string]int
		if sym.Choice("nil", 2) == 1 {
			return m, "null", ""
		}
		return map[string]int{}, "{}", ""
	case 15:
		p, t := gp()
		if sym.Choice("nil2", 2) == 1 {
			return (**int)(nil), "null", ""
		}
		return &p, t, ""
	case 16:
		a, ta := gi()
		b, tb := gs()
		p, tp := gp()
		return []interface{}{a, b, p, nil, []interface{}{int8(a)}, map[string]interface{}{"k": b}}, "[" + ta + "," + tb + "," + tp + ",null,[" + ta + `],{"k":` + tb + "}]", ""
	case 17: // non empty interfaces holding values, pointers and pointer shaped structs
		v, tv := gi()
		p, tp := gp()
		l := []namer{nil, nv{v}, &np{v}, nd{p}, (*np)(nil)}
		return l, `[null,{"N":` + tv + `},{"N":` + tv + `},{"N":` + tp + `},null]`, ""
	case 18:
		v, tv := gi()
		e := embed{inner: inner{1, "s"}, Inner: Inner{v}}
		t := "null"
		if sym.Choice("nil", 2) == 0 {
			e.Ptr = &Ptr{v}
			t = `{"Z":` + tv + `}`
		}
		return e, `{"Inner":{"X":` + tv + `},"Ptr":` + t + `}`, ""
	case 19:
		a, ta := gi()
		b, tb := gi()
		return &list{a, &list{b, nil}}, `{"V":` + ta + `,"Next":{"V":` + tb + `,"Next":null}}`, ""
	case 20:
		a, ta := gi()
		b, tb := gi()
		t := tree{uint8(a), []tree{{V: uint8(b)}, {}}, map[string]*tree{"k": {V: uint8(a)}}}
		return t, `{"V":` + ta + `,"Kids":[{"V":` + tb + `,"Kids":[],"M":null},{"V":0,"Kids":[],"M":null}],"M":{"k":{"V":` + ta + `,"Kids":[],"M":null}}}`, ""
	case 21:
		return nest{nil, {nil, {}}}, "[[],[[],[]]]", ""
	case 22:
		a, ta := gi()
		b, tb := gb()
		s, ts := gs()
		p := pad{uint8(a), int64(a), b, uint16(a), 1.5, s, [3]uint8{1, uint8(a), 3}, uintptr(a)}
		t := `{"A":` + ta + `,"B":` + ta + `,"C":` + tb + `,"D":` + ta + `,"E":1.5,"F":` + ts + `,"G":[1,` + ta + `,3],"H":` + ta + `}`
		return [2]pad{p, p}, "[" + t + "," + t + "]", ""
	case 23:
		a, ta := gi()
		s, ts := gs()
		return struct {
			A myInt
			B myStr
			C map[myStr]myInt
			D *myStr
		}{myInt(a), myStr(s), map[myStr]myInt{"x": myInt(a)}, nil}, `{"A":` + ta + `,"B":` + ts + `,"C":{"x":` + ta + `},"D":null}`, ""
	case 24:
		n := sym.Choice("n", 3)
		t := []string{"[]", "[{}]", "[{},{}]"}[n]
		return make([]struct{}, n), t, ""
	case 25: // interface keys
		p, _ := gp()
		a, ta := gi()
		var k interface{}
		t := ""
		switch sym.Choice("key", 8) {
		case 0:
			k, t = a, `"`+ta+`"`
		case 1:
			k, t = "s", `"s"`
		case 2:
			k, t = nil, `"null"`
		case 3:
			k, t = true, `"true"`
		case 4:
			k, t = 1.5, `"1.5"`
		case 5:
			k, t = nd{nil}, `"{\"N\":null}"`
		case 6:
			k, t = &a, `"`+ta+`"`
		case 7:
			k, t = [1]int8{int8(a)}, `"[`+ta+`]"`
		}
		_ = p
		return map[interface{}]int{k: a}, "{" + t + ":" + ta + "}", ""
	case 26: // keys that are neither strings nor numbers
		a, ta := gi()
		switch sym.Choice("key", 5) {
		case 0:
			return map[inner]int{{int8(a), "q"}: a}, `{"{\"X\":` + ta + `,\"Y\":\"q\"}":` + ta + "}", ""
		case 1:
			return map[[2]int]bool{{a, 1}: true}, `{"[` + ta + `,1]":true}`, ""
		case 2:
			return map[bool]int{true: a}, `{"true":` + ta + "}", ""
		case 3:
			return map[namer]int{nv{a}: 1}, `{"{\"N\":` + ta + `}":1}`, ""
		default:
			return map[*int]int{&a: a}, `{"` + ta + `":` + ta + "}", ""
		}
	case 27: // what json has no form for
		a, ta := gi()
		switch sym.Choice("kind", 4) {
		case 0:
			return struct {
				A complex128
				B int
			}{1, a}, `{"A":"can not encode complex128 \"A\": .A to json","B":` + ta + "}", ""
		case 1:
			return make(chan int), `"can not encode chan int  to json"`, ""
		case 2:
			return []func(){nil}, `["can not encode func()  [sliceElem] to json"]`, ""
		default:
			return struct{ F func() }{}, "{}", ""
		}
	case 28:
		a, ta := gi()
		return map[string]map[int][]*int{"k": {1: {&a, nil}}}, `{"k":{"1":[` + ta + `,null]}}`, ""
	case 29:
		a, ta := gs()
		return []*string{nil, &a}, "[null," + ta + "]", ""
	case 30:
		a, ta := gi()
		b, tb := gb()
		const big = 9999999999999999990
		tbig := "999999999999999999" + ta
		return []interface{}{uint8(a), int16(a), uint32(a), int64(a), uint(big + uint64(a)), b, uintptr(big + uint64(a)), uint64(big + uint64(a))}, "[" + ta + "," + ta + "," + ta + "," + ta + "," + tbig + "," + tb + "," + tbig + "," + tbig + "]", ""
	case 31:
		a, ta := gi()
		return struct {
			P **int
			Q *[]int
			R *map[string]int
			S *interface{}
		}{Q: &[]int{a}, R: &map[string]int{"z": a}}, `{"P":null,"Q":[` + ta + `],"R":{"z":` + ta + `},"S":null}`, ""
	case 32: // tags
		a, ta := gi()
		b, tb := gb()
		return struct {
			A int  `json:"-,"`
			B bool `json:"-"`
			C int  `json:"a\"\\b"`
			D bool `json:"é,string"`
			E int  `json:",omitempty"`
			F int  `xml:"x" json:"f f" yaml:"y"`
			g int  `json:"g"`
		}{a, b, a, b, 0, a, 1}, `{"-":` + ta + `,"a\"\\b":` + ta + `,"é":` + tb + `,"E":0,"f f":` + ta + `}`, ""
	case 33: // a map with several entries of values of some size
		a, ta := gi()
		s, ts := gs()
		n := 3 + sym.Choice("n", 2)
		m := map[string]inner{}
		t := "{"
		for i := 0; i < n; i++ {
			k := string([]byte{'k' + byte(i)})
			m[k] = inner{int8(a), s}
			if i > 0 {
				t += ","
			}
			t += `"` + k + `":{"X":` + ta + `,"Y":` + ts + `}`
		}
		return m, t + "}", "perm"
	case 34: // numbers as keys
		a, ta := gi()
		n := 3 + sym.Choice("n", 2)
		m := map[int8]*int{}
		t := "{"
		for i := 0; i < n; i++ {
			m[int8(i)-1] = &a
			if i > 0 {
				t += ","
			}
			t += `"` + []string{"-1", "0", "1", "2"}[i] + `":` + ta
		}
		return m, t + "}", "perm"
	default:
		var e interface{}
		return &e, "null", ""
	}
}

const ntypes = 36

// entries of a JSON object of objects or numbers
func entries(b []byte) [][]byte {
	var r [][]byte
	if len(b) < 2 || b[0] != '{' || b[len(b)-1] != '}' {
		return nil
	}
	b = b[1 : len(b)-1]
	depth, start := 0, 0
	for i, c := range b {
		switch c {
		case '{':
			depth++
		case '}':
			depth--
		case ',':
			if depth == 0 {
				r = append(r, b[start:i])
				start = i + 1
			}
		}
	}
	return append(r, b[start:])
}

func isOneOf(out []byte, a, b string) bool {
	if eqBytes(out, []byte(a)) {
		return true
	}
	if b == "perm" { // the entries of a in any order
		ae := entries([]byte(a))
		oe := entries(out)
		if len(out) != len(a) || len(ae) != len(oe) {
			return false
		}
		for _, x := range ae {
			found := false
			for _, y := range oe {
				found = found || eqBytes(x, y)
			}
			if !found {
				return false
			}
		}
		return true
	}
	return b != "" && eqBytes(out, []byte(b))
}

// Composite: values of many types
func Composite() {
	v, a, b := gen(sym.Choice("type", ntypes))
	var out []byte
	switch sym.Choice("api", 3) {
	case 0:
		out = []byte(jsonfmt.MarshalToString(v))
	case 1:
		sp := dest("dest")
		out = jsonfmt.EncoderOf(reflect2.TypeOf(v)).Encode(nil, sp, reflect2.PtrOf(v))
		out = out[checkDest(sp, out):]
	case 2: // a fresh configuration, an encoder used twice
		e := jsonfmt.Config{}.Froze().EncoderOfObject(&v)
		p := unsafe.Pointer(&v)
		e.Encode(nil, nil, p)
		out = e.Encode(nil, nil, p)
	}
	sym.Obs("n", out[:0])
	if b == "" {
		sym.Obs("out", out)
	}
	sym.Assert(isOneOf(out, a, b), "same structure and values as the Go data")
	sym.Reach("checked")
}

// Twice: encoding one type leaves no trace in the encoding of another
func Twice() {
	k := sym.Choice("type1", ntypes)
	l := sym.Choice("type2", ntypes)
	sym.Assume(k != 33 && k != 34 && l != 33 && l != 34)
	v, a, b := gen(k)
	w, c, d := gen(l)
	sym.Assert(isOneOf([]byte(jsonfmt.MarshalToString(v)), a, b), "first value")
	sym.Assert(isOneOf([]byte(jsonfmt.MarshalToString(w)), c, d), "second value")
	out := []byte(jsonfmt.MarshalToString([]interface{}{v, w}))
	ok := isOneOf(out, "["+a+","+c+"]", "")
	if b != "" {
		ok = ok || isOneOf(out, "["+b+","+c+"]", "")
	}
	if d != "" {
		ok = ok || isOneOf(out, "["+a+","+d+"]", "")
	}
	if b != "" && d != "" {
		ok = ok || isOneOf(out, "["+b+","+d+"]", "")
	}
	sym.Assert(ok, "both values in one slice")
	sym.Reach("checked")
}

type ctxKey struct{}
type special int
type holder struct {
	A special
	B *special
	c special
	D []special
	E map[string]special
	F interface{}
	G [1]special
	H struct{ I special }
	J map[special]bool
}

// specialEncoder shows the value it is given in the context
type specialEncoder struct{}

func (specialEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
	tag, _ := ctx.Value(ctxKey{}).(string)
	return append(append(space, '"', '0'+byte(*(*special)(ptr))), tag+`"`...)
}

type extension struct{ other bool }

func (e extension) EncoderOf(prefix string, valType reflect.Type) jsonfmt.Encoder {
	if e.other {
		if valType.Kind() == reflect.Chan {
			return specialEncoder{}
		}
		return nil
	}
	if valType == reflect.TypeOf(special(0)) {
		return specialEncoder{}
	}
	return nil
}

// Configured: extensions replace the encoder of a type wherever it appears and get the context of the call;
// unexported fields are shown when asked for; one configuration leaves no trace in another
func Configured() {
	a, ta := gi()
	tag := []string{"x", ""}[sym.Choice("tag", 2)]
	s := special(a)
	h := holder{s, &s, s, []special{s, s}, map[string]special{"k": s}, s, [1]special{s}, struct{ I special }{s}, map[special]bool{s: true}}
	unexp := sym.Choice("unexported", 2) == 1
	ext := sym.Choice("ext", 3)
	text := func(unexp, ext bool) string {
		t, kt := ta, `"`+ta+`"`
		if ext {
			t = `"` + ta + tag + `"`
			kt = t
		}
		r := `{"A":` + t + `,"B":` + t
		if unexp {
			r += `,"c":` + t
		}
		return r + `,"D":[` + t + "," + t + `],"E":{"k":` + t + `},"F":` + t + `,"G":[` + t + `],"H":{"I":` + t + `},"J":{` + kt + `:true}}`
	}
	ctx := context.WithValue(context.Background(), ctxKey{}, tag)
	cfg := jsonfmt.Config{IncludesUnexported: unexp}
	switch ext {
	case 1:
		cfg.Extensions = []jsonfmt.Extension{extension{}}
	case 2:
		cfg.Extensions = []jsonfmt.Extension{extension{other: true}, extension{}}
	}
	if sym.Choice("before", 2) == 1 {
		sym.Assert(jsonfmt.MarshalToString(h) == text(false, false), "the default configuration, before")
	}
	api := cfg.Froze()
	var obj interface{} = h
	if sym.Choice("ptr", 2) == 1 {
		obj = &h
	}
	for i := 0; i < 2; i++ {
		e := api.EncoderOf(reflect2.TypeOf(obj))
		if i == 1 {
			e = api.EncoderOfObject(obj)
		}
		got := e.Encode(ctx, []byte("p"), reflect2.PtrOf(obj))
		sym.Obs("out", got)
		sym.Assert(eqBytes(got, []byte("p"+text(unexp, ext > 0))), "the configuration in use decides, everywhere in the value")
	}
	sym.Assert(jsonfmt.MarshalToString(obj) == text(false, false), "the default configuration, after")
	sym.Reach("checked")
}
