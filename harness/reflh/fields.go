//go:build go1.21

package main

import (
	"reflect"
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"github.com/v2pro/plz/zzverif/sym"
)

type Inner struct {
	In1 byte
	In2 string
	In3 int32
}

type Deep struct {
	De1 int16
	De2 *int
}

type PInner struct {
	Pi1 int64
	Deep
	Pi2 interface{}
}

type Big struct {
	A byte
	B int64
	C string
	D interface{}
	Inner
	E stringer
	F *int
	G pair
	*PInner
	H [3]byte
	I struct{}
	J single
	K func() int
	L chan int
	M unsafe.Pointer
	N []int
	O map[string]int
	P bool
	Q float64
	u int16
	Z byte
}

type One struct{ V *int }
type OneFunc struct{ V func() int }
type OneNested struct{ V One }
type Two struct {
	V *int
	W struct{}
}

var someFunc = func() int { return 1 }
var otherFunc = func() int { return 2 }
var chans = [2]chan int{make(chan int, 1), make(chan int, 2)}

// the address of the code of a function stands for it
func funcOf(f *func() int) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(f)) }

func sameBig(a, b *Big) bool {
	if a.A != b.A || a.B != b.B || a.C != b.C || a.D != b.D || a.Inner != b.Inner || a.E != b.E || a.F != b.F || a.G != b.G {
		return false
	}
	if (a.PInner == nil) != (b.PInner == nil) || a.PInner != nil && *a.PInner != *b.PInner {
		return false
	}
	if a.H != b.H || a.I != b.I || a.J != b.J || funcOf(&a.K) != funcOf(&b.K) || a.L != b.L || a.M != b.M || a.P != b.P || a.Q != b.Q || a.u != b.u || a.Z != b.Z {
		return false
	}
	if len(a.N) != len(b.N) || cap(a.N) != cap(b.N) || len(a.N) > 0 && &a.N[0] != &b.N[0] {
		return false
	}
	return *(*unsafe.Pointer)(unsafe.Pointer(&a.O)) == *(*unsafe.Pointer)(unsafe.Pointer(&b.O))
}

var slices0 = []int{1, 2, 3}
var map0 = map[string]int{"a": 1}

// field reads and writes one field of one of three structs side by side
func field[T any](fs [3]reflect2.StructField, safe bool, s, r *[3]Big, at func(b *Big) *T, v T, same func(a, b *T) bool) {
	f := fs[0]
	if sym.Choice("which", 2) == 1 {
		f = fs[1]
	}
	if fs[2] != nil && sym.Choice("func", 2) == 1 {
		f = fs[2]
	}
	raw := !safe && sym.Choice("raw", 2) == 1
	i := sym.Choice("i", 3)
	w := v
	// read
	var p *T
	if raw {
		p = (*T)(f.UnsafeGet(unsafe.Pointer(&s[i])))
	} else {
		p = f.Get(&s[i]).(*T)
	}
	sym.Assert(same(p, at(&r[i])), "the value of the field")
	if !safe {
		sym.Assert(p == at(&s[i]) || unsafe.Sizeof(v) == 0, "is the field itself")
	}
	// write
	if raw {
		f.UnsafeSet(unsafe.Pointer(&s[i]), unsafe.Pointer(&v))
	} else {
		f.Set(&s[i], &v)
	}
	*at(&r[i]) = w
	sym.Assert(same(&v, &w), "the value is not changed")
	for k := range s {
		sym.Assert(sameBig(&s[k], &r[k]), "the field set has the value, everything else is as it was")
	}
	sym.Reach("checked")
}

func eq[T comparable](a, b *T) bool { return *a == *b }

// Fields of a struct, and those promoted from embedded structs
func Fields() {
	a, safe := config()
	n := sym.Choice("field", 27)
	b := sym.Byte("b")
	var s, r [3]Big
	for i := range s {
		fill := func(x *Big) {
			*x = Big{A: byte(i), B: 3, C: "abc", D: i, E: str("e"), F: &shared[i], G: pair{1, 2}, H: [3]byte{1, 2, 3}, J: single{&shared[1]},
				K: someFunc, u: -5, L: chans[0], M: unsafe.Pointer(&shared[2]), N: slices0[:2:2], O: map0, Q: 2.5, Z: 9}
			x.Inner = Inner{4, "in", 5}
			x.PInner = &PInner{6, Deep{7, &shared[0]}, "pi"}
		}
		fill(&s[i])
		fill(&r[i])
	}
	typ := a.TypeOf(s[0]).(reflect2.Type)
	std := reflect.TypeOf(s[0])
	get := func(name string) [3]reflect2.StructField {
		var fs [3]reflect2.StructField
		byName, ok := typ.(interface {
			FieldByName(name string) reflect2.StructField
		})
		sym.Assert(ok, "has fields by name")
		fs[0] = byName.FieldByName(name)
		fs[1] = fs[0]
		want, found := std.FieldByName(name)
		sym.Assert(found, "the field exists")
		if st, ok := typ.(reflect2.StructType); ok {
			fs[1] = st.FieldByIndex(want.Index)
			fs[2] = st.FieldByNameFunc(func(s string) bool { return s == name })
			sym.Assert(st.NumField() == std.NumField(), "the number of fields")
			if len(want.Index) == 1 {
				fs[2] = st.Field(want.Index[0])
			}
			sym.Assert(fs[0].Type().Type1() == want.Type && fs[0].Type() == a.Type2(want.Type), "the type of the field")
		}
		sym.Assert(fs[0].Name() == name && fs[0].Offset() == want.Offset && fs[0].PkgPath() == want.PkgPath && fs[0].Anonymous() == want.Anonymous && fs[0].Tag() == want.Tag && len(fs[0].Index()) == len(want.Index), "the description of the field")
		return fs
	}
	switch n {
	case 0:
		field(get("A"), safe, &s, &r, func(b *Big) *byte { return &b.A }, b, eq[byte])
	case 1:
		field(get("B"), safe, &s, &r, func(b *Big) *int64 { return &b.B }, int64(b)<<33, eq[int64])
	case 2:
		field(get("C"), safe, &s, &r, func(b *Big) *string { return &b.C }, mkString(b), eq[string])
	case 3:
		field(get("D"), safe, &s, &r, func(b *Big) *interface{} { return &b.D }, mkAny(b), eq[interface{}])
	case 4:
		field(get("Inner"), safe, &s, &r, func(b *Big) *Inner { return &b.Inner }, Inner{b, "x", int32(b)}, eq[Inner])
	case 5:
		field(get("E"), safe, &s, &r, func(b *Big) *stringer { return &b.E }, mkIface(b), eq[stringer])
	case 6:
		field(get("F"), safe, &s, &r, func(b *Big) **int { return &b.F }, mkPtr(b), eq[*int])
	case 7:
		field(get("G"), safe, &s, &r, func(b *Big) *pair { return &b.G }, mkPair(b), eq[pair])
	case 8:
		var p *PInner
		if b&1 == 0 {
			p = &PInner{Pi1: int64(b)}
		}
		field(get("PInner"), safe, &s, &r, func(b *Big) **PInner { return &b.PInner }, p, func(a, b **PInner) bool {
			return *a == *b || *a != nil && *b != nil && **a == **b
		})
	case 9:
		field(get("H"), safe, &s, &r, func(b *Big) *[3]byte { return &b.H }, mkArr(b), eq[[3]byte])
	case 10:
		field(get("I"), safe, &s, &r, func(b *Big) *struct{} { return &b.I }, struct{}{}, eq[struct{}])
	case 11:
		field(get("J"), safe, &s, &r, func(b *Big) *single { return &b.J }, mkSingle(b), eq[single])
	case 12:
		f := someFunc
		if b&1 == 0 {
			f = otherFunc
		}
		if b == 3 {
			f = nil
		}
		field(get("K"), safe, &s, &r, func(b *Big) *func() int { return &b.K }, f, func(a, b *func() int) bool { return funcOf(a) == funcOf(b) })
	case 13:
		field(get("L"), safe, &s, &r, func(b *Big) *chan int { return &b.L }, chans[b&1], eq[chan int])
	case 14:
		field(get("M"), safe, &s, &r, func(b *Big) *unsafe.Pointer { return &b.M }, unsafe.Pointer(&shared[b&3]), eq[unsafe.Pointer])
	case 15:
		field(get("N"), safe, &s, &r, func(b *Big) *[]int { return &b.N }, slices0[b&1:], func(a, b *[]int) bool {
			return len(*a) == len(*b) && cap(*a) == cap(*b) && &(*a)[0] == &(*b)[0]
		})
	case 16:
		m := map0
		if b&1 == 0 {
			m = nil
		}
		field(get("O"), safe, &s, &r, func(b *Big) *map[string]int { return &b.O }, m, func(a, b *map[string]int) bool { return len(*a) == len(*b) && (*a == nil) == (*b == nil) })
	case 17:
		field(get("P"), safe, &s, &r, func(b *Big) *bool { return &b.P }, b&1 == 1, eq[bool])
	case 18:
		field(get("Q"), safe, &s, &r, func(b *Big) *float64 { return &b.Q }, float64(b&7), eq[float64])
	case 19:
		field(get("Z"), safe, &s, &r, func(b *Big) *byte { return &b.Z }, b, eq[byte])
	// promoted
	case 20:
		field(get("In1"), safe, &s, &r, func(b *Big) *byte { return &b.In1 }, b, eq[byte])
	case 21:
		field(get("In2"), safe, &s, &r, func(b *Big) *string { return &b.In2 }, mkString(b), eq[string])
	case 22:
		field(get("Pi1"), safe, &s, &r, func(b *Big) *int64 { return &b.Pi1 }, int64(b), eq[int64])
	case 23:
		field(get("De2"), safe, &s, &r, func(b *Big) **int { return &b.De2 }, mkPtr(b), eq[*int])
	case 24:
		field(get("Pi2"), safe, &s, &r, func(b *Big) *interface{} { return &b.Pi2 }, mkAny(b), eq[interface{}])
	case 25:
		field(get("De1"), safe, &s, &r, func(b *Big) *int16 { return &b.De1 }, int16(b)<<2, eq[int16])
	case 26: // of the package alone
		if safe {
			return
		}
		field(get("u"), safe, &s, &r, func(b *Big) *int16 { return &b.u }, int16(b)<<2, eq[int16])
	}
	// a promoted field behind a nil pointer
	if n == 22 {
		s[0].PInner = nil
		fs := get("Pi1")
		sym.Assert(panics(func() { fs[0].Get(&s[0]) }), "reading a field behind a nil pointer panics")
		v := int64(b)
		sym.Assert(panics(func() { fs[1].Set(&s[0], &v) }), "setting a field behind a nil pointer panics")
	}
}

func config() (reflect2.API, bool) {
	if sym.Choice("safe", 2) == 1 {
		return reflect2.ConfigSafe, true
	}
	return reflect2.ConfigUnsafe, false
}

func panics(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// Boxes: values of many types boxed, unboxed, copied and created
func Boxes() {
	b := sym.Byte("b")
	c := sym.Byte("c")
	k := func(x byte) int { return int(x&3) - 1 }
	switch sym.Choice("type", 33) {
	case 0:
		box(b&1 == 1, c&1 == 1, eq[bool], false)
	case 1:
		box(b, c, eq[byte], false)
	case 2:
		box(int16(b)<<7, int16(c)<<7, eq[int16], false)
	case 3:
		box(int(b)<<40, int(c), eq[int], false)
	case 4:
		box(uint32(b)<<20, uint32(c), eq[uint32], false)
	case 5:
		box(float64(k(b)), float64(k(c)), eq[float64], false)
	case 6:
		box(float32(k(b)), float32(k(c)), eq[float32], false)
	case 7:
		box(complex(float64(k(b)), 1), complex(1, float64(k(c))), eq[complex128], false)
	case 8:
		box(mkString(b), mkString(c), eq[string], false)
	case 9:
		box(str(mkString(b)), str(mkString(c)), eq[str], false)
	case 10:
		box(mkAny(b), mkAny(c), eq[interface{}], false)
	case 11:
		box(mkIface(b), mkIface(c), eq[stringer], false)
	case 12:
		box(mkPtr(b), mkPtr(c), eq[*int], true)
	case 13:
		p, q := mkPtr(b), mkPtr(c)
		box(&p, &q, eq[**int], true)
	case 14:
		box(mkPair(b), mkPair(c), eq[pair], false)
	case 15:
		box(mkSingle(b), mkSingle(c), eq[single], true)
	case 16:
		box(OneNested{One{mkPtr(b)}}, OneNested{One{mkPtr(c)}}, eq[OneNested], true)
	case 17:
		box(Two{V: mkPtr(b)}, Two{V: mkPtr(c)}, eq[Two], false)
	case 18:
		box([1]*int{mkPtr(b)}, [1]*int{mkPtr(c)}, eq[[1]*int], true)
	case 19:
		box([2]*int{mkPtr(b)}, [2]*int{1: mkPtr(c)}, eq[[2]*int], false)
	case 20:
		box([1]One{{mkPtr(b)}}, [1]One{{mkPtr(c)}}, eq[[1]One], true)
	case 21:
		box(mkArr(b), mkArr(c), eq[[3]byte], false)
	case 22:
		box(struct{}{}, struct{}{}, eq[struct{}], false)
	case 23:
		box([0]int{}, [0]int{}, eq[[0]int], false)
	case 24:
		box(chans[b&1], chans[c&1], eq[chan int], true)
	case 25:
		fs := [...]func() int{nil, someFunc, otherFunc, someFunc}
		box(fs[b&3], fs[c&3], func(a, b *func() int) bool { return funcOf(a) == funcOf(b) }, true)
	case 26:
		fs := [...]func() int{nil, someFunc, otherFunc, someFunc}
		box(OneFunc{fs[b&3]}, OneFunc{fs[c&3]}, func(a, b *OneFunc) bool { return funcOf(&a.V) == funcOf(&b.V) }, true)
	case 27:
		box(unsafe.Pointer(&shared[b&3]), unsafe.Pointer(&shared[c&3]), eq[unsafe.Pointer], true)
	case 28:
		ms := [...]map[string]int{nil, map0, {}, map0}
		box(ms[b&3], ms[c&3], func(a, b *map[string]int) bool {
			return *(*unsafe.Pointer)(unsafe.Pointer(a)) == *(*unsafe.Pointer)(unsafe.Pointer(b))
		}, true)
	case 29:
		ss := [...][]int{nil, slices0, {}, slices0[1:2]}
		box(ss[b&3], ss[c&3], func(a, b *[]int) bool {
			return len(*a) == len(*b) && cap(*a) == cap(*b) && (*a == nil) == (*b == nil) && (len(*a) == 0 || &(*a)[0] == &(*b)[0])
		}, false)
	case 30:
		box(uintptr(b), uintptr(c), eq[uintptr], false)
	case 31:
		box([1]string{mkString(b)}, [1]string{mkString(c)}, eq[[1]string], false)
	case 32:
		box(struct{ V interface{} }{mkAny(b)}, struct{ V interface{} }{mkAny(c)}, eq[struct{ V interface{} }], false)
	}
}

func box[T any](v, w T, same func(a, b *T) bool, likePtr bool) {
	a, safe := config()
	std := reflect.TypeOf(&v).Elem()
	if sym.Choice("other", 2) == 1 { // what the other implementation knows makes no difference
		if safe {
			reflect2.ConfigUnsafe.Type2(std)
		} else {
			reflect2.ConfigSafe.Type2(std)
		}
	}
	typ := a.Type2(std)
	sym.Assert(typ.Kind() == std.Kind() && typ.Type1() == std && typ.String() == std.String(), "describes the type")
	sym.Assert(a.Type2(std) == typ, "one description for a type")
	var box0 interface{} = v
	isIface := std.Kind() == reflect.Interface
	if !isIface {
		sym.Assert(a.TypeOf(v) == typ, "one description for a type, from a value as from a type")
	}
	// around the value there are others, not to be touched
	var zero T
	mem, ref := [3]T{v, v, v}, [3]T{v, v, v}
	checkMem := func() {
		for i := range mem {
			sym.Assert(same(&mem[i], &ref[i]), "memory is as with plain Go code")
		}
	}
	raw := !safe && sym.Choice("raw", 2) == 1
	// create
	var p *T
	if raw {
		p = (*T)(typ.UnsafeNew())
	} else {
		p = typ.New().(*T)
	}
	sym.Assert(same(p, &zero), "a new value is the zero value")
	*p = w
	sym.Assert(same(p, &w), "a new value can be written")
	var o *T
	if raw {
		o = (*T)(typ.UnsafeNew())
	} else {
		o = typ.New().(*T)
	}
	sym.Assert(same(o, &zero) && same(p, &w), "each new value is another one")
	// box
	if !safe {
		q := typ.PackEFace(unsafe.Pointer(&mem[1]))
		qq, ok := q.(*T)
		sym.Assert(ok && qq == &mem[1], "a pointer as a value of the pointer type")
		sym.Assert(typ.LikePtr() == likePtr, "whether interface values of it hold the value itself")
		sym.Assert(typ.RType() == uintptr(reflect2.PtrOf(std)) && (isIface || typ.RType() == reflect2.RTypeOf(v)), "the address of the type")
	}
	var unboxed interface{}
	if raw {
		unboxed = typ.UnsafeIndirect(unsafe.Pointer(&mem[1]))
	} else {
		unboxed = typ.Indirect(&mem[1])
	}
	sym.Assert(reflect.TypeOf(unboxed) == reflect.TypeOf(box0), "the dynamic type is as with plain Go code")
	if box0 != nil || !isIface {
		u, ok := unboxed.(T)
		sym.Assert(ok && same(&u, &v), "the value is as with plain Go code")
	} else {
		sym.Assert(unboxed == nil, "nil is nil")
	}
	if !isIface && !likePtr && std.Comparable() {
		sym.Assert(unboxed == box0, "equal as interface values")
	}
	checkMem()
	nullable := false
	switch std.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface:
		nullable = true
	}
	sym.Assert(typ.IsNullable() == nullable && reflect2.IsNullable(std.Kind()) == nullable, "whether it can be nil")
	if nullable {
		isNil := reflect.ValueOf(&v).Elem().IsNil()
		if std != reflect.TypeOf((*interface{})(nil)).Elem() || isNil || reflect.TypeOf(box0).Kind() != reflect.Ptr {
			if raw {
				sym.Assert(typ.UnsafeIsNil(unsafe.Pointer(&mem[1])) == isNil, "nil or not")
			} else {
				sym.Assert(typ.IsNil(&mem[1]) == isNil, "nil or not")
			}
		}
	}
	if isIface {
		if raw && std.NumMethod() > 0 {
			sym.Assert(reflect2.IFaceToEFace(unsafe.Pointer(&mem[1])) == box0, "an interface value as one without methods")
		}
	} else if likePtr && std.Kind() != reflect.Struct && std.Kind() != reflect.Array {
		sym.Assert(reflect2.IsNil(box0) == reflect.ValueOf(box0).IsNil(), "nil or not")
	} else if std.Kind() != reflect.Slice && !likePtr {
		sym.Assert(!reflect2.IsNil(box0), "is not nil")
	}
	sym.Assert(reflect2.PtrOf(&mem[1]) == unsafe.Pointer(&mem[1]) && reflect2.NoEscape(unsafe.Pointer(&mem[1])) == unsafe.Pointer(&mem[1]), "the pointer of a pointer")
	checkMem()
	// copy
	x := w
	if raw {
		typ.UnsafeSet(unsafe.Pointer(&mem[1]), unsafe.Pointer(&x))
	} else {
		typ.Set(&mem[1], &x)
	}
	ref[1] = w
	sym.Assert(same(&x, &w), "the source is not changed")
	x = zero
	checkMem()
	sym.Reach("checked")
}

// Rejects: values of other types are not taken for values of the type
func Rejects() {
	type myInt int
	type wrapped struct{ V int }
	n := 5
	pn := &n
	u := uint(6)
	m := myInt(7)
	wr := wrapped{8}
	s := "s"
	e := interface{}(9)
	wrong := []interface{}{nil, n, &pn, &u, &m, &wr, &s, &e, s, (*wrapped)(nil)}[sym.Choice("wrong", 10)]
	list := []int{1, 2}
	array := [2]int{1, 2}
	dict := map[int]int{1: 2}
	rec := struct{ A, B int }{1, 2}
	type2 := reflect2.TypeOf
	i := 3
	var f func()
	switch sym.Choice("op", 27) {
	case 0:
		f = func() { type2(n).Set(wrong, &i) }
	case 1:
		f = func() { type2(n).Set(&n, wrong) }
	case 2:
		f = func() { type2(n).Indirect(wrong) }
	case 3:
		f = func() { type2(list).(reflect2.SliceType).SetIndex(wrong, 0, &i) }
	case 4:
		f = func() { type2(list).(reflect2.SliceType).SetIndex(&list, 0, wrong) }
	case 5:
		f = func() { type2(list).(reflect2.SliceType).GetIndex(wrong, 0) }
	case 6:
		f = func() { type2(list).(reflect2.SliceType).Append(wrong, &i) }
	case 7:
		f = func() { type2(list).(reflect2.SliceType).Append(&list, wrong) }
	case 8:
		f = func() { type2(list).(reflect2.SliceType).Grow(wrong, 3) }
	case 9:
		f = func() { type2(list).(reflect2.SliceType).SetNil(wrong) }
	case 10:
		f = func() { type2(list).(reflect2.SliceType).LengthOf(wrong) }
	case 11:
		f = func() { type2(list).(reflect2.SliceType).Cap(wrong) }
	case 12:
		f = func() { type2(list).Set(wrong, &list) }
	case 13:
		f = func() { type2(list).Set(&list, wrong) }
	case 14:
		f = func() { type2(array).(reflect2.ArrayType).SetIndex(wrong, 0, &i) }
	case 15:
		f = func() { type2(array).(reflect2.ArrayType).SetIndex(&array, 0, wrong) }
	case 16:
		f = func() { type2(array).(reflect2.ArrayType).GetIndex(wrong, 0) }
	case 17:
		f = func() { type2(dict).(reflect2.MapType).SetIndex(wrong, &i, &i) }
	case 18:
		f = func() { type2(dict).(reflect2.MapType).SetIndex(&dict, wrong, &i) }
	case 19:
		f = func() { type2(dict).(reflect2.MapType).SetIndex(&dict, &i, wrong) }
	case 20:
		f = func() { type2(dict).(reflect2.MapType).GetIndex(wrong, &i) }
	case 21:
		f = func() { type2(dict).(reflect2.MapType).GetIndex(&dict, wrong) }
	case 22:
		f = func() { type2(dict).(reflect2.MapType).TryGetIndex(&dict, wrong) }
	case 23:
		f = func() { type2(dict).(reflect2.MapType).Iterate(wrong) }
	case 24:
		f = func() { type2(rec).(reflect2.StructType).Field(1).Set(wrong, &i) }
	case 25:
		f = func() { type2(rec).(reflect2.StructType).Field(1).Set(&rec, wrong) }
	case 26:
		f = func() { type2(rec).(reflect2.StructType).FieldByName("B").Get(wrong) }
	}
	sym.Assert(panics(f), "a value of another type is rejected")
	sym.Assert(n == 5 && u == 6 && m == 7 && wr.V == 8 && s == "s" && e == interface{}(9) && i == 3 && pn == &n, "and not changed")
	sym.Assert(len(list) == 2 && list[0] == 1 && list[1] == 2 && array == [2]int{1, 2} && len(dict) == 1 && dict[1] == 2 && rec.A == 1 && rec.B == 2, "nor what it was to be put in")
	sym.Reach("checked")
}

type Num int
type Nums []int
type Chars interface {
	String() string
	Len() int
}

func (n Num) String() string { return "" }
func (n *Num) Len() int      { return 1 }

// two types of the same name
func local1() interface{} {
	type Local struct{ A, B byte }
	return Local{1, 2}
}
func local2() interface{} {
	type Local struct{ A, B int64 }
	return Local{1, 2}
}

// Relations between types and what is known of them are as package reflect has them
func Relations() {
	a, _ := config()
	var num Num
	types := []reflect.Type{
		reflect.TypeOf(0), reflect.TypeOf(num), reflect.TypeOf(&num), reflect.TypeOf((*int)(nil)), reflect.TypeOf(""), reflect.TypeOf(str("")),
		reflect.TypeOf(&thePstr), reflect.TypeOf(thePstr), reflect.TypeOf([]int(nil)), reflect.TypeOf(Nums(nil)), reflect.TypeOf(map[string]int(nil)),
		reflect.TypeOf(func() int { return 1 }), reflect.TypeOf(make(chan int)), reflect.TypeOf((<-chan int)(nil)), reflect.TypeOf([2]int{}), reflect.TypeOf(One{}), reflect.TypeOf(struct{ V *int }{}),
		reflect.TypeOf(local1()), reflect.TypeOf(local2()), reflect.TypeOf((*stringer)(nil)).Elem(), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*Chars)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(),
	}
	n := sym.Choice("type", len(types))
	t := types[n]
	typ := a.Type2(t)
	sym.Assert(typ.Type1() == t && typ.Kind() == t.Kind() && typ.String() == t.String(), "describes the type")
	sym.Assert(reflect2.PtrTo(typ).Type1() == reflect.PtrTo(t), "the pointer type")
	for _, u := range types {
		other := a.Type2(u)
		sym.Assert((other == typ) == (t == u), "a description for each type")
		sym.Assert(typ.AssignableTo(other) == t.AssignableTo(u), "assignable or not")
		if u.Kind() == reflect.Interface {
			sym.Assert(typ.Implements(other) == t.Implements(u), "implements or not")
		}
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		e, ok := typ.(interface{ Elem() reflect2.Type })
		sym.Assert(ok && e.Elem() == a.Type2(t.Elem()), "the element type")
	}
	if t.Kind() == reflect.Map {
		sym.Assert(typ.(reflect2.MapType).Key() == a.Type2(t.Key()), "the key type")
	}
	if d := reflect2.DefaultTypeOfKind(t.Kind()); d != nil {
		sym.Assert(d.Kind() == t.Kind() && d.Type1().PkgPath() == "", "the plain type of a kind")
	}
	sym.Reach("checked")
}

// Kinds: the plain types
func Kinds() {
	want := map[reflect.Kind]interface{}{
		reflect.Bool: true, reflect.Int: int(0), reflect.Int8: int8(0), reflect.Int16: int16(0), reflect.Int32: int32(0), reflect.Int64: int64(0),
		reflect.Uint: uint(0), reflect.Uint8: uint8(0), reflect.Uint16: uint16(0), reflect.Uint32: uint32(0), reflect.Uint64: uint64(0), reflect.Uintptr: uintptr(0),
		reflect.Float32: float32(0), reflect.Float64: float64(0), reflect.String: "", reflect.UnsafePointer: unsafe.Pointer(nil),
	}
	for k := reflect.Invalid; k <= reflect.UnsafePointer; k++ {
		v, ok := want[k]
		d := reflect2.DefaultTypeOfKind(k)
		sym.Assert(ok == (d != nil), "the kinds with a plain type")
		if ok {
			sym.Assert(d.Type1() == reflect.TypeOf(v) && d == reflect2.TypeOf(v), "the plain type of a kind")
		}
	}
	big := reflect2.TypeByName("main.Big")
	sym.Assert(big != nil && big.Type1() == reflect.TypeOf(Big{}) && big == reflect2.TypeOf(Big{}), "a type by its name")
	sym.Reach("checked")
}
