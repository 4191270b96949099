//go:build go1.21

package main

import (
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"github.com/v2pro/plz/zzverif/sym"
)

type pair struct {
	a byte
	b int64
}

type single struct{ p *int }

type stringer interface{ String() string }

type str string

func (s str) String() string { return string(s) }

type pstr struct{ b byte }

func (p *pstr) String() string { return "pstr" }

var thePstr pstr

var shared [4]int

// Slices: histories of operations on slices of many types
func Slices() {
	switch sym.Choice("type", sym.Param("types", 14)) {
	case 0:
		slices(func(b byte) int8 { return int8(b) })
	case 1:
		slices(func(b byte) int64 { return int64(b)<<40 + int64(b) })
	case 2:
		slices(func(b byte) string { return string([]byte{b, 'x'}) })
	case 3:
		slices(mkAny)
	case 4:
		slices(mkIface)
	case 5:
		slices(mkPtr)
	case 6:
		slices(func(b byte) pair { return pair{b, int64(b) << 9} })
	case 7:
		slices(func(b byte) [3]byte { return [3]byte{b, 'x', b + 1} })
	case 8:
		slices(func(b byte) struct{} { return struct{}{} })
	case 9:
		slices(func(b byte) single { return single{&shared[b&3]} })
	case 10:
		slices(func(b byte) bool { return b&1 == 1 })
	case 11:
		slices(func(b byte) [1]*int { return [1]*int{&shared[b&3]} })
	case 12:
		slices(func(b byte) uint16 { return uint16(b) << 3 })
	case 13:
		slices(func(b byte) float64 { return float64(b&7) / 2 })
	}
}

func slices[T comparable](mk func(b byte) T) {
	safe := sym.Choice("safe", 2) == 1
	var a reflect2.API = reflect2.ConfigUnsafe
	if safe {
		a = reflect2.ConfigSafe
	}
	var zero T
	typ := a.TypeOf([]T(nil)).(reflect2.SliceType)
	// two worlds: one changed by reflect2, the other by plain Go
	const size = 6
	var base, ref [size]T
	for i := range base {
		v := mk(byte(i + 1))
		base[i], ref[i] = v, v
	}
	var s, r []T
	switch sym.Choice("start", 4) {
	case 0: // nil
	case 1:
		s, r = base[1:3:4], ref[1:3:4]
	case 2:
		s, r = base[2:2:2], ref[2:2:2]
	case 3: // made
		l := sym.Choice("length", 3)
		c := l + sym.Choice("more", 2)
		var p *[]T
		if !safe && sym.Choice("raw", 2) == 1 {
			p = (*[]T)(typ.UnsafeMakeSlice(l, c))
		} else {
			p = typ.MakeSlice(l, c).(*[]T)
		}
		s, r = *p, make([]T, l, c)
		sym.Assert(cap(s) == c, "has the capacity")
	}
	check := func() {
		sym.Assert(len(s) == len(r) && (s == nil) == (r == nil), "the slice is as with plain Go code")
		for i := range r {
			sym.Assert(s[i] == r[i], "the elements are as with plain Go code")
		}
		for i := range ref {
			sym.Assert(base[i] == ref[i], "memory outside of the slice is as with plain Go code")
		}
	}
	check()
	n := sym.Param("n", 3)
	for step := 0; step < n; step++ {
		raw := !safe && sym.Choice("raw", 2) == 1
		switch sym.Choice("op", 6) {
		case 0: // append
			v := mk(sym.Byte("v"))
			w := v
			oldcap := cap(s)
			if raw {
				typ.UnsafeAppend(unsafe.Pointer(&s), unsafe.Pointer(&v))
			} else {
				typ.Append(&s, &v)
			}
			sym.Assert(v == w, "the value is not changed")
			sym.Assert(len(r) < oldcap && cap(s) == oldcap || len(r) >= oldcap && cap(s) > len(r), "the capacity suffices, and is kept if it did")
			if len(r) >= oldcap {
				t := make([]T, len(r), cap(s))
				copy(t, r)
				r = t
			}
			r = append(r, w)
			v = zero // the slice has a copy
		case 1: // set
			if len(r) == 0 {
				continue
			}
			i := sym.IntIn("i", 0, len(r)-1)
			v := mk(sym.Byte("v"))
			if raw {
				typ.UnsafeSetIndex(unsafe.Pointer(&s), i, unsafe.Pointer(&v))
			} else {
				typ.SetIndex(&s, i, &v)
			}
			r[i] = v
			v = zero
		case 2: // get
			if len(r) == 0 {
				continue
			}
			i := sym.IntIn("i", 0, len(r)-1)
			var p *T
			if raw {
				p = (*T)(typ.UnsafeGetIndex(unsafe.Pointer(&s), i))
			} else {
				p = typ.GetIndex(&s, i).(*T)
			}
			sym.Assert(*p == r[i], "the element")
		case 3: // grow
			k := len(r) + sym.Choice("by", 4) - 1
			if k < 0 {
				continue
			}
			oldcap := cap(s)
			if raw {
				typ.UnsafeGrow(unsafe.Pointer(&s), k)
			} else {
				typ.Grow(&s, k)
			}
			sym.Assert(cap(s) >= k && (k > oldcap || cap(s) == oldcap), "the capacity suffices, and is kept if it did")
			if k > oldcap {
				t := make([]T, k, cap(s))
				copy(t, r)
				r = t
			} else {
				r = r[:k]
			}
		case 4: // assign
			var t, u []T
			if sym.Choice("other", 2) == 1 {
				t, u = base[0:5:6], ref[0:5:6]
			}
			if raw {
				typ.UnsafeSet(unsafe.Pointer(&s), unsafe.Pointer(&t))
			} else {
				typ.Set(&s, &t)
			}
			r = u
			t = nil
		case 5:
			if raw {
				typ.UnsafeSetNil(unsafe.Pointer(&s))
			} else {
				typ.SetNil(&s)
			}
			r = nil
		}
		check()
		if raw {
			sym.Assert(typ.UnsafeLengthOf(unsafe.Pointer(&s)) == len(r) && typ.UnsafeCap(unsafe.Pointer(&s)) == cap(s) && typ.UnsafeIsNil(unsafe.Pointer(&s)) == (r == nil), "length, capacity and nil")
		} else {
			sym.Assert(typ.LengthOf(&s) == len(r) && typ.Cap(&s) == cap(s) && typ.IsNil(&s) == (r == nil), "length, capacity and nil")
		}
	}
	sym.Reach("checked")
}

// Arrays of many types and lengths
func Arrays() {
	switch sym.Choice("type", 11) {
	case 0:
		array3(func(b byte) int8 { return int8(b) })
	case 1:
		array3(func(b byte) int64 { return int64(b)<<40 + int64(b) })
	case 2:
		array3(func(b byte) string { return string([]byte{b, 'x'}) })
	case 3:
		array3(func(b byte) interface{} {
			if b&3 == 0 {
				return nil
			}
			return int(b)
		})
	case 4:
		array3(func(b byte) pair { return pair{b, int64(b) << 9} })
	case 5:
		array3(func(b byte) struct{} { return struct{}{} })
	case 6:
		array3(mkPtr)
	case 7:
		array1(mkPtr)
	case 8:
		array1(func(b byte) int32 { return int32(b) << 3 })
	case 9:
		array1(func(b byte) single { return single{&shared[b&3]} })
	case 10:
		array1(func(b byte) string { return string([]byte{b, 'x'}) })
	}
}

func array3[T comparable](mk func(b byte) T) {
	type around struct {
		before T
		a      [3]T
		after  T
	}
	var s, r around
	s.before, s.after = mk(1), mk(2)
	r = s
	safe := sym.Choice("safe", 2) == 1
	typ := reflect2.API(reflect2.ConfigUnsafe).TypeOf(s.a)
	if safe {
		typ = reflect2.ConfigSafe.TypeOf(s.a)
	}
	for n := 0; n < sym.Param("n", 3); n++ {
		arrayOp(typ.(reflect2.ListType), safe, mk, &s.a, s.a[:], r.a[:])
		sym.Assert(s == r, "the array is as with plain Go code, and the memory around it")
	}
	v := typ.Indirect(&s.a)
	w, ok := v.([3]T)
	sym.Assert(ok && w == r.a && v == interface{}(r.a), "the array as a value")
	if !safe {
		sym.Assert(typ.(reflect2.ArrayType).Len() == 3, "the length")
	}
	sym.Reach("checked")
}

func array1[T comparable](mk func(b byte) T) {
	type around struct {
		before T
		a      [1]T
		after  T
	}
	var s, r around
	s.before, s.after = mk(1), mk(2)
	r = s
	safe := sym.Choice("safe", 2) == 1
	typ := reflect2.API(reflect2.ConfigUnsafe).TypeOf(s.a)
	if safe {
		typ = reflect2.ConfigSafe.TypeOf(s.a)
	}
	for n := 0; n < sym.Param("n", 3); n++ {
		arrayOp(typ.(reflect2.ListType), safe, mk, &s.a, s.a[:], r.a[:])
		sym.Assert(s == r, "the array is as with plain Go code, and the memory around it")
	}
	v := typ.Indirect(&s.a)
	w, ok := v.([1]T)
	sym.Assert(ok && w == r.a && v == interface{}(r.a), "the array as a value")
	if !safe {
		_, direct := interface{}(*new(T)).(*int)
		_, wrapped := interface{}(*new(T)).(single)
		sym.Assert(typ.LikePtr() == (direct || wrapped), "an array of one pointer is like a pointer")
		sym.Assert(typ.(reflect2.ArrayType).Len() == 1, "the length")
	}
	sym.Reach("checked")
}

func arrayOp[T comparable](typ reflect2.ListType, safe bool, mk func(b byte) T, obj interface{}, s, r []T) {
	raw := !safe && sym.Choice("raw", 2) == 1
	ptr := reflect2.PtrOf(obj)
	i := sym.IntIn("i", 0, len(r)-1)
	if sym.Choice("op", 2) == 0 {
		v := mk(sym.Byte("v"))
		if raw {
			typ.UnsafeSetIndex(ptr, i, unsafe.Pointer(&v))
		} else {
			typ.SetIndex(obj, i, &v)
		}
		r[i] = v
		v = *new(T)
	} else {
		var p *T
		if raw {
			p = (*T)(typ.UnsafeGetIndex(ptr, i))
		} else {
			p = typ.GetIndex(obj, i).(*T)
		}
		sym.Assert(*p == r[i], "the element")
	}
}
