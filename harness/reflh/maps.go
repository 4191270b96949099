//go:build go1.21

package main

import (
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"github.com/v2pro/plz/zzverif/sym"
)

func mkInt(b byte) int        { return int(b) }
func mkInt8(b byte) int8      { return int8(b) }
func mkString(b byte) string  { return string([]byte{b}) }
func mkPair(b byte) pair      { return pair{b, int64(b) << 9} }
func mkSingle(b byte) single  { return single{&shared[b&3]} }
func mkArr(b byte) [3]byte    { return [3]byte{b, 'x', b + 1} }
func mkEmpty(b byte) struct{} { return struct{}{} }
func mkPtr(b byte) *int {
	if b&3 == 0 {
		return nil
	}
	return &shared[b&3]
}
func mkAny(b byte) interface{} {
	switch b & 3 {
	case 0:
		return nil
	case 1:
		return int(b)
	case 2:
		return mkPtr(b >> 2)
	}
	return string([]byte{b})
}
func mkIface(b byte) stringer {
	switch b & 3 {
	case 0:
		return nil
	case 1:
		return (*pstr)(nil)
	case 2:
		return &thePstr
	}
	return str([]byte{b})
}
func mkNamed(b byte) [17]int64 { return [17]int64{0: int64(b), 16: int64(b) << 3} } // larger than what a map holds in place

// Maps: histories of operations on maps of many types
func Maps() {
	switch sym.Choice("type", sym.Param("types", 16)) {
	case 0:
		maps(mkInt, mkString)
	case 1:
		maps(mkString, mkInt)
	case 2:
		maps(mkAny, mkAny)
	case 3:
		maps(mkIface, mkInt8)
	case 4:
		maps(mkPair, mkPair)
	case 5:
		maps(mkInt8, mkSingle)
	case 6:
		maps(mkPtr, mkPtr)
	case 7:
		maps(mkArr, mkArr)
	case 8:
		maps(mkString, mkEmpty)
	case 9:
		maps(mkEmpty, mkInt)
	case 10:
		maps(mkInt, mkAny)
	case 11:
		maps(mkString, mkIface)
	case 12:
		maps(mkSingle, mkInt)
	case 13:
		maps(func(b byte) bool { return b&1 == 1 }, func(b byte) bool { return b&1 == 0 })
	case 14:
		maps(mkInt, mkNamed)
	case 15:
		maps(mkNamed, mkInt)
	}
}

func maps[K, V comparable](mk func(b byte) K, mv func(b byte) V) {
	safe := sym.Choice("safe", 2) == 1
	var a reflect2.API = reflect2.ConfigUnsafe
	if safe {
		a = reflect2.ConfigSafe
	}
	typ := a.TypeOf(map[K]V(nil)).(reflect2.MapType)
	var m, ref map[K]V
	switch sym.Choice("start", 3) {
	case 0:
		c := sym.Choice("capacity", 3) * 5
		if !safe && sym.Choice("raw", 2) == 1 {
			m = *(*map[K]V)(typ.UnsafeMakeMap(c))
		} else {
			m = *typ.MakeMap(c).(*map[K]V)
		}
		sym.Assert(m != nil && len(m) == 0, "the map made is empty")
		ref = map[K]V{}
	case 1:
		k := mk(sym.Byte("k"))
		m, ref = map[K]V{k: mv(8)}, map[K]V{k: mv(8)}
	case 2: // nil: not to be set, but to be read
	}
	n := sym.Param("n", 2)
	for step := 0; step < n; step++ {
		raw := !safe && sym.Choice("raw", 2) == 1
		k := mk(sym.Byte("k"))
		k0 := k
		op := sym.Choice("op", 4)
		switch op {
		case 0:
			if ref == nil {
				continue
			}
			v := mv(sym.Byte("v"))
			w := v
			if raw {
				typ.UnsafeSetIndex(unsafe.Pointer(&m), unsafe.Pointer(&k), unsafe.Pointer(&v))
			} else {
				typ.SetIndex(&m, &k, &v)
			}
			sym.Assert(v == w, "the value is not changed")
			ref[k0] = w
			v = *new(V) // the map has copies
		case 1:
			w, found := ref[k0]
			var p *V
			if raw {
				p = (*V)(typ.UnsafeGetIndex(unsafe.Pointer(&m), unsafe.Pointer(&k)))
			} else {
				p = typ.GetIndex(&m, &k).(*V)
			}
			sym.Assert((p != nil) == found && (p == nil || *p == w), "the value got, or nil")
		case 2:
			w, found := ref[k0]
			if raw { // typed values only
				continue
			}
			p, ok := typ.TryGetIndex(&m, &k)
			sym.Assert(ok == found, "whether there is such a key")
			if ok {
				sym.Assert(*p.(*V) == w, "the value got")
			} else {
				sym.Assert(p == nil, "no value")
			}
		case 3:
			if raw {
				o := map[K]V{k0: mv(9)}
				typ.UnsafeSet(unsafe.Pointer(&m), unsafe.Pointer(&o))
				o = nil
			} else {
				o := map[K]V{k0: mv(9)}
				typ.Set(&m, &o)
				o = nil
			}
			ref = map[K]V{k0: mv(9)}
		}
		sym.Assert(k == k0, "the key is not changed")
		if raw {
			sym.Assert(typ.UnsafeIsNil(unsafe.Pointer(&m)) == (ref == nil), "nil or not")
		} else {
			sym.Assert(typ.IsNil(&m) == (ref == nil), "nil or not")
		}
		k = *new(K)
	}
	// the same entries, by plain Go code and by iteration
	sym.Assert(len(m) == len(ref), "the number of entries")
	for k, v := range ref {
		w, found := m[k]
		sym.Assert(found && v == w, "each entry is as with plain Go code")
	}
	raw := !safe && sym.Choice("raw", 2) == 1
	var iter reflect2.MapIterator
	if raw {
		iter = typ.UnsafeIterate(unsafe.Pointer(&m))
	} else {
		iter = typ.Iterate(&m)
	}
	seen := map[K]bool{}
	for count := 0; iter.HasNext(); count++ {
		sym.Assert(count < len(ref), "not more entries than there are")
		var k *K
		var v *V
		if raw {
			x, y := iter.UnsafeNext()
			k, v = (*K)(x), (*V)(y)
		} else {
			x, y := iter.Next()
			k, v = x.(*K), y.(*V)
		}
		w, found := ref[*k]
		sym.Assert(found && *v == w && !seen[*k], "each entry once and with its value")
		seen[*k] = true
	}
	sym.Assert(len(seen) == len(ref), "every entry is visited")
	// as a value
	o, ok := typ.Indirect(&m).(map[K]V)
	sym.Assert(ok && (o == nil) == (m == nil) && len(o) == len(m), "the map as a value")
	if o != nil {
		o[mk(3)] = mv(5)
		sym.Assert(m[mk(3)] == mv(5), "is the same map")
	}
	sym.Reach("checked")
}
