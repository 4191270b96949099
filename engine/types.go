package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"hash/fnv"
	"reflect"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

type leaf struct {
	off  uint64
	w    uint8
	bool bool
}

type TypeInfo struct {
	T       types.Type
	U       types.Type // underlying
	size    uint64
	align   uint64
	leaves  []leaf
	n       int
	direct  bool // pointer shaped: stored directly in interface word
	rt      *Obj
	isIface bool
	width   uint8 // scalars: bits
	signed  bool
	isFloat bool
	isBool  bool
	isStr   bool
	fOff    []uint64 // struct field byte offsets
	fSlot   []int    // struct field slot offsets
	elem    *TypeInfo
	id      int
}

var gcSizes = types.SizesFor("gc", "amd64")

func (m *Machine) ti(t types.Type) *TypeInfo {
	if x, ok := m.tiPtr[t]; ok {
		return x
	}
	if x := m.tiMap.At(t); x != nil {
		m.tiPtr[t] = x.(*TypeInfo)
		return x.(*TypeInfo)
	}
	x := &TypeInfo{T: t, U: t.Underlying()}
	m.nextTI++
	x.id = m.nextTI
	m.tiMap.Set(t, x)
	m.tiPtr[t] = x
	m.fillTI(x)
	return x
}

func (m *Machine) fillTI(x *TypeInfo) {
	switch u := x.U.(type) {
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			x.fSlot = append(x.fSlot, x.n)
			e := m.ti(u.At(i).Type())
			x.leaves = append(x.leaves, e.leaves...)
			x.n += e.n
		}
		return
	}
	st := x.T
	if b, ok := st.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		st = types.Default(st)
		if b.Kind() == types.UntypedNil {
			st = types.Typ[types.UnsafePointer]
		}
	}
	x.size = uint64(gcSizes.Sizeof(st))
	x.align = uint64(gcSizes.Alignof(st))
	one := func(w uint8) { x.leaves = []leaf{{0, w, false}} }
	switch u := x.U.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			x.leaves = []leaf{{0, 1, true}}
			x.isBool = true
		case types.Int8, types.Uint8:
			one(1)
		case types.Int16, types.Uint16:
			one(2)
		case types.Int32, types.Uint32, types.Float32:
			one(4)
		case types.Int64, types.Uint64, types.Float64, types.Int, types.Uint, types.Uintptr, types.UntypedInt, types.UntypedFloat:
			one(8)
		case types.UntypedRune:
			one(4)
		case types.UnsafePointer, types.UntypedNil:
			one(8)
			x.direct = u.Kind() == types.UnsafePointer
		case types.String, types.UntypedString:
			x.leaves = []leaf{{0, 8, false}, {8, 8, false}}
			x.isStr = true
		case types.Complex128:
			x.leaves = []leaf{{0, 8, false}, {8, 8, false}}
		case types.Complex64:
			x.leaves = []leaf{{0, 4, false}, {4, 4, false}}
		case types.Invalid:
			x.leaves = nil
		}
		if u.Info()&types.IsInteger != 0 || u.Info()&types.IsFloat != 0 {
			x.width = uint8(x.size * 8)
			if u.Kind() == types.UntypedInt || u.Kind() == types.UntypedFloat {
				x.width = 64
			}
			x.signed = u.Info()&types.IsInteger != 0 && u.Info()&types.IsUnsigned == 0
			x.isFloat = u.Info()&types.IsFloat != 0
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		one(8)
		x.direct = true
	case *types.Slice:
		x.leaves = []leaf{{0, 8, false}, {8, 8, false}, {16, 8, false}}
	case *types.Interface:
		x.leaves = []leaf{{0, 8, false}, {8, 8, false}}
		x.isIface = true
	case *types.Array:
		e := m.ti(u.Elem())
		x.elem = e
		n := int(u.Len())
		if n*e.n > 1<<20 {
			// too large to be used as a register value; leave leaves nil, loads are unsupported
			x.n = n * e.n
			return
		}
		for i := 0; i < n; i++ {
			for _, l := range e.leaves {
				x.leaves = append(x.leaves, leaf{l.off + uint64(i)*e.size, l.w, l.bool})
			}
		}
		x.direct = n == 1 && e.direct
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := gcSizes.Offsetsof(fs)
		for i, f := range fs {
			e := m.ti(f.Type())
			x.fOff = append(x.fOff, uint64(offs[i]))
			x.fSlot = append(x.fSlot, len(x.leaves))
			for _, l := range e.leaves {
				x.leaves = append(x.leaves, leaf{l.off + uint64(offs[i]), l.w, l.bool})
			}
		}
		x.direct = len(fs) == 1 && m.ti(fs[0].Type()).direct
	case *types.TypeParam:
	default:
		_ = u
	}
	x.n = len(x.leaves)
}

// ---- runtime type descriptors laid out like internal/abi (go1.23)

type rtMeta struct{ ti *TypeInfo }
type itabMeta struct {
	ti    *TypeInfo // dynamic type
	iface types.Type
}

func (m *Machine) permObj(size uint64, label string) *Obj {
	ip := m.initPhase
	m.initPhase = true
	o := m.newObj(size, label)
	m.initPhase = ip
	return o
}

func (m *Machine) rtype(t types.Type) *Obj {
	x := m.ti(t)
	if x.rt == nil {
		sz := uint64(48)
		switch u := x.U.(type) {
		case *types.Array:
			sz = 72
		case *types.Chan:
			sz = 64
		case *types.Signature:
			sz = 56 + 8*uint64(u.Params().Len()+u.Results().Len()) + 16
		case *types.Interface:
			sz = 48 + 8 + 24
		case *types.Map:
			sz = 48 + 24 + 8 + 8
		case *types.Pointer, *types.Slice:
			sz = 56
		case *types.Struct:
			sz = 48 + 8 + 24
		}
		sz += 16 // uncommon type
		o := m.permObj(sz, "rtype "+types.TypeString(t, nil))
		o.meta = &rtMeta{x}
		o.ro = true
		x.rt = o
		o.lazy = func(o *Obj) { m.fillRtype(o, x) }
	}
	return x.rt
}

func (m *Machine) rawPut(o *Obj, off uint64, w uint8, v uint64) { concStore(o, off, w, v) }
func (m *Machine) rawPtr(o *Obj, off uint64, p *Obj) {
	if o.w == nil {
		o.w = make([]wcell, (o.size+7)/8)
	}
	o.w[off>>3] = wcell{kind: 1, v: V{o: p}}
}

func reflectKind(x *TypeInfo) reflect.Kind {
	switch u := x.U.(type) {
	case *types.Basic:
		return map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}[u.Kind()]
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

// reflect-style type string: package name qualified
func rtString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	if s == "any" || strings.Contains(s, "any") {
		s = fixAny(t, s)
	}
	s = strings.ReplaceAll(s, "struct{}", "struct {}")
	return s
}
func fixAny(t types.Type, s string) string {
	// types.TypeString prints the empty interface as "any" or "interface{}" depending on alias; normalise word "any"
	var sb strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "any") && (i == 0 || !isIdent(s[i-1])) && (i+3 == len(s) || !isIdent(s[i+3])) {
			sb.WriteString("interface {}")
			i += 3
			continue
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String()
}
func isIdent(b byte) bool {
	return b == '_' || b == '.' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

func isComparable(t types.Type) bool { return types.Comparable(t) }

func (m *Machine) nameObj(name, tag string, exported, embedded bool) *Obj {
	var b []byte
	var fl byte
	if exported {
		fl |= 1
	}
	if tag != "" {
		fl |= 2
	}
	if embedded {
		fl |= 8
	}
	b = append(b, fl)
	b = binary.AppendUvarint(b, uint64(len(name)))
	b = append(b, name...)
	if tag != "" {
		b = binary.AppendUvarint(b, uint64(len(tag)))
		b = append(b, tag...)
	}
	b = append(b, 0, 0, 0, 0)
	o := m.permObj(uint64(len(b)), "name")
	copy(o.data, b)
	o.ro = true
	return o
}

func (m *Machine) nameOff(name string, exported bool) uint64 {
	key := fmt.Sprint(exported, name)
	if i, ok := m.nameIdx[key]; ok {
		return uint64(i)
	}
	m.names = append(m.names, m.nameObj(name, "", exported, false))
	m.nameIdx[key] = len(m.names)
	return uint64(len(m.names))
}

func (m *Machine) fillRtype(o *Obj, x *TypeInfo) {
	k := reflectKind(x)
	m.rawPut(o, 0, 8, x.size)
	ptrBytes := uint64(0)
	for _, l := range x.leaves {
		if l.w == 8 && m.leafMayPtr(x) {
			ptrBytes = l.off + 8
		}
	}
	m.rawPut(o, 8, 8, ptrBytes)
	h := fnv.New32a()
	h.Write([]byte(types.TypeString(x.T, nil)))
	m.rawPut(o, 16, 4, uint64(h.Sum32()))
	var tflag uint64
	_, isNamed := types.Unalias(x.T).(*types.Named)
	_, isBasic := types.Unalias(x.T).(*types.Basic)
	if isNamed || isBasic {
		tflag |= 4
	}
	if isNamed {
		tflag |= 1 // uncommon
	}
	tflag |= 2 // extra star
	m.rawPut(o, 20, 1, tflag)
	m.rawPut(o, 21, 1, x.align)
	m.rawPut(o, 22, 1, x.align)
	kb := uint64(k)
	if x.direct {
		kb |= 1 << 5
	}
	m.rawPut(o, 23, 1, kb)
	// Equal func: non-nil iff comparable
	if isComparable(x.T) {
		m.rawPtr(o, 24, m.eqFuncObj(x))
	}
	m.rawPut(o, 40, 4, m.nameOff("*"+rtString(x.T), true))
	switch u := x.U.(type) {
	case *types.Array:
		m.rawPtr(o, 48, m.rtype(u.Elem()))
		m.rawPtr(o, 56, m.rtype(types.NewSlice(u.Elem())))
		m.rawPut(o, 64, 8, uint64(u.Len()))
	case *types.Chan:
		m.rawPtr(o, 48, m.rtype(u.Elem()))
		d := uint64(3)
		if u.Dir() == types.SendOnly {
			d = 2
		} else if u.Dir() == types.RecvOnly {
			d = 1
		}
		m.rawPut(o, 56, 8, d)
	case *types.Signature:
		m.rawPut(o, 48, 2, uint64(u.Params().Len()))
		out := uint64(u.Results().Len())
		if u.Variadic() {
			out |= 1 << 15
		}
		m.rawPut(o, 50, 2, out)
		base := uint64(56)
		if isNamed {
			base += 16
		}
		for i := 0; i < u.Params().Len(); i++ {
			m.rawPtr(o, base, m.rtype(u.Params().At(i).Type()))
			base += 8
		}
		for i := 0; i < u.Results().Len(); i++ {
			m.rawPtr(o, base, m.rtype(u.Results().At(i).Type()))
			base += 8
		}
	case *types.Interface:
		n := u.NumMethods()
		arr := m.permObj(uint64(8*n)+8, "imethods")
		ms := make([]*types.Func, n)
		for i := 0; i < n; i++ {
			ms[i] = u.Method(i)
		}
		for i, f := range ms {
			m.rawPut(arr, uint64(i*8), 4, m.nameOff(f.Name(), f.Exported()))
			m.rawPut(arr, uint64(i*8+4), 4, m.typeOff(f.Type()))
		}
		m.rawPtr(o, 56, arr)
		m.rawPut(o, 64, 8, uint64(n))
		m.rawPut(o, 72, 8, uint64(n))
	case *types.Map:
		m.rawPtr(o, 48, m.rtype(u.Key()))
		m.rawPtr(o, 56, m.rtype(u.Elem()))
		m.rawPtr(o, 64, m.rtype(types.Typ[types.Uint8]))
		m.rawPut(o, 80, 1, m.ti(u.Key()).size&0xff)
		m.rawPut(o, 81, 1, m.ti(u.Elem()).size&0xff)
	case *types.Pointer:
		m.rawPtr(o, 48, m.rtype(u.Elem()))
	case *types.Slice:
		m.rawPtr(o, 48, m.rtype(u.Elem()))
	case *types.Struct:
		n := u.NumFields()
		arr := m.permObj(uint64(24*n)+8, "structfields")
		pkg := ""
		for i := 0; i < n; i++ {
			f := u.Field(i)
			m.rawPtr(arr, uint64(24*i), m.nameObj(f.Name(), u.Tag(i), f.Exported(), f.Embedded()))
			m.rawPtr(arr, uint64(24*i+8), m.rtype(f.Type()))
			m.rawPut(arr, uint64(24*i+16), 8, x.fOff[i])
			if !f.Exported() && f.Pkg() != nil {
				pkg = f.Pkg().Path()
			}
		}
		if pkg != "" {
			m.rawPtr(o, 48, m.nameObj(pkg, "", false, false))
		}
		m.rawPtr(o, 56, arr)
		m.rawPut(o, 64, 8, uint64(n))
		m.rawPut(o, 72, 8, uint64(n))
	}
}

func (m *Machine) leafMayPtr(x *TypeInfo) bool { return hasPointers(x.T) }

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (m *Machine) typeOff(t types.Type) uint64 {
	o := m.rtype(t)
	if i, ok := m.typeIdx[o]; ok {
		return uint64(i)
	}
	m.typeTab = append(m.typeTab, o)
	m.typeIdx[o] = len(m.typeTab)
	return uint64(len(m.typeTab))
}

func (m *Machine) eqFuncObj(x *TypeInfo) *Obj {
	o := m.permObj(8, "eqfunc")
	o.meta = &FuncVal{native: func(c *Call) {
		a := m.loadT(c.args[0], x)
		b := m.loadT(c.args[1], x)
		c.ret(m.boolV(m.eqVals(x, a, b)))
	}, name: "eq"}
	return o
}

// typeOfWord returns dynamic type from interface word 0
func (m *Machine) dynType(w V) *TypeInfo {
	if w.o == nil {
		return nil
	}
	switch x := w.o.meta.(type) {
	case *rtMeta:
		return x.ti
	case *itabMeta:
		return x.ti
	}
	m.violation("memory", "interface word is not a type descriptor: "+w.o.label)
	return nil
}

type itabKey struct {
	ti    *TypeInfo
	iface *TypeInfo
}

func (m *Machine) itab(x *TypeInfo, iface *TypeInfo) *Obj {
	k := itabKey{x, iface}
	if o, ok := m.itabs[k]; ok {
		return o
	}
	o := m.permObj(24+64, "itab")
	o.meta = &itabMeta{x, iface.T}
	o.ro = true
	m.rawPtr(o, 0, m.rtype(iface.T))
	m.rawPtr(o, 8, m.rtype(x.T))
	m.itabs[k] = o
	return o
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// makeIface builds the two words of an interface of type it holding value vs of type x
func (m *Machine) makeIface(x *TypeInfo, it *TypeInfo, vs []V) (V, V) {
	var w0 V
	if isEmptyIface(it.T) {
		w0 = V{o: m.rtype(x.T)}
	} else {
		w0 = V{o: m.itab(x, it)}
	}
	if x.direct {
		return w0, vs[0]
	}
	return w0, V{o: m.box(x, vs)}
}

func (m *Machine) box(x *TypeInfo, vs []V) *Obj {
	o := m.newObj(x.size, "box "+rtStringCached(m, x))
	for i, l := range x.leaves {
		m.store(o, l.off, l.w, vs[i])
	}
	return o
}

func rtStringCached(m *Machine, x *TypeInfo) string {
	if s, ok := m.strCache[x]; ok {
		return s
	}
	s := rtString(x.T)
	m.strCache[x] = s
	return s
}

// unboxIface extracts the value of type x from data word
func (m *Machine) unboxIface(x *TypeInfo, data V, dst []V) {
	if x.direct {
		dst[0] = data
		return
	}
	if x.n == 0 {
		return
	}
	vs := m.loadT(data, x)
	copy(dst, vs)
}

func (m *Machine) implements(x *TypeInfo, iface types.Type) bool {
	k := itabKey{x, m.ti(iface)}
	if b, ok := m.implCache[k]; ok {
		return b
	}
	b := types.Implements(x.T, iface.Underlying().(*types.Interface))
	m.implCache[k] = b
	return b
}

var _ = typeutil.MakeHasher
