package main

import (
	"fmt"
	"go/types"
	"sort"
)

func (m *Machine) typeWord(x types.Type) V { return V{o: m.rtype(x)} }

// reflectTypeIface builds a reflect.Type interface value for t, given an example itab word
func (c *Call) rtypeIface(t types.Type) (V, V) {
	m := c.m
	rt := m.prog.pkg("reflect")
	ptr := m.ti(types.NewPointer(rt.Type("rtype").Type()))
	it := m.ti(rt.Type("Type").Type())
	return V{o: m.itab(ptr, it)}, V{o: m.rtype(t)}
}

func initReflect() {
	I := intrinsics
	I["reflect.unsafe_New"] = func(c *Call) {
		x := c.m.typeFromWord(c.args[0])
		c.ret(V{o: c.m.newObj(x.size, "new "+rtStringCached(c.m, x))})
	}
	I["reflect.unsafe_NewArray"] = func(c *Call) {
		x := c.m.typeFromWord(c.args[0])
		n := c.m.concV(c.args[1])
		if int64(n) < 0 || n > 1<<30 {
			c.m.throwErr(c.g, "plainError", "runtime: allocation size out of range")
			c.threw = true
			return
		}
		c.ret(V{o: c.m.newObj(x.size*n, "newarray "+rtStringCached(c.m, x))})
	}
	I["reflect.typedmemmove"] = func(c *Call) {
		m := c.m
		x := m.typeFromWord(c.args[0])
		if x.size > 0 {
			d, ok := c.ptr(1)
			if !ok {
				return
			}
			s, ok := c.ptr(2)
			if !ok {
				return
			}
			m.memmove(d.o, d.u, s.o, s.u, x.size)
		}
		c.ret()
	}
	I["reflect.memmove"] = func(c *Call) {
		m := c.m
		if n := m.concV(c.args[2]); n > 0 {
			d, s := m.concPtr(c.args[0]), m.concPtr(c.args[1])
			m.memmove(d.o, d.u, s.o, s.u, n)
		}
		c.ret()
	}
	I["reflect.typedmemclr"] = func(c *Call) {
		m := c.m
		x := m.typeFromWord(c.args[0])
		if p, ok := c.ptr(1); ok {
			m.memclr(p.o, p.u, x.size)
			c.ret()
		}
	}
	I["reflect.typedslicecopy"] = func(c *Call) {
		m := c.m
		x := m.typeFromWord(c.args[0])
		n := min(m.concV(c.args[2]), m.concV(c.args[5]))
		if n > 0 && x.size > 0 {
			d, s := m.concPtr(c.args[1]), m.concPtr(c.args[4])
			if d.o == nil || s.o == nil {
				m.violation("memory", "slice copy through invalid pointer")
			}
			m.memmove(d.o, d.u, s.o, s.u, n*x.size)
		}
		c.ret(cv(n))
	}
	I["reflect.makemap"] = func(c *Call) { c.ret(V{o: c.m.newMap(c.m.typeFromWord(c.args[0]))}) }
	assign := func(c *Call, key func(mo *MapObj) []V, val V) { // t, m, key, val
		m := c.m
		if c.args[1].o == nil {
			m.throwErr(c.g, "plainError", "assignment to entry in nil map")
			c.threw = true
			return
		}
		mo := m.mapObj(c.args[1].o)
		m.checkMapType(c.args[0], mo)
		e, ok := m.mapAssign(c.g, c.args[1].o, key(mo))
		if !ok {
			c.threw = true
			return
		}
		m.storeT(V{o: e.val}, mo.et, m.loadT(val, mo.et))
		c.ret()
	}
	I["reflect.mapassign"] = func(c *Call) {
		assign(c, func(mo *MapObj) []V { return c.m.loadT(c.args[2], mo.kt) }, c.args[3])
	}
	I["reflect.mapassign_faststr"] = func(c *Call) {
		assign(c, func(mo *MapObj) []V { return []V{c.args[2], c.args[3]} }, c.args[4])
	}
	I["reflect.mapassign_faststr0"] = I["reflect.mapassign_faststr"]
	I["reflect.mapassign0"] = I["reflect.mapassign"]
	access := func(c *Call, key func(mo *MapObj) []V) {
		m := c.m
		if c.args[1].o == nil {
			c.ret(V{})
			return
		}
		mo := m.mapObj(c.args[1].o)
		m.checkMapType(c.args[0], mo)
		if m.raceOn {
			m.raceAccess(c.args[1].o, 0, 8, false)
		}
		e, _, _, ok := m.mapFind(c.g, mo, key(mo))
		if !ok {
			c.threw = true
			return
		}
		if e == nil {
			c.ret(V{})
			return
		}
		c.ret(V{o: e.val})
	}
	I["reflect.mapaccess"] = func(c *Call) { access(c, func(mo *MapObj) []V { return c.m.loadT(c.args[2], mo.kt) }) }
	I["reflect.mapaccess_faststr"] = func(c *Call) { access(c, func(mo *MapObj) []V { return c.args[2:4] }) }
	I["reflect.mapdelete"] = func(c *Call) {
		m := c.m
		if c.args[1].o != nil {
			mo := m.mapObj(c.args[1].o)
			m.mapDelete(c.g, c.args[1].o, m.loadT(c.args[2], mo.kt))
		}
		c.ret()
	}
	I["reflect.maplen"] = func(c *Call) {
		if c.args[0].o == nil {
			c.ret(V{})
			return
		}
		c.ret(cv(uint64(c.m.mapObj(c.args[0].o).count)))
	}
	I["reflect.mapiterinit"] = func(c *Call) {
		m := c.m
		if len(c.args) != 3 {
			m.violation("memory", "reflect.mapiterinit called with an undefined iterator argument")
		}
		it := m.concPtr(c.args[2])
		if it.o == nil {
			m.violation("memory", "mapiterinit through nil")
		}
		m.checkRange(it.o, it.u, 96, "map iterator initialisation")
		iter := m.newMapIter(c.args[1].o)
		m.iters[poolKey{it.o, it.u}] = iter
		m.store(it.o, it.u+16, 8, c.args[0])
		m.iterStep(it, iter)
		c.ret()
	}
	I["reflect.mapiternext"] = func(c *Call) {
		m := c.m
		it := m.concPtr(c.args[0])
		if it.o == nil {
			c.panic("invalid memory address or nil pointer dereference")
			return
		}
		iter := m.iters[poolKey{it.o, it.u}]
		if iter == nil {
			m.violation("memory", "mapiternext on an uninitialised iterator")
		}
		m.iterStep(it, iter)
		c.ret()
	}
	I["reflect.mapiterkey"] = func(c *Call) { p := c.m.concPtr(c.args[0]); c.ret(c.m.load(p.o, p.u, 8)) }
	I["reflect.mapiterelem"] = func(c *Call) { p := c.m.concPtr(c.args[0]); c.ret(c.m.load(p.o, p.u+8, 8)) }
	I["reflect.ifaceE2I"] = func(c *Call) {
		m := c.m
		it := m.typeFromWord(c.args[0])
		if c.args[1].o == nil {
			m.violation("memory", "ifaceE2I of nil")
		}
		x := m.dynType(c.args[1])
		if !m.implements(x, it.T) {
			m.rtPanic(c.g, "interface conversion: "+rtStringCached(m, x)+" is not "+rtStringCached(m, it))
			c.threw = true
			return
		}
		p, ok := c.ptr(3)
		if !ok {
			return
		}
		if isEmptyIface(it.T) {
			m.violation("memory", "ifaceE2I used with an empty interface type")
		}
		m.store(p.o, p.u, 8, V{o: m.itab(x, it)})
		m.store(p.o, p.u+8, 8, c.args[2])
		c.ret()
	}
	I["reflect.typelinks"] = func(c *Call) {
		m := c.m
		var offs []uint64
		for _, t := range m.linkTypes() {
			offs = append(offs, m.typeOff(t))
		}
		sec := m.newObj(8, "sections")
		m.poke(sec, 0, 8, V{o: m.newObj(8, "rodata")})
		inner := m.newObj(uint64(4*len(offs))+4, "offs")
		for i, o := range offs {
			m.poke(inner, uint64(4*i), 4, cv(o))
		}
		outer := m.newObj(24, "offsets")
		m.poke(outer, 0, 8, V{o: inner})
		m.poke(outer, 8, 8, cv(uint64(len(offs))))
		m.poke(outer, 16, 8, cv(uint64(len(offs))))
		c.ret(V{o: sec}, cv(1), cv(1), V{o: outer}, cv(1), cv(1))
	}
	I["reflect.resolveTypeOff"] = func(c *Call) {
		i := int(c.m.concV(c.args[1]))
		if i <= 0 || i > len(c.m.typeTab) {
			c.ret(V{})
			return
		}
		c.ret(V{o: c.m.typeTab[i-1]})
	}
	I["reflect.resolveNameOff"] = func(c *Call) {
		i := int(c.m.concV(c.args[1]))
		if i <= 0 || i > len(c.m.names) {
			c.ret(V{})
			return
		}
		c.ret(V{o: c.m.names[i-1]})
	}
	I["internal/reflectlite.resolveNameOff"] = I["reflect.resolveNameOff"]
	I["internal/reflectlite.resolveTypeOff"] = I["reflect.resolveTypeOff"]
	I["internal/reflectlite.ifaceE2I"] = I["reflect.ifaceE2I"]
	I["internal/reflectlite.unsafe_New"] = I["reflect.unsafe_New"]
	I["internal/reflectlite.typedmemmove"] = I["reflect.typedmemmove"]
	I["reflect.growslice"] = func(c *Call) {
		m := c.m
		x := m.typeFromWord(c.args[0])
		n, cp, num := m.concV(c.args[2]), m.concV(c.args[3]), m.concV(c.args[4])
		nc := m.growCap(cp, cp+num, x.size)
		o := m.newObj(nc*x.size, "growslice")
		if n > 0 {
			p := m.concPtr(c.args[1])
			m.memmove(o, 0, p.o, p.u, n*x.size)
		}
		c.ret(V{o: o}, cv(n), cv(nc))
	}
	I["reflect.verifyNotInHeapPtr"] = retConst(1)
	I["reflect.implements"] = func(c *Call) {
		m := c.m
		t, v := m.typeFromWord(c.args[0]), m.typeFromWord(c.args[1])
		if !t.isIface {
			c.ret(bv(false))
			return
		}
		c.ret(bv(m.implements(v, t.T)))
	}
	I["internal/reflectlite.implements"] = I["reflect.implements"]
	numMethod := func(c *Call) {
		m := c.m
		x := m.typeFromWord(c.args[0])
		c.ret(cv(uint64(len(exportedMethods(m, x)))))
	}
	I["(*reflect.rtype).NumMethod"] = numMethod
	I["(*internal/abi.Type).NumMethod"] = numMethod
	I["(*reflect.rtype).PkgPath"] = func(c *Call) { c.retStr(pkgPathOf(c.m.typeFromWord(c.args[0]).T)) }
	I["(internal/reflectlite.rtype).PkgPath"] = I["(*reflect.rtype).PkgPath"]
	I["(*reflect.rtype).ptrTo"] = func(c *Call) { c.ret(c.m.typeWord(types.NewPointer(c.m.typeFromWord(c.args[0]).T))) }
	I["reflect.ptrTo"] = I["(*reflect.rtype).ptrTo"]
	I["reflect.SliceOf"] = func(c *Call) { c.ret(c.rtypeIface(types.NewSlice(c.m.typeFromWord(c.args[1]).T))) }
	I["reflect.ArrayOf"] = func(c *Call) {
		c.ret(c.rtypeIface(types.NewArray(c.m.typeFromWord(c.args[2]).T, int64(c.m.concV(c.args[0])))))
	}
	I["reflect.MapOf"] = func(c *Call) {
		c.ret(c.rtypeIface(types.NewMap(c.m.typeFromWord(c.args[1]).T, c.m.typeFromWord(c.args[3]).T)))
	}
	I["reflect.typehash"] = retConst(0)
	I["reflect.chanlen"] = func(c *Call) { c.ret(cv(uint64(len(c.args[0].o.meta.(*Chan).buf)))) }
	I["runtime.Version"] = func(c *Call) { c.retStr("go1.23.12") }
	I[modPath+"/gls.getg"] = func(c *Call) {
		m := c.m
		if c.g.gobj == nil {
			x := m.ti(m.prog.pkg("runtime").Type("g").Type())
			st := x.U.(*types.Struct)
			o := m.newObj(x.size, "runtime.g")
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "goid" {
					id := uint64(c.g.id)
					if n := m.flags["goidstride"]; n > 1 {
						id *= uint64(n)
					}
					id += uint64(m.flags["goidadd"])
					m.poke(o, x.fOff[i], 8, cv(id))
				}
			}
			c.g.gobj = o
		}
		c.ret(V{o: c.g.gobj})
	}
	// math
	fl := func(op Op) intrinsic {
		return func(c *Call) { c.ret(c.m.tv(c.m.tc.FUn(op, 64, c.m.termW(c.args[0], 64)))) }
	}
	I["math.archFloor"] = fl(OFFloor)
	I["math.floor"] = fl(OFFloor)
	I["math.sqrt"] = fl(OFSqrt)
	I["math.Sqrt"] = fl(OFSqrt)
	I["unicode.Is"] = unicodeIs
	I["unicode.is16"] = nil
	delete(I, "unicode.is16")
}

func (m *Machine) checkMapType(t V, mo *MapObj) {
	x := m.typeFromWord(t)
	mt, ok := x.U.(*types.Map)
	if !ok || !types.Identical(mt.Key().Underlying(), mo.kt.U) && m.ti(mt.Key()) != mo.kt || m.ti(mt.Elem()).size != mo.et.size {
		m.violation("memory", "map accessed with the wrong type descriptor "+rtStringCached(m, x))
	}
}

func (m *Machine) iterStep(it V, iter *mapIter) {
	e := m.iterNext(iter)
	if e == nil {
		m.store(it.o, it.u, 8, V{})
		m.store(it.o, it.u+8, 8, V{})
		return
	}
	m.store(it.o, it.u, 8, V{o: e.key})
	m.store(it.o, it.u+8, 8, V{o: e.val})
}

func exportedMethods(m *Machine, x *TypeInfo) []string {
	var out []string
	if it, ok := x.U.(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			out = append(out, it.Method(i).Name())
		}
		return out
	}
	ms := m.prog.ssa.MethodSets.MethodSet(x.T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i).Obj().Name())
		}
	}
	sort.Strings(out)
	return out
}

// linkTypes: pointer-to-struct types visible through reflect.typelinks
func (m *Machine) linkTypes() []types.Type {
	var out []types.Type
	if rt := m.prog.pkg("runtime"); rt != nil {
		out = append(out, types.NewPointer(rt.Type("g").Type()))
	}
	var paths []string
	for p := range m.prog.byPath {
		if !m.prog.stdPkg[p] {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := m.prog.byPath[p].Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, ok := tn.Type().Underlying().(*types.Struct); ok {
					if nm, ok := tn.Type().(*types.Named); ok && nm.TypeParams().Len() == 0 {
						out = append(out, types.NewPointer(tn.Type()))
					}
				}
			}
		}
	}
	return out
}

func unicodeIs(c *Call) {
	m := c.m
	p, ok := c.ptr(0)
	if !ok {
		return
	}
	r := m.termW(c.args[1], 32)
	tc := m.tc
	res := tc.False
	tab := func(off uint64, w uint8) {
		ptr, n := m.load(p.o, p.u+off, 8), m.concV(m.load(p.o, p.u+off+8, 8))
		for i := uint64(0); i < n; i++ {
			b := ptr.u + i*uint64(w)*3
			lo, hi, st := m.load(ptr.o, b, w).u, m.load(ptr.o, b+uint64(w), w).u, m.load(ptr.o, b+2*uint64(w), w).u
			if r.IsConst() {
				if r.C >= lo && r.C <= hi && (r.C-lo)%st == 0 {
					res = tc.True
				}
				continue
			}
			if st == 1 || lo == hi {
				res = tc.Or(res, tc.And(tc.Ule(tc.Const(32, lo), r), tc.Ule(r, tc.Const(32, hi))))
			} else {
				for x := lo; x <= hi; x += st {
					res = tc.Or(res, tc.Eq(r, tc.Const(32, x)))
				}
			}
		}
	}
	tab(0, 2)
	tab(24, 4)
	c.ret(m.boolV(res))
}

var _ = fmt.Sprint
