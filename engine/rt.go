package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
)

// ---------------- builtins

func (m *Machine) builtin(g *G, f *Frame, in *Instr, ci *callInfo) bool {
	arg := func(i int) []V { return f.vs(ci.args[i], ci.argN[i]) }
	set := func(vs ...V) {
		copy(f.regs[in.dst:], vs)
		f.pc++
	}
	switch ci.builtin {
	case "len":
		switch ci.argTI[0].U.(type) {
		case *types.Map:
			a := arg(0)[0]
			if a.o == nil {
				set(V{})
			} else {
				set(cv(uint64(m.mapObj(a.o).count)))
			}
		case *types.Chan:
			a := arg(0)[0]
			if a.o == nil {
				set(V{})
			} else {
				set(cv(uint64(len(a.o.meta.(*Chan).buf))))
			}
		case *types.Array:
			set(cv(uint64(ci.argTI[0].U.(*types.Array).Len())))
		case *types.Pointer:
			set(cv(uint64(ci.argTI[0].U.(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		default:
			set(arg(0)[1])
		}
	case "cap":
		switch ci.argTI[0].U.(type) {
		case *types.Chan:
			a := arg(0)[0]
			if a.o == nil {
				set(V{})
			} else {
				set(cv(uint64(a.o.meta.(*Chan).cap)))
			}
		case *types.Array:
			set(cv(uint64(ci.argTI[0].U.(*types.Array).Len())))
		case *types.Pointer:
			set(cv(uint64(ci.argTI[0].U.(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		default:
			set(arg(0)[2])
		}
	case "append":
		a := arg(0)
		es := m.ti(ci.argTI[0].U.(*types.Slice).Elem())
		var bp V
		var bn uint64
		if len(ci.args) > 1 {
			b := arg(1)
			bp = b[0]
			bn = m.concV(b[1])
		}
		p, n, c := m.appendOp(a[0], m.concV(a[1]), m.concV(a[2]), bp, bn, es)
		set(p, cv(n), cv(c))
	case "copy":
		a, b := arg(0), arg(1)
		n := min(m.concV(a[1]), m.concV(b[1]))
		es := m.ti(ci.argTI[0].U.(*types.Slice).Elem()).size
		if n > 0 && es > 0 {
			p, q := m.concPtr(a[0]), m.concPtr(b[0])
			m.memmove(p.o, p.u, q.o, q.u, n*es)
		}
		set(cv(n))
	case "close":
		if m.visible(g) {
			return true
		}
		pc := f.pc
		f.pc++
		if !m.chanClose(g, arg(0)[0]) {
			_ = pc
		}
	case "delete":
		mp := arg(0)[0]
		if mp.o != nil {
			m.mapDelete(g, mp.o, arg(1))
		}
		f.pc++
	case "clear":
		switch u := ci.argTI[0].U.(type) {
		case *types.Map:
			if o := arg(0)[0].o; o != nil {
				mo := m.mapMut(o)
				mo.ents = nil
				mo.idx = map[string]int{}
				mo.count = 0
				mo.nsym = 0
			}
		case *types.Slice:
			a := arg(0)
			n := m.concV(a[1]) * m.ti(u.Elem()).size
			if n > 0 {
				p := m.concPtr(a[0])
				m.memclr(p.o, p.u, n)
			}
		}
		f.pc++
	case "print", "println":
		f.pc++
	case "recover":
		if f.isDefer && f.dpanic != nil && !f.dpanic.recovered && !f.dpanic.goexit && f.dpanic.v[0].o != nil {
			f.dpanic.recovered = true
			set(f.dpanic.v[0], f.dpanic.v[1])
		} else {
			set(V{}, V{})
		}
	case "min", "max":
		x := ci.argTI[0]
		cur := append([]V(nil), arg(0)...)
		for i := 1; i < len(ci.args); i++ {
			b := arg(i)
			var lt *Term // b < cur
			switch {
			case x.isStr:
				lt = m.strLess(b, cur, false)
			case x.isFloat:
				m.unsupported("float min/max")
			case x.signed:
				lt = m.tc.Slt(m.termW(b[0], x.width), m.termW(cur[0], x.width))
			default:
				lt = m.tc.Ult(m.termW(b[0], x.width), m.termW(cur[0], x.width))
			}
			if ci.builtin == "max" {
				switch {
				case x.isStr:
					lt = m.strLess(cur, b, false)
				case x.signed:
					lt = m.tc.Slt(m.termW(cur[0], x.width), m.termW(b[0], x.width))
				default:
					lt = m.tc.Ult(m.termW(cur[0], x.width), m.termW(b[0], x.width))
				}
			}
			if x.isStr {
				if m.branch(lt) {
					cur = append([]V(nil), b...)
				}
			} else {
				cur[0] = m.tv(m.tc.Ite(lt, m.termW(b[0], x.width), m.termW(cur[0], x.width)))
			}
		}
		set(cur...)
	case "real":
		set(arg(0)[0])
	case "imag":
		set(arg(0)[1])
	case "complex":
		set(arg(0)[0], arg(1)[0])
	case "ssa:wrapnilchk":
		p := arg(0)[0]
		if p.o == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return false
		}
		set(p)
	case "Add":
		a := arg(0)[0]
		b := m.idx64(arg(1)[0], ci.argTI[1])
		if a.o != nil {
			v, ok := m.ptrArith(token.ADD, a, b)
			if !ok {
				m.unsupported("unsafe.Add")
			}
			set(v)
		} else {
			set(cv(m.concV(a) + m.concV(b)))
		}
	case "Slice":
		n := m.idx64(arg(1)[0], ci.argTI[1])
		nn := cv(m.concV(n))
		set(arg(0)[0], nn, nn)
	case "String":
		n := m.idx64(arg(1)[0], ci.argTI[1])
		set(arg(0)[0], cv(m.concV(n)))
	case "SliceData", "StringData":
		set(arg(0)[0])
	default:
		m.unsupported("builtin %s", ci.builtin)
	}
	return false
}

var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n uint64) uint64 {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

func (m *Machine) appendOp(p V, n, c uint64, bp V, bn uint64, es *TypeInfo) (V, uint64, uint64) {
	if bn == 0 {
		return p, n, c
	}
	nn := n + bn
	if nn > c {
		nc := m.growCap(c, nn, es.size)
		o := m.newObj(nc*es.size, "append []"+rtStringCached(m, es))
		if n > 0 && es.size > 0 {
			q := m.concPtr(p)
			m.memmove(o, 0, q.o, q.u, n*es.size)
		}
		p, c = V{o: o}, nc
	}
	if es.size > 0 {
		q := m.concPtr(bp)
		d := m.concPtr(p)
		m.memmove(d.o, d.u+n*es.size, q.o, q.u, bn*es.size)
	}
	return p, nn, c
}

func (m *Machine) growCap(oldCap, newLen, esz uint64) uint64 {
	nc := oldCap
	dbl := oldCap * 2
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundupsize(nc*esz) / esz
}

// ---------------- maps

type ment struct {
	key, val *Obj
	sym      bool
	deleted  bool
	ks       string
}
type MapObj struct {
	kt, et *TypeInfo
	ents   []*ment
	idx    map[string]int
	count  int
	nsym   int
	snap   bool
}

func (m *Machine) newMap(t *TypeInfo) *Obj {
	mt := t.U.(*types.Map)
	o := m.newObj(48, "map")
	o.meta = &MapObj{kt: m.ti(mt.Key()), et: m.ti(mt.Elem()), idx: map[string]int{}}
	return o
}

func (m *Machine) mapObj(o *Obj) *MapObj {
	mo, ok := o.meta.(*MapObj)
	if !ok {
		m.violation("memory", "map operation on a non-map object "+o.label)
	}
	return mo
}

// mapMut returns the map for mutation, snapshotting base maps
func (m *Machine) mapMut(o *Obj) *MapObj {
	mo := m.mapObj(o)
	if m.raceOn {
		m.raceAccess(o, 0, 8, true)
	}
	if o.base && !m.initPhase && !mo.snap {
		old := *mo
		old.ents = append([]*ment(nil), mo.ents...)
		// deep copy the entry records (deleted flags)
		cp := make([]*ment, len(mo.ents))
		for i, e := range mo.ents {
			c := *e
			cp[i] = &c
		}
		oldEnts := old.ents
		oldIdx := make(map[string]int, len(mo.idx))
		for k, v := range mo.idx {
			oldIdx[k] = v
		}
		mo.snap = true
		mo.ents = cp
		oc, on := mo.count, mo.nsym
		m.undoFns = append(m.undoFns, func() {
			mo.ents = oldEnts
			mo.idx = oldIdx
			mo.count = oc
			mo.nsym = on
			mo.snap = false
		})
	}
	return mo
}

// encKey returns a canonical encoding when the key is fully concrete
func (m *Machine) encKey(x *TypeInfo, vs []V, sb *strings.Builder) (conc bool, hashable bool) {
	switch u := x.U.(type) {
	case *types.Basic:
		if x.isStr {
			s, ok := m.concStr(vs[0], vs[1])
			if !ok {
				return false, true
			}
			fmt.Fprintf(sb, "s%d:%s", len(s), s)
			return true, true
		}
		for i, v := range vs {
			if v.t != nil {
				return false, true
			}
			if v.o != nil {
				fmt.Fprintf(sb, "p%d+%d", v.o.id, v.u)
				continue
			}
			uu := v.u
			if x.isFloat && uu == sgnbit(x.width) {
				uu = 0
			}
			_ = i
			fmt.Fprintf(sb, "i%d;", uu)
		}
		return true, true
	case *types.Interface:
		if vs[0].o == nil {
			sb.WriteString("nil;")
			return true, true
		}
		d := m.dynType(vs[0])
		if !types.Comparable(d.T) {
			return true, false
		}
		fmt.Fprintf(sb, "T%d:", d.id)
		tmp := make([]V, d.n)
		m.unboxIface(d, vs[1], tmp)
		return m.encKey(d, tmp, sb)
	case *types.Struct:
		conc := true
		for i := 0; i < u.NumFields(); i++ {
			e := m.ti(u.Field(i).Type())
			s := x.fSlot[i]
			c, h := m.encKey(e, vs[s:s+e.n], sb)
			if !h {
				return true, false
			}
			conc = conc && c
		}
		return conc, true
	case *types.Array:
		conc := true
		for i := 0; i < int(u.Len()); i++ {
			c, h := m.encKey(x.elem, vs[i*x.elem.n:(i+1)*x.elem.n], sb)
			if !h {
				return true, false
			}
			conc = conc && c
		}
		return conc, true
	default:
		v := vs[0]
		if v.t != nil {
			return false, true
		}
		if v.o != nil {
			fmt.Fprintf(sb, "p%d+%d", v.o.id, v.u)
		} else {
			fmt.Fprintf(sb, "i%d;", v.u)
		}
		return true, true
	}
}

// mapFind returns the entry or nil; ok=false when a panic was raised
func (m *Machine) mapFind(g *G, mo *MapObj, key []V) (e *ment, ks string, conc bool, ok bool) {
	var sb strings.Builder
	conc, hashable := m.encKey(mo.kt, key, &sb)
	if !hashable {
		m.throwErr(g, "errorString", "hash of unhashable type "+m.unhashName(mo.kt, key))
		return nil, "", false, false
	}
	if conc {
		ks = sb.String()
		if i, found := mo.idx[ks]; found && !isNaNKey(mo.kt, key) {
			return mo.ents[i], ks, true, true
		}
		if mo.nsym == 0 {
			return nil, ks, true, true
		}
		for _, e := range mo.ents {
			if e.deleted || !e.sym {
				continue
			}
			if m.branch(m.eqVals(mo.kt, key, m.loadT(V{o: e.key}, mo.kt))) {
				return e, ks, true, true
			}
		}
		return nil, ks, true, true
	}
	for _, e := range mo.ents {
		if e.deleted {
			continue
		}
		if m.branch(m.eqVals(mo.kt, key, m.loadT(V{o: e.key}, mo.kt))) {
			return e, "", false, true
		}
	}
	return nil, "", false, true
}

func isNaNKey(x *TypeInfo, vs []V) bool {
	return x.isFloat && fval(x.width, vs[0].u) != fval(x.width, vs[0].u)
}

func (m *Machine) unhashName(x *TypeInfo, vs []V) string {
	if x.isIface && vs[0].o != nil {
		return rtStringCached(m, m.dynType(vs[0]))
	}
	return rtStringCached(m, x)
}

func (m *Machine) mapAssign(g *G, o *Obj, key []V) (*ment, bool) {
	mo := m.mapMut(o)
	e, ks, conc, ok := m.mapFind(g, mo, key)
	if !ok {
		return nil, false
	}
	if e != nil {
		return e, true
	}
	e = &ment{key: m.newObj(mo.kt.size, "mapkey"), val: m.newObj(mo.et.size, "mapval"), sym: !conc, ks: ks}
	m.storeT(V{o: e.key}, mo.kt, key)
	if conc {
		mo.idx[ks] = len(mo.ents)
	} else {
		mo.nsym++
	}
	mo.ents = append(mo.ents, e)
	mo.count++
	return e, true
}

func (m *Machine) mapDelete(g *G, o *Obj, key []V) {
	mo := m.mapMut(o)
	e, _, _, ok := m.mapFind(g, mo, key)
	if !ok || e == nil {
		return
	}
	e.deleted = true
	if e.sym {
		mo.nsym--
	} else {
		delete(mo.idx, e.ks)
	}
	mo.count--
	if mo.count == 0 {
		mo.ents = nil
	}
}

func (m *Machine) mapLookup(g *G, f *Frame, in *Instr) {
	mp := f.v(in.a)
	n := int32(in.ti2.n)
	var e *ment
	if mp.o != nil {
		if m.raceOn {
			m.raceAccess(mp.o, 0, 8, false)
		}
		var ok bool
		e, _, _, ok = m.mapFind(g, m.mapObj(mp.o), f.vs(in.b, int32(in.ti.n)))
		if !ok {
			return
		}
	}
	if e != nil {
		m.loadInto(f.regs[in.dst:in.dst+n], V{o: e.val}, in.ti2)
	} else {
		for i := int32(0); i < n; i++ {
			f.regs[in.dst+i] = V{}
		}
	}
	if in.commaOk {
		f.regs[in.dst+n] = bv(e != nil)
	}
	f.pc++
}

type mapIter struct {
	mo   *MapObj
	rest []*ment
	cur  *ment
}

func (m *Machine) newMapIter(o *Obj) *mapIter {
	it := &mapIter{}
	if o != nil {
		it.mo = m.mapObj(o)
		for _, e := range it.mo.ents {
			if !e.deleted {
				it.rest = append(it.rest, e)
			}
		}
		if m.raceOn {
			m.raceAccess(o, 0, 8, false)
		}
	}
	return it
}

func (m *Machine) iterNext(it *mapIter) *ment {
	for {
		// drop deleted
		k := 0
		for _, e := range it.rest {
			if !e.deleted {
				it.rest[k] = e
				k++
			}
		}
		it.rest = it.rest[:k]
		if k == 0 {
			it.cur = nil
			return nil
		}
		i := 0
		if k > 1 && m.flags["maporder"] != 0 && !m.initPhase {
			i = m.choice("maporder", k)
		}
		e := it.rest[i]
		it.rest = append(append([]*ment(nil), it.rest[:i]...), it.rest[i+1:]...)
		it.cur = e
		return e
	}
}

type strIter struct{ pos uint64 }

func (m *Machine) rangeStart(f *Frame, in *Instr) {
	o := m.newObj(8, "iter")
	if in.ti.isStr {
		s := f.vs(in.a, 2)
		o2 := m.newObj(24, "striter")
		m.store(o2, 0, 8, s[0])
		m.store(o2, 8, 8, s[1])
		o.meta = &strIter{}
		f.regs[in.dst] = V{o: o}
		f.regs[in.dst+1] = V{o: o2}
		return
	}
	o.meta = m.newMapIter(f.v(in.a).o)
	f.regs[in.dst] = V{o: o}
	f.regs[in.dst+1] = V{}
}

func (m *Machine) rangeNext(g *G, f *Frame, in *Instr) {
	itv := f.vs(in.a, 2)
	tup := in.ti.T.(*types.Tuple)
	if in.commaOk { // string: (ok, k int, v rune)
		it := itv[0].o.meta.(*strIter)
		p, n := m.load(itv[1].o, 0, 8), m.concV(m.load(itv[1].o, 8, 8))
		if it.pos >= n {
			for i := 0; i < in.ti.n; i++ {
				f.regs[in.dst+int32(i)] = V{}
			}
			return
		}
		p = m.concPtr(p)
		pos := it.pos
		b := m.load(p.o, p.u+pos, 1)
		var r V
		adv := uint64(1)
		if b.t == nil && b.u < 0x80 {
			r = b
		} else if b.t != nil && m.branch(m.tc.Ult(m.byteTerm(b), m.tc.Const(8, 0x80))) {
			r = m.tv(m.tc.Zext(m.byteTerm(b), 32))
		} else {
			rs := m.callSync(m.fnOf(m.prog.pkg("unicode/utf8").Func("DecodeRuneInString")), []V{{o: p.o, u: p.u + pos}, cv(n - pos)})
			r = rs[0]
			adv = m.concV(rs[1])
		}
		it.pos += adv
		f.regs[in.dst] = bv(true)
		// an unused key or value has no cells
		d := in.dst + 1
		if m.ti(tup.At(1).Type()).n > 0 {
			f.regs[d] = cv(pos)
			d++
		}
		if m.ti(tup.At(2).Type()).n > 0 {
			f.regs[d] = r
		}
		return
	}
	it := itv[0].o.meta.(*mapIter)
	e := m.iterNext(it)
	kt, vt := m.ti(tup.At(1).Type()), m.ti(tup.At(2).Type())
	d := in.dst
	if e == nil {
		for i := int32(0); i < int32(1+kt.n+vt.n); i++ {
			f.regs[d+i] = V{}
		}
		return
	}
	f.regs[d] = bv(true)
	d++
	if kt.n > 0 && tup.At(1).Type() != types.Typ[types.Invalid] {
		m.loadInto(f.regs[d:d+int32(kt.n)], V{o: e.key}, kt)
	}
	d += int32(kt.n)
	if vt.n > 0 && tup.At(2).Type() != types.Typ[types.Invalid] {
		m.loadInto(f.regs[d:d+int32(vt.n)], V{o: e.val}, vt)
	}
}

// ---------------- channels

type waiter struct {
	g    *G
	tok  *selTok
	idx  int
	val  []V
	send bool
	vc   vclock
}
type selTok struct{ done bool }
type wakeRes struct {
	idx    int
	val    []V
	ok     bool
	closed bool
}
type Chan struct {
	cap    int
	elem   *TypeInfo
	buf    [][]V
	bufVC  []vclock
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	closeVC vclock
	vc     vclock
	snap   bool
}

// chanOf returns the channel for an operation that may change it, snapshotting channels of the base state
func (m *Machine) chanOf(o *Obj) *Chan {
	c := o.meta.(*Chan)
	if o.base && !m.initPhase && !c.snap {
		old := *c
		old.buf = append([][]V(nil), c.buf...)
		old.bufVC = append([]vclock(nil), c.bufVC...)
		old.recvq = append([]*waiter(nil), c.recvq...)
		old.sendq = append([]*waiter(nil), c.sendq...)
		c.snap = true
		m.undoFns = append(m.undoFns, func() { *c = old })
	}
	return c
}

func (c *Chan) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !w.tok.done {
			return w
		}
	}
	return nil
}
func (c *Chan) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.tok.done {
			return w
		}
	}
	return nil
}
func (c *Chan) hasRecv() bool {
	for _, w := range c.recvq {
		if !w.tok.done {
			return true
		}
	}
	return false
}
func (c *Chan) hasSend() bool {
	for _, w := range c.sendq {
		if !w.tok.done {
			return true
		}
	}
	return false
}

// trySend: returns done, panic
func (m *Machine) trySend(g *G, c *Chan, val []V) (bool, bool) {
	if c.closed {
		return false, true
	}
	if w := c.popRecv(); w != nil {
		w.tok.done = true
		w.g.wres = &wakeRes{idx: w.idx, val: append([]V(nil), val...), ok: true}
		m.hb(g, w.g)
		m.hbBoth(g, w.g)
		return true, false
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, append([]V(nil), val...))
		c.bufVC = append(c.bufVC, m.relVC(g))
		if c.vc != nil {
			m.acqVC(g, c.vc)
		}
		return true, false
	}
	return false, false
}

func (m *Machine) tryRecv(g *G, c *Chan) (val []V, ok, done bool) {
	if len(c.buf) > 0 {
		val = c.buf[0]
		m.acqVC(g, c.bufVC[0])
		c.buf = append([][]V(nil), c.buf[1:]...)
		c.bufVC = append([]vclock(nil), c.bufVC[1:]...)
		if w := c.popSend(); w != nil {
			w.tok.done = true
			c.buf = append(c.buf, w.val)
			c.bufVC = append(c.bufVC, w.vc)
			w.g.wres = &wakeRes{idx: w.idx, ok: true}
			m.acqVC(w.g, m.relVC(g))
		}
		c.vc = m.joinVC(c.vc, m.relVC(g))
		return val, true, true
	}
	if w := c.popSend(); w != nil {
		w.tok.done = true
		w.g.wres = &wakeRes{idx: w.idx, ok: true}
		m.acqVC(g, w.vc)
		m.hbBoth(g, w.g)
		return w.val, true, true
	}
	if c.closed {
		m.acqVC(g, c.closeVC)
		return make([]V, c.elem.n), false, true
	}
	return nil, false, false
}

func (m *Machine) chanClose(g *G, v V) bool {
	if v.o == nil {
		m.throwErr(g, "plainError", "close of nil channel")
		return false
	}
	c := m.chanOf(v.o)
	if c.closed {
		m.throwErr(g, "plainError", "close of closed channel")
		return false
	}
	c.closed = true
	c.closeVC = m.relVC(g)
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.tok.done = true
		w.g.wres = &wakeRes{idx: w.idx, val: make([]V, c.elem.n), ok: false}
		m.acqVC(w.g, c.closeVC)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.tok.done = true
		w.g.wres = &wakeRes{idx: w.idx, closed: true}
	}
	return true
}

// chanOp executes send/recv/select; returns true if exec must return
func (m *Machine) chanOp(g *G, f *Frame, in *Instr) bool {
	if g.wres == nil {
		if m.visible(g) {
			return true
		}
	}
	switch in.op {
	case iSend:
		if r := g.wres; r != nil {
			g.wres = nil
			f.pc++
			if r.closed {
				m.throwErr(g, "plainError", "send on closed channel")
			}
			return false
		}
		ch := f.v(in.a)
		if ch.o == nil {
			m.block(g, "nil chan", func() bool { return false })
			return true
		}
		c := m.chanOf(ch.o)
		val := f.vs(in.b, int32(in.ti.n))
		done, pan := m.trySend(g, c, val)
		if pan {
			m.throwErr(g, "plainError", "send on closed channel")
			return false
		}
		if done {
			f.pc++
			return false
		}
		c.sendq = append(c.sendq, &waiter{g: g, tok: &selTok{}, val: append([]V(nil), val...), send: true, vc: m.relVC(g)})
		m.block(g, "chan send", func() bool { return g.wres != nil })
		return true
	case iRecv:
		n := int32(in.ti.n)
		if r := g.wres; r != nil {
			g.wres = nil
			copy(f.regs[in.dst:in.dst+n], r.val)
			if in.commaOk {
				f.regs[in.dst+n] = bv(r.ok)
			}
			f.pc++
			return false
		}
		ch := f.v(in.a)
		if ch.o == nil {
			m.block(g, "nil chan", func() bool { return false })
			return true
		}
		c := m.chanOf(ch.o)
		val, ok, done := m.tryRecv(g, c)
		if done {
			copy(f.regs[in.dst:in.dst+n], val)
			if in.commaOk {
				f.regs[in.dst+n] = bv(ok)
			}
			f.pc++
			return false
		}
		c.recvq = append(c.recvq, &waiter{g: g, tok: &selTok{}})
		m.block(g, "chan receive", func() bool { return g.wres != nil })
		return true
	default: // select
		si := in.x.(*selInfo)
		finish := func(idx int, val []V, ok bool) {
			for i := in.dst; i < in.dst+si.n; i++ {
				f.regs[i] = V{}
			}
			f.regs[in.dst] = cv(uint64(int64(idx)))
			f.regs[in.dst+1] = bv(ok)
			if idx >= 0 && val != nil && si.states[idx].dir == types.RecvOnly {
				s := &si.states[idx]
				copy(f.regs[in.dst+s.off:in.dst+s.off+int32(s.elem.n)], val)
			}
			f.pc++
		}
		if r := g.wres; r != nil {
			g.wres = nil
			if r.closed {
				m.throwErr(g, "plainError", "send on closed channel")
				return false
			}
			finish(r.idx, r.val, r.ok)
			return false
		}
		var ready []int
		for i, s := range si.states {
			ch := f.v(s.ch)
			if ch.o == nil {
				continue
			}
			c := m.chanOf(ch.o)
			if s.dir == types.SendOnly {
				if c.closed || len(c.buf) < c.cap || c.hasRecv() {
					ready = append(ready, i)
				}
			} else if len(c.buf) > 0 || c.hasSend() || c.closed {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			k := 0
			if len(ready) > 1 {
				k = m.choice("select", len(ready))
			}
			i := ready[k]
			s := si.states[i]
			c := m.chanOf(f.v(s.ch).o)
			if s.dir == types.SendOnly {
				_, pan := m.trySend(g, c, f.vs(s.val, int32(s.elem.n)))
				if pan {
					m.throwErr(g, "plainError", "send on closed channel")
					return false
				}
				finish(i, nil, false)
			} else {
				val, ok, _ := m.tryRecv(g, c)
				finish(i, val, ok)
			}
			return false
		}
		if !si.blocking {
			finish(-1, nil, false)
			return false
		}
		tok := &selTok{}
		for i, s := range si.states {
			ch := f.v(s.ch)
			if ch.o == nil {
				continue
			}
			c := m.chanOf(ch.o)
			w := &waiter{g: g, tok: tok, idx: i}
			if s.dir == types.SendOnly {
				w.send = true
				w.val = append([]V(nil), f.vs(s.val, int32(s.elem.n))...)
				w.vc = m.relVC(g)
				c.sendq = append(c.sendq, w)
			} else {
				c.recvq = append(c.recvq, w)
			}
		}
		m.block(g, "select", func() bool { return g.wres != nil })
		return true
	}
}

// ---------------- scheduler

type Timer struct {
	when   int64
	period int64
	f      V
	arg    [2]V
	active bool
	o      *Obj
	seq    int
	vc     vclock // of the goroutine that armed it
}

func (m *Machine) block(g *G, why string, wake func() bool) {
	g.blocked = why
	g.wake = wake
}

func (m *Machine) runnable(g *G) bool {
	if g.done {
		return false
	}
	if g.blocked == "" {
		return true
	}
	return g.wake()
}

func (m *Machine) choice(tag string, n int) int {
	if n <= 1 {
		return 0
	}
	v := m.newVar("!"+tag, 8, 0, uint64(n-1))
	return int(m.concV(v))
}

// visible is called before a visible operation of g; true => yield (operation will be retried)
func (m *Machine) visible(g *G) bool {
	if m.initPhase || m.noSwitch > 0 {
		return false
	}
	if g.resumed {
		g.resumed = false
		return false
	}
	if m.canBeEarly() && g.excur == nil && m.choice("time", 2) == 1 {
		// time passes while this goroutine is held up
		m.earlies++
		m.fireTimers()
		var others []*G
		for _, o := range m.gs {
			if o != g && m.runnable(o) {
				others = append(others, o)
			}
		}
		if len(others) > 0 {
			g.resumed = true
			m.cur = others[m.choice("sched", len(others))]
			m.sched = append(m.sched, int(m.cur.id))
			return true
		}
		return false
	}
	if len(m.gs) < 2 {
		return false
	}
	if g.excur != nil {
		if g.atomicN > 0 {
			return false
		}
		g.atomicN++
	}
	if m.preempts >= int(m.flags["preempt"]) {
		return false
	}
	var others []*G
	for _, o := range m.gs {
		if o != g && m.runnable(o) {
			others = append(others, o)
		}
	}
	if len(others) == 0 {
		return false
	}
	k := m.choice("sched", len(others)+1)
	if k == 0 {
		return false
	}
	m.preempts++
	g.resumed = true // when scheduled again it performs the pending op
	m.cur = others[k-1]
	m.sched = append(m.sched, int(m.cur.id))
	return true
}

func (m *Machine) spawn(parent *G, fn *Fn, args []V) *G {
	var g *G
	if fn.intr != nil {
		// wrap: run native immediately in its own goroutine via trampoline
		g = m.newG(m.trampoline(fn), nil)
		g.top.regs = append(g.top.regs[:0:0], args...)
	} else {
		g = m.newG(fn, args)
	}
	g.vc = m.relVC(parent)
	m.tick(g)
	g.name = fn.name
	return g
}

// trampoline: a synthetic function whose single instruction calls the intrinsic
func (m *Machine) trampoline(fn *Fn) *Fn {
	t := &Fn{name: "go:" + fn.name, isStd: true, recover: -1}
	ci := &callInfo{}
	t.code = []Instr{{op: iCall, x: &callInfo{builtin: "!tramp", target: fn}}, {op: iReturn, x: ci}}
	m.unsupported("go statement on intrinsic %s", fn.name)
	return t
}

func (m *Machine) liveGs() int {
	n := 0
	for _, g := range m.gs {
		if !g.done {
			n++
		}
	}
	return n
}

// run executes until main goroutine finishes
func (m *Machine) run(main *G) {
	m.cur = main
	for {
		g := m.cur
		if g.done || g.blocked != "" {
			if main.done {
				return
			}
			if g.blocked != "" && g.wake() {
				// can continue directly, but others may run as well: treated as a scheduling choice below
			}
			// compact finished goroutines
			k := 0
			for _, x := range m.gs {
				if !x.done {
					m.gs[k] = x
					k++
				}
			}
			m.gs = m.gs[:k]
			var rs []*G
			for _, x := range m.gs {
				if m.runnable(x) {
					rs = append(rs, x)
				}
			}
			if len(rs) == 0 {
				if !m.fireTimers() {
					m.deadlock()
				}
				continue
			}
			if m.canBeEarly() && m.choice("time", 2) == 1 {
				// none of those that can run does so before the next timer fires
				m.earlies++
				m.fireTimers()
				continue
			}
			i := 0
			if len(rs) > 1 {
				if m.flags["fifo"] == 0 {
					i = m.choice("run", len(rs))
				}
			}
			m.cur = rs[i]
			g = m.cur
			m.sched = append(m.sched, int(g.id))
			if g.blocked != "" {
				g.blocked = ""
				g.wake = nil
				g.resumed = true
			}
		} else {
			g.blocked = ""
		}
		m.exec(g, nil)
		if main.done {
			return
		}
	}
}

func (m *Machine) deadlock() {
	s := ""
	for _, g := range m.gs {
		if !g.done {
			s += fmt.Sprintf(" g%d:%s", g.id, g.blocked)
		}
	}
	m.violation("deadlock", "all goroutines are asleep:"+s)
}

// canBeEarly: with the flag early, that many timers may fire although goroutines can run
func (m *Machine) canBeEarly() bool {
	if m.initPhase || m.earlies >= int(m.flags["early"]) {
		return false
	}
	for _, t := range m.timers {
		if t.active {
			return true
		}
	}
	for _, g := range m.gs {
		if !g.done && g.blocked == "sleep" {
			return true
		}
	}
	return false
}

// fireTimers advances virtual time to the next timer or sleeper
func (m *Machine) fireTimers() bool {
	best := int64(-1)
	for _, t := range m.timers {
		if t.active && (best < 0 || t.when < best) {
			best = t.when
		}
	}
	for _, g := range m.gs {
		if !g.done && g.blocked == "sleep" && (best < 0 || g.sleepAt < best) {
			best = g.sleepAt
		}
	}
	if best < 0 {
		return false
	}
	if best > m.now {
		m.now = best
	}
	lim := m.flags["maxtime"]
	if lim == 0 {
		lim = 3600e9
	}
	if m.now-startTime > lim {
		m.violation("hang", "virtual time limit exceeded: no progress")
	}
	m.runDue()
	return true
}

func (m *Machine) runDue() {
	for _, t := range append([]*Timer(nil), m.timers...) {
		if t.active && t.when <= m.now {
			if t.period > 0 {
				t.when += t.period
			} else {
				t.active = false
			}
			fv := t.f.o.meta.(*FuncVal)
			if fv.fn == nil && fv.native == nil {
				fv.fn = m.fnOf(fv.sf)
			}
			args := append([]V{t.arg[0], t.arg[1], {}, {}}, fv.bind...)
			g := m.newG(fv.fn, args)
			g.name = "timer"
			m.acqVC(g, t.vc)
		}
	}
	k := 0
	for _, t := range m.timers {
		if t.active {
			m.timers[k] = t
			k++
		}
	}
	m.timers = m.timers[:k]
}

// ---------------- happens-before and race detection

type vclock []int64

func (m *Machine) tick(g *G) {
	i := int(g.id)
	for len(g.vc) <= i {
		g.vc = append(g.vc, 0)
	}
	g.vc[i]++
}

// relVC returns a copy of g's clock and ticks it
func (m *Machine) relVC(g *G) vclock {
	if !m.raceEnabled() || g == nil {
		return nil
	}
	m.tick(g)
	c := append(vclock(nil), g.vc...)
	g.vc[g.id]++
	return c
}
func (m *Machine) acqVC(g *G, v vclock) {
	if !m.raceEnabled() || v == nil {
		return
	}
	for len(g.vc) < len(v) {
		g.vc = append(g.vc, 0)
	}
	for i, x := range v {
		if x > g.vc[i] {
			g.vc[i] = x
		}
	}
}
func (m *Machine) joinVC(a, b vclock) vclock {
	if a == nil {
		return b
	}
	a = append(vclock(nil), a...)
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}
func (m *Machine) hb(from, to *G) { m.acqVC(to, m.relVC(from)) }
func (m *Machine) hbBoth(a, b *G) {
	m.acqVC(a, m.relVC(b))
	m.acqVC(b, m.relVC(a))
}
func (m *Machine) raceEnabled() bool { return m.flags["race"] != 0 }

// sync object clocks
func (m *Machine) syncAcq(g *G, o *Obj, off uint64) {
	if !m.raceEnabled() {
		return
	}
	m.acqVC(g, m.syncVC[poolKey{o, off}])
}
func (m *Machine) syncRel(g *G, o *Obj, off uint64) {
	if !m.raceEnabled() {
		return
	}
	k := poolKey{o, off}
	m.syncVC[k] = m.joinVC(m.syncVC[k], m.relVC(g))
}

type access struct {
	g     int64
	clk   int64
	mask  uint8
	write bool
	where string
	h     bool // by harness code
	at    bool // atomic
}
type shadow struct{ acc []access }

func (m *Machine) raceAccess(o *Obj, off uint64, w uint8, write bool) {
	g := m.cur
	if g == nil || m.initPhase || o.ro || m.flags["race"] == 0 {
		return
	}
	if g.top == nil || g.top.fn.isStd && !m.opt.raceStd {
		// accesses by library code on behalf of the caller are still relevant (copy, append); but skip runtime-internal bookkeeping
	}
	if len(m.gs) < 2 && m.nextG < 2 {
		return
	}
	if o.sh == nil {
		o.sh = make([]shadow, (o.size+7)/8+1)
		m.shadowed = append(m.shadowed, o)
	}
	m.tick0(g)
	b := uint8(off & 7)
	mk := uint8(((1 << uint(w)) - 1) << b)
	m.raceWord(g, o, off>>3, mk, write)
	if b+w > 8 {
		m.raceWord(g, o, off>>3+1, uint8((1<<(b+w-8))-1), write)
	}
}
func (m *Machine) tick0(g *G) {
	for len(g.vc) <= int(g.id) {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
}

func (m *Machine) raceWord(g *G, o *Obj, wi uint64, mk uint8, write bool) {
	s := &o.sh[wi]
	k := 0
	hn := g.top != nil && g.top.fn.harness
	for _, a := range s.acc {
		if a.mask&mk != 0 && a.g != g.id && (write || a.write) && !(hn && a.h) && !(a.at && m.atomicOp) {
			var seen int64
			if int(a.g) < len(g.vc) {
				seen = g.vc[a.g]
			}
			if seen < a.clk {
				m.violation("race", fmt.Sprintf("data race on %s+%d: %s by g%d at %s vs %s by g%d", o.label, wi*8, rw(a.write), a.g, a.where, rw(write), g.id))
			}
		}
		if a.g == g.id && a.write == write && a.at == m.atomicOp && a.mask&^mk == 0 {
			continue // superseded
		}
		s.acc[k] = a
		k++
	}
	s.acc = append(s.acc[:k], access{g.id, g.vc[g.id], mk, write, m.where1(), hn, m.atomicOp})
}
func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}
func (m *Machine) where1() string {
	f := m.cur.top
	if f == nil {
		return ""
	}
	return f.fn.name
}
func (m *Machine) raceRange(o *Obj, off, n uint64, write bool) {
	if m.cur == nil || m.initPhase || o.ro || m.flags["race"] == 0 {
		return
	}
	for i := uint64(0); i < n; {
		w := 8 - (off+i)&7
		if w > n-i {
			w = n - i
		}
		m.raceAccess(o, off+i, uint8(w), write)
		i += w
	}
}

// ---------------- region merging

type region struct{}

type regIn struct {
	guard *Term
	vals  []V
}
type pblk struct {
	e   *edge
	ins []regIn
}

func (fn *Fn) pureBlock(bi int32) bool {
	// static check: only potentially pure opcodes, ends with if/jump, small
	pc := fn.blockPC[bi]
	n := 0
	for ; ; pc++ {
		if int(pc) >= len(fn.code) || n > 24 {
			return false
		}
		n++
		switch fn.code[pc].op {
		case iIf, iJump:
			return true
		case iBin, iNot, iNeg, iCompl, iLoad, iFieldAddr, iIndexAddr, iIndex, iConvert:
		default:
			return false
		}
	}
}

func (m *Machine) rpo(fn *Fn) []int32 {
	if r, ok := m.rpoCache[fn]; ok {
		return r
	}
	n := len(fn.f.Blocks)
	r := make([]int32, n)
	seen := make([]bool, n)
	var post []int
	var dfs func(int)
	dfs = func(b int) {
		seen[b] = true
		for _, s := range fn.f.Blocks[b].Succs {
			if !seen[s.Index] {
				dfs(s.Index)
			}
		}
		post = append(post, b)
	}
	dfs(0)
	for i := range post {
		r[post[len(post)-1-i]] = int32(i)
	}
	m.rpoCache[fn] = r
	return r
}

func (m *Machine) tryMerge(f *Frame, in *Instr, cond *Term) bool {
	fn := f.fn
	if fn.f == nil || len(fn.f.Blocks) == 0 {
		return false
	}
	b0, b1 := fn.blkOf[in.e0.target], fn.blkOf[in.e1.target]
	pure := m.pureCache[fn]
	if pure == nil {
		pure = make([]int8, len(fn.f.Blocks))
		m.pureCache[fn] = pure
	}
	isPure := func(b int32) bool {
		if pure[b] == 0 {
			if fn.pureBlock(b) {
				pure[b] = 1
			} else {
				pure[b] = -1
			}
		}
		return pure[b] > 0
	}
	if !isPure(b0) && !isPure(b1) && b0 != b1 {
		return false
	}
	rpo := m.rpo(fn)
	here := rpo[fn.blkOf[f.pc]]
	pend := map[int32]*pblk{}
	exits := map[int32]*pblk{}
	var exitOrder []int32
	var curRpo = here
	add := func(e *edge, guard *Term) {
		if guard.IsConst() && guard.C == 0 {
			return
		}
		var vals []V
		for _, mv := range e.moves {
			vals = append(vals, f.vs(mv.src, mv.n)...)
		}
		b := fn.blkOf[e.target]
		dst := pend
		if x, ok := exits[b]; ok {
			x.ins = append(x.ins, regIn{guard, vals})
			return
		}
		if rpo[b] <= curRpo || !isPure(b) {
			dst = exits
			exitOrder = append(exitOrder, b)
		}
		p := dst[b]
		if p == nil {
			p = &pblk{e: e}
			dst[b] = p
		}
		p.ins = append(p.ins, regIn{guard, vals})
	}
	add(in.e0, cond)
	add(in.e1, m.tc.Not(cond))
	toExit := func(b int32, p *pblk) {
		exits[b] = p
		exitOrder = append(exitOrder, b)
	}
	for n := 0; len(pend) > 0; n++ {
		var best int32 = -1
		for b := range pend {
			if best < 0 || rpo[b] < rpo[best] {
				best = b
			}
		}
		p := pend[best]
		delete(pend, best)
		if n >= 40 {
			toExit(best, p)
			continue
		}
		vals, ok := m.mergeIns(p.ins, p.e)
		if !ok {
			toExit(best, p)
			continue
		}
		guard := m.tc.False
		for _, i := range p.ins {
			guard = m.tc.Or(guard, i.guard)
		}
		i := int32(0)
		for _, mv := range p.e.moves {
			copy(f.regs[mv.dst:mv.dst+mv.n], vals[i:i+mv.n])
			i += mv.n
		}
		last, ok := m.specBlock(f, fn.blockPC[best])
		if !ok {
			toExit(best, p)
			continue
		}
		curRpo = rpo[best]
		if last.op == iJump {
			add(last.e0, guard)
		} else {
			c := m.boolT(f.v(last.a))
			add(last.e0, m.tc.And(guard, c))
			add(last.e1, m.tc.And(guard, m.tc.Not(c)))
		}
		curRpo = here
	}
	// exits
	type ex struct {
		guard *Term
		e     *edge
		vals  []V
	}
	var list []ex
	for _, b := range exitOrder {
		p := exits[b]
		if p == nil {
			continue
		}
		exits[b] = nil
		var groups [][]regIn
	next:
		for _, i := range p.ins {
			for gi := range groups {
				if _, ok := m.mergeIns(append(append([]regIn(nil), groups[gi]...), i), p.e); ok {
					groups[gi] = append(groups[gi], i)
					continue next
				}
			}
			groups = append(groups, []regIn{i})
		}
		for _, gr := range groups {
			vals, _ := m.mergeIns(gr, p.e)
			guard := m.tc.False
			for _, i := range gr {
				guard = m.tc.Or(guard, i.guard)
			}
			list = append(list, ex{guard, p.e, vals})
		}
	}
	take := func(x ex) {
		i := int32(0)
		for _, mv := range x.e.moves {
			copy(f.regs[mv.dst:mv.dst+mv.n], x.vals[i:i+mv.n])
			i += mv.n
		}
		f.pc = x.e.target
	}
	for i := 0; i < len(list)-1; i++ {
		if m.branch(list[i].guard) {
			take(list[i])
			return true
		}
	}
	if len(list) == 0 {
		m.unsupported("internal: merge without exits")
	}
	m.mergeCnt++
	take(list[len(list)-1])
	return true
}

// mergeIns merges the phi values of several incoming edges
func (m *Machine) mergeIns(ins []regIn, e *edge) ([]V, bool) {
	if len(ins) == 1 {
		return ins[0].vals, true
	}
	n := len(ins[0].vals)
	out := append([]V(nil), ins[len(ins)-1].vals...)
	for k := len(ins) - 2; k >= 0; k-- {
		for j := 0; j < n; j++ {
			a, b := ins[k].vals[j], out[j]
			if a == b {
				continue
			}
			if a.o != nil || b.o != nil {
				return nil, false
			}
			var w uint8
			switch {
			case a.t != nil && b.t != nil:
				if a.t.W != b.t.W {
					return nil, false
				}
				w = a.t.W
			case a.t != nil:
				w = a.t.W
			case b.t != nil:
				w = b.t.W
			default:
				// two different concrete values: need the width from the phi type; only merge booleans/small
				w = m.moveWidth(e, j)
				if w == 255 {
					return nil, false
				}
			}
			if w == 64 {
				return nil, false
			}
			if w == 0 {
				out[j] = m.boolV(m.tc.Ite(ins[k].guard, m.boolT(a), m.boolT(b)))
			} else {
				out[j] = m.tv(m.tc.Ite(ins[k].guard, m.termW(a, w), m.termW(b, w)))
			}
		}
	}
	return out, true
}

func (m *Machine) moveWidth(e *edge, j int) uint8 {
	if e.widths == nil {
		return 255
	}
	return e.widths[j]
}

// specBlock executes the instructions of a pure block without side effects; returns the terminator
func (m *Machine) specBlock(f *Frame, pc int32) (*Instr, bool) {
	save := f.pc
	defer func() { f.pc = save }()
	for ; ; pc++ {
		in := &f.fn.code[pc]
		m.steps++
		switch in.op {
		case iIf, iJump:
			return in, true
		case iBin:
			switch in.tok {
			case token.QUO, token.REM:
				b := f.v(in.b)
				if !in.flt && !(b.conc() && b.u != 0) {
					return nil, false
				}
			case token.SHL, token.SHR:
				b := f.v(in.b)
				if in.ti2.signed && !(b.conc() && sext64(b.u, in.ti2.width) >= 0) {
					return nil, false
				}
			case token.EQL, token.NEQ:
				if in.ti.isIface || in.ti2.isIface || in.ti.n > 2 {
					return nil, false
				}
			case token.ADD:
				if in.ti.isStr {
					return nil, false
				}
			}
			if in.ti.isStr && (f.vs(in.a, 2)[1].t != nil || f.vs(in.b, 2)[1].t != nil) {
				return nil, false
			}
			if in.ti.n == 1 && (f.v(in.a).o != nil || f.v(in.b).o != nil) && in.tok != token.EQL && in.tok != token.NEQ {
				return nil, false
			}
			m.binop(f, in)
		case iNot:
			f.regs[in.dst] = m.boolV(m.tc.Not(m.boolT(f.v(in.a))))
		case iNeg:
			if in.flt || in.ti.n != 1 {
				return nil, false
			}
			f.regs[in.dst] = m.tv(m.tc.Neg(m.termW(f.v(in.a), in.w)))
		case iCompl:
			f.regs[in.dst] = m.tv(m.tc.Not_(m.termW(f.v(in.a), in.w)))
		case iFieldAddr:
			p := f.v(in.a)
			if p.o == nil || p.t != nil {
				return nil, false
			}
			p.u += in.k
			f.regs[in.dst] = p
		case iLoad:
			p := f.v(in.a)
			if p.o == nil || m.raceOn {
				return nil, false
			}
			if p.t != nil {
				if in.ti.n != 1 {
					return nil, false
				}
				if !m.safeSymLoad(p, in.ti.leaves[0]) {
					return nil, false
				}
			} else if p.u > p.o.size || in.ti.size > p.o.size-p.u {
				return nil, false
			}
			m.loadInto(f.regs[in.dst:in.dst+int32(in.ti.n)], p, in.ti)
		case iIndexAddr, iIndex:
			if in.op == iIndex && in.n != -1 {
				return nil, false
			}
			base := f.v(in.a)
			if base.o == nil || base.t != nil {
				return nil, false
			}
			n := in.k
			if in.n == -1 {
				l := f.vs(in.a, 2)[1]
				if l.t != nil {
					return nil, false
				}
				n = l.u
			}
			idx := m.idx64(f.v(in.b), in.ti2)
			if idx.t == nil {
				if idx.u >= n {
					return nil, false
				}
			} else if idx.t.hi >= n {
				return nil, false
			}
			if in.op == iIndexAddr {
				if !m.indexAddr(m.cur, f, in) {
					return nil, false
				}
			} else {
				if m.raceOn || idx.t != nil && !m.safeSymLoad(V{o: base.o, t: idx.t}, leaf{0, 1, false}) {
					return nil, false
				}
				m.index(m.cur, f, in)
			}
		case iConvert:
			if in.ti.width == 0 || in.ti2.width == 0 || in.ti.isFloat || in.ti2.isFloat {
				return nil, false
			}
			v := f.v(in.a)
			if v.o != nil {
				return nil, false
			}
			f.regs[in.dst] = m.convNum(v, in.ti, in.ti2)
		default:
			return nil, false
		}
	}
}

// safeSymLoad: the load would neither fork nor fail
func (m *Machine) safeSymLoad(p V, l leaf) bool {
	p.o.force()
	c, g, idx := m.symIdx(p.t)
	if l.off+uint64(l.w)+c > p.o.size {
		return false
	}
	maxI := (p.o.size - uint64(l.w) - l.off - c) / g
	if idx.hi > maxI || idx.hi-idx.lo > 2000 {
		return false
	}
	return p.o.w == nil
}

var _ = os.Stderr
