package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type Panic struct {
	v         [2]V
	recovered bool
	goexit    bool
}

type deferRec struct {
	fn   *Fn
	ci   *callInfo
	args []V // flattened incl. bindings appended after
	bi   string
	nat  func(c *Call)
}

type Frame struct {
	fn      *Fn
	regs    []V
	pc      int32
	caller  *Frame
	retDst  int32 // slot in caller; -1 none
	defers  []*deferRec
	panic   *Panic // frame is unwinding because of this panic
	dpanic  *Panic // this frame is a deferred call run because of that panic
	isDefer bool
	runDef  bool // currently executing RunDefers in normal mode
	stop    bool // callSync boundary
	out     []V
	base    int // stack base
	onRet   func(vs []V)
	fin     bool
}

type G struct {
	id      int64
	top     *Frame
	done    bool
	blocked string
	wake    func() bool // condition polled when blocked (mutex etc)
	wres    *wakeRes
	stack   []V
	sp      int
	depth   int
	vc      vclock
	gobj    *Obj
	excur   *Frame // std excursion marker
	sleepAt int64
	name    string
	atomicN int
	resumed bool
}

type Call struct {
	m    *Machine
	g    *G
	fr   *Frame
	args []V
	in   *Instr
	ci   *callInfo
	rets []V
	tail bool // intrinsic pushed a frame itself
	fn   *Fn
	retry bool
	threw bool
	noRet bool
}

func (c *Call) panic(msg string) { c.threw = true; c.m.rtPanic(c.g, msg) }
func (c *Call) throw(w0, w1 V)   { c.threw = true; c.m.throw(c.g, w0, w1) }

type intrinsic func(c *Call)

func (c *Call) ret(vs ...V) { c.rets = vs }

func (f *Frame) v(op int32) V {
	if op >= 0 {
		return f.regs[op]
	}
	return f.fn.consts[-1-op]
}
func (f *Frame) vs(op int32, n int32) []V {
	if op >= 0 {
		return f.regs[op : op+n]
	}
	return f.fn.consts[-1-op : -1-op+n]
}

func (m *Machine) pushFrame(g *G, fn *Fn, args []V, retDst int32) *Frame {
	n := int(fn.nregs)
	if g.sp+n > len(g.stack) {
		sz := 1 << 14
		if n > sz {
			sz = n
		}
		g.stack = make([]V, sz)
		g.sp = 0
	}
	f := &Frame{fn: fn, regs: g.stack[g.sp : g.sp+n : g.sp+n], caller: g.top, retDst: retDst, base: g.sp}
	g.sp += n
	copy(f.regs, args)
	g.top = f
	g.depth++
	if g.depth > 3000 {
		m.violation("panic", "stack overflow (depth 3000)")
	}
	if fn.user && !m.initPhase {
		m.funcsHit[fn.name] = true
	}
	return f
}

func (m *Machine) popFrame(g *G) {
	f := g.top
	g.top = f.caller
	g.depth--
	if g.top != nil {
		// same chunk?
		if g.sp >= len(f.regs) && len(f.regs) > 0 && f.base < len(g.stack) && &g.stack[f.base] == &f.regs[0] {
			g.sp = f.base
		}
	}
	if g.excur == f {
		g.excur = nil
	}
}

// maxGoroutines of one path, timers that fire included
const maxGoroutines = 4000

func (m *Machine) newG(fn *Fn, args []V) *G {
	m.nextG++
	if m.nextG > maxGoroutines {
		m.endPath(stSteps, "too many goroutines")
	}
	g := &G{id: m.nextG, stack: make([]V, 4096)}
	m.gs = append(m.gs, g)
	sv := g
	m.pushFrame(sv, fn, args, -1)
	return g
}

// callSync runs fn to completion on the current goroutine without scheduling
func (m *Machine) callSync(fn *Fn, args []V) []V {
	g := m.cur
	if fn.intr != nil {
		c := &Call{m: m, g: g, fr: g.top, args: args, fn: fn}
		fn.intr(c)
		return c.rets
	}
	f := m.pushFrame(g, fn, args, -1)
	f.stop = true
	m.noSwitch++
	m.exec(g, f)
	m.noSwitch--
	if !f.fin {
		m.unsupported("blocking inside engine callback %s", fn.name)
	}
	return f.out
}

func (m *Machine) callFuncVal(v V, args []V) []V {
	if v.o == nil {
		m.violation("panic", "call of nil func")
	}
	fv := v.o.meta.(*FuncVal)
	if fv.native != nil {
		c := &Call{m: m, g: m.cur, fr: m.cur.top, args: args}
		fv.native(c)
		return c.rets
	}
	if fv.fn == nil {
		fv.fn = m.fnOf(fv.sf)
	}
	return m.callSync(fv.fn, append(append([]V{}, args...), fv.bind...))
}

// exec runs goroutine g. If until != nil, returns once that frame has returned.
// Otherwise returns when g blocks, finishes, or a switch is requested.
func (m *Machine) exec(g *G, until *Frame) {
	for {
		if until != nil && until.fin {
			return
		}
		f := g.top
		if f == nil {
			g.done = true
			return
		}
		m.steps++
		if m.steps > m.stepLim {
			m.endPath(stSteps, "step limit"+m.where())
		}
		in := &f.fn.code[f.pc]
		switch in.op {
		case iNop:
			f.pc++
		case iBin:
			m.binop(f, in)
			f.pc++
		case iNot:
			v := f.v(in.a)
			if v.t == nil {
				f.regs[in.dst] = V{u: 1 - v.u}
			} else {
				f.regs[in.dst] = m.boolV(m.tc.Not(m.boolT(v)))
			}
			f.pc++
		case iNeg:
			v := f.v(in.a)
			if in.ti.n == 2 { // complex
				m.unsupported("complex negation")
			}
			if in.flt {
				if v.t == nil {
					f.regs[in.dst] = cv(v.u ^ sgnbit(in.w))
				} else {
					f.regs[in.dst] = m.tv(m.tc.FNeg(v.t))
				}
			} else if v.t == nil {
				f.regs[in.dst] = cv(-m.concV(v) & mask(in.w))
			} else {
				f.regs[in.dst] = m.tv(m.tc.Neg(m.termW(v, in.w)))
			}
			f.pc++
		case iCompl:
			v := f.v(in.a)
			if v.t == nil {
				f.regs[in.dst] = cv(^m.concV(v) & mask(in.w))
			} else {
				f.regs[in.dst] = m.tv(m.tc.Not_(m.termW(v, in.w)))
			}
			f.pc++
		case iLoad:
			p := f.v(in.a)
			if p.o == nil {
				if m.nilDeref(g, p) {
					continue
				}
			}
			m.loadInto(f.regs[in.dst:in.dst+int32(in.ti.n)], p, in.ti)
			f.pc++
		case iStore:
			p := f.v(in.a)
			if p.o == nil {
				if m.nilDeref(g, p) {
					continue
				}
			}
			m.storeLeaves(p, in.ti, f.vs(in.b, int32(in.ti.n)))
			f.pc++
		case iAlloc:
			f.regs[in.dst] = V{o: m.newObj(in.k, "alloc")}
			f.pc++
		case iFieldAddr:
			p := f.v(in.a)
			if p.o == nil {
				if m.nilDeref(g, p) {
					continue
				}
			}
			if p.t != nil {
				f.regs[in.dst] = V{o: p.o, t: m.tc.Add(p.t, m.tc.Const(64, in.k))}
				if in.k == 0 {
					f.regs[in.dst] = p
				}
			} else {
				p.u += in.k
				f.regs[in.dst] = p
			}
			f.pc++
		case iIndexAddr:
			if m.indexAddr(g, f, in) {
				f.pc++
			}
		case iIndex:
			if m.index(g, f, in) {
				f.pc++
			}
		case iMapLookup:
			m.mapLookup(g, f, in)
		case iSlice:
			if m.sliceOp(g, f, in) {
				f.pc++
			}
		case iMakeSlice:
			n := int64(m.concV(f.v(in.a)))
			c := int64(m.concV(f.v(in.b)))
			n = sext64(uint64(n), in.ti2.width)
			if n < 0 || (in.ti.size > 0 && uint64(n) > (1<<40)/in.ti.size) {
				m.rtPanic(g, "makeslice: len out of range")
				continue
			}
			if c < n {
				m.rtPanic(g, "makeslice: cap out of range")
				continue
			}
			o := m.newObj(uint64(c)*in.ti.size, "make []"+rtStringCached(m, in.ti))
			f.regs[in.dst] = V{o: o}
			f.regs[in.dst+1] = cv(uint64(n))
			f.regs[in.dst+2] = cv(uint64(c))
			f.pc++
		case iMakeMap:
			f.regs[in.dst] = V{o: m.newMap(in.ti)}
			f.pc++
		case iMakeChan:
			n := int64(m.concV(f.v(in.a)))
			if n < 0 {
				m.throwErr(g, "plainError", "makechan: size out of range")
				continue
			}
			o := m.newObj(8, "chan")
			o.meta = &Chan{cap: int(n), elem: m.ti(in.ti.U.(*types.Chan).Elem())}
			f.regs[in.dst] = V{o: o}
			f.pc++
		case iMakeClosure:
			ci := in.x.(*callInfo)
			o := m.newObj(8, "closure")
			fv := &FuncVal{sf: ci.fn, name: ci.fn.Name()}
			for i, a := range ci.args {
				fv.bind = append(fv.bind, f.vs(a, ci.argN[i])...)
			}
			o.meta = fv
			f.regs[in.dst] = V{o: o}
			f.pc++
		case iMakeIface:
			w0, w1 := m.makeIface(in.ti, in.ti2, f.vs(in.a, int32(in.ti.n)))
			f.regs[in.dst] = w0
			f.regs[in.dst+1] = w1
			f.pc++
		case iChangeIface:
			a := f.vs(in.a, 2)
			w0, w1 := a[0], a[1]
			if w0.o != nil {
				x := m.dynType(w0)
				if isEmptyIface(in.ti2.T) {
					w0 = V{o: m.rtype(x.T)}
				} else {
					w0 = V{o: m.itab(x, in.ti2)}
				}
			}
			f.regs[in.dst] = w0
			f.regs[in.dst+1] = w1
			f.pc++
		case iTypeAssert:
			m.typeAssert(g, f, in)
		case iConvert:
			m.convert(g, f, in)
		case iSliceToArrPtr:
			s := f.vs(in.a, 3)
			n := m.concV(s[1])
			if n < in.k {
				m.rtPanic(g, fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", n, in.k))
				continue
			}
			f.regs[in.dst] = s[0]
			f.pc++
		case iCall:
			if m.doCall(g, f, in) {
				return // switch requested or blocked
			}
		case iGo:
			if m.visible(g) {
				return
			}
			fn, args := m.resolveCall(g, f, in.x.(*callInfo))
			if fn == nil {
				continue
			}
			f.pc++
			m.spawn(g, fn, args)
		case iDefer:
			m.doDefer(g, f, in)
		case iRunDefers:
			if len(f.defers) == 0 {
				f.pc++
				continue
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if m.runDeferred(g, f, d, nil) {
				return
			}
		case iPanic:
			a := f.vs(in.a, 2)
			w0, w1 := a[0], a[1]
			if w0.o == nil {
				m.throwErr(g, "nilPanic", "")
				continue
			}
			m.throw(g, w0, w1)
		case iReturn:
			ci := in.x.(*callInfo)
			m.doReturn(g, f, ci)
			if until != nil && f == until {
				return
			}
		case iIf:
			v := f.v(in.a)
			if v.t == nil {
				if v.u != 0 {
					m.jump(f, in.e0)
				} else {
					m.jump(f, in.e1)
				}
			} else {
				t := m.boolT(v)
				if t.IsConst() {
					if t.C != 0 {
						m.jump(f, in.e0)
					} else {
						m.jump(f, in.e1)
					}
				} else if !m.opt.noMerge && m.tryMerge(f, in, t) {
				} else if m.branch(t) {
					m.jump(f, in.e0)
				} else {
					m.jump(f, in.e1)
				}
			}
		case iJump:
			m.jump(f, in.e0)
		case iSend, iRecv, iSelect:
			if m.chanOp(g, f, in) {
				return
			}
		case iMapUpdate:
			mp := f.v(in.a)
			if mp.o == nil {
				m.throwErr(g, "plainError", "assignment to entry in nil map")
				continue
			}
			if e, ok := m.mapAssign(g, mp.o, f.vs(in.b, int32(in.ti.n))); ok {
				m.storeLeaves(V{o: e.val}, in.ti2, f.vs(in.c, int32(in.ti2.n)))
				f.pc++
			}
		case iRange:
			m.rangeStart(f, in)
			f.pc++
		case iNext:
			m.rangeNext(g, f, in)
			f.pc++
		default:
			m.unsupported("instruction %v", in.x)
		}
	}
}

func (m *Machine) jump(f *Frame, e *edge) {
	switch len(e.moves) {
	case 0:
	case 1:
		mv := e.moves[0]
		if mv.n == 1 {
			f.regs[mv.dst] = f.v(mv.src)
		} else {
			copy(f.regs[mv.dst:mv.dst+mv.n], f.vs(mv.src, mv.n))
		}
	default:
		var buf [32]V
		tmp := buf[:0]
		for _, mv := range e.moves {
			tmp = append(tmp, f.vs(mv.src, mv.n)...)
		}
		i := int32(0)
		for _, mv := range e.moves {
			copy(f.regs[mv.dst:mv.dst+mv.n], tmp[i:i+mv.n])
			i += mv.n
		}
	}
	f.pc = e.target
}

func (m *Machine) nilDeref(g *G, p V) bool {
	if p.t != nil {
		m.unsupported("dereference of a symbolic integer as pointer")
	}
	if p.u >= 4096 {
		m.violation("memory", fmt.Sprintf("dereference of invalid address %#x", p.u))
	}
	m.rtPanic(g, "invalid memory address or nil pointer dereference")
	return true
}

// ---- panics

func (m *Machine) runtimeType(name string) *TypeInfo {
	rt := m.prog.pkg("runtime")
	return m.ti(rt.Type(name).Type())
}

func (m *Machine) rtPanic(g *G, msg string) { m.throwErr(g, "errorString", msg) }

func (m *Machine) throwErr(g *G, typ, msg string) {
	if m.prog.pkg("runtime") == nil {
		m.unsupported("no runtime package")
	}
	eface := m.ti(types.NewInterfaceType(nil, nil))
	switch typ {
	case "nilPanic":
		x := m.ti(types.NewPointer(m.prog.pkg("runtime").Type("PanicNilError").Type()))
		o := m.newObj(m.ti(x.U.(*types.Pointer).Elem()).size, "PanicNilError")
		w0, w1 := m.makeIface(x, eface, []V{{o: o}})
		m.throw(g, w0, w1)
	default:
		x := m.runtimeType(typ)
		p, n := m.newStr(msg)
		w0, w1 := m.makeIface(x, eface, []V{p, n})
		m.throw(g, w0, w1)
	}
}

func (m *Machine) throw(g *G, w0, w1 V) {
	p := &Panic{v: [2]V{w0, w1}}
	m.unwind(g, p)
}

// unwind: start or continue panicking in g.top. Runs deferred calls via frames.
func (m *Machine) unwind(g *G, p *Panic) {
	for {
		f := g.top
		if f == nil {
			if p.goexit {
				g.done = true
				return
			}
			m.uncaught(g, p)
			return
		}
		f.panic = p
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			m.runDeferred(g, f, d, p)
			return
		}
		if f.stop {
			m.unsupported("panic inside engine callback: %s", m.panicText(p))
		}
		if f.caller == nil && !p.goexit {
			m.uncaught(g, p)
		}
		m.popFrame(g)
		// a deferred call frame that panicked: its owner continues with the new panic
	}
}

func (m *Machine) panicText(p *Panic) string {
	x := m.dynType(p.v[0])
	if x == nil {
		return "nil"
	}
	s := rtStringCached(m, x)
	if x.isStr || (x.U == types.Typ[types.String]) {
		vs := make([]V, 2)
		m.unboxIface(x, p.v[1], vs)
		if t, ok := m.concStr(vs[0], vs[1]); ok {
			return s + ": " + t
		}
	}
	// *errors.errorString
	if pt, ok := x.U.(*types.Pointer); ok && p.v[1].o != nil {
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.Field(0).Type() == types.Typ[types.String] {
			vs := m.loadT(p.v[1], m.ti(types.Typ[types.String]))
			if t, ok := m.concStr(vs[0], vs[1]); ok {
				return s + ": " + t
			}
		}
	}
	return s
}

func (m *Machine) uncaught(g *G, p *Panic) {
	m.violation("panic", "uncaught panic: "+m.panicText(p))
}

// runDeferred starts deferred call d of frame f. Returns true if the exec loop must return (blocked).
func (m *Machine) runDeferred(g *G, f *Frame, d *deferRec, p *Panic) bool {
	if d.bi != "" {
		m.builtinDeferred(g, f, d)
		if p != nil {
			m.afterDefer(g, f, p)
		}
		return false
	}
	if d.nat != nil || d.fn.intr != nil {
		in := d.nat
		if in == nil {
			in = d.fn.intr
		}
		c := &Call{m: m, g: g, fr: f, args: d.args, fn: d.fn, noRet: true}
		in(c)
		if c.retry {
			// blocked inside a deferred intrinsic (e.g. Lock): put back and retry later
			f.defers = append(f.defers, d)
			if p != nil {
				m.unsupported("blocking intrinsic in panic unwinding")
			}
			return true
		}
		if c.tail {
			nf := g.top
			nf.isDefer = true
			nf.dpanic = p
			nf.retDst = -1
			return false
		}
		if p != nil {
			m.afterDefer(g, f, p)
		}
		return false
	}
	nf := m.pushFrame(g, d.fn, d.args, -1)
	nf.isDefer = true
	nf.dpanic = p
	return false
}

// afterDefer continues after a deferred call finished while frame f (== g.top) was panicking with p
func (m *Machine) afterDefer(g *G, f *Frame, p *Panic) {
	if p.recovered {
		f.panic = nil
		if f.fn.recover >= 0 {
			// Recover block: runs remaining defers? SSA: recover block loads results and returns; remaining defers run first
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				f.runDef = true
				m.runRecovered(g, f, d)
				return
			}
			f.pc = f.fn.recover
			return
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			m.runRecovered(g, f, d)
			return
		}
		// no named results: return zero values
		zero := make([]V, f.fn.retN)
		m.returnVals(g, f, zero)
		return
	}
	m.unwind(g, p)
}

// runRecovered: remaining defers after recovery, then go to recover block
func (m *Machine) runRecovered(g *G, f *Frame, d *deferRec) {
	p := &Panic{recovered: true}
	m.runDeferred(g, f, d, p)
}

func (m *Machine) doReturn(g *G, f *Frame, ci *callInfo) {
	var buf [16]V
	out := buf[:0]
	for i, a := range ci.args {
		out = append(out, f.vs(a, ci.argN[i])...)
	}
	m.returnVals(g, f, out)
}

func (m *Machine) returnVals(g *G, f *Frame, out []V) {
	if g.top != f {
		panic("return from non-top frame")
	}
	if f.stop {
		f.out = append([]V(nil), out...)
		f.fin = true
		m.popFrame(g)
		return
	}
	caller := f.caller
	m.popFrame(g)
	if caller == nil {
		g.done = true
		return
	}
	if f.isDefer {
		if f.dpanic != nil {
			m.afterDefer(g, caller, f.dpanic)
		}
		// normal RunDefers: caller.pc still at RunDefers, loop continues
		return
	}
	if f.onRet != nil {
		f.onRet(out)
		return
	}
	if f.retDst >= 0 {
		copy(caller.regs[f.retDst:], out)
	}
	caller.pc++
}

// ---- calls

func (m *Machine) lookupMethod(x *TypeInfo, meth *types.Func) *Fn {
	pkg := ""
	if !meth.Exported() && meth.Pkg() != nil {
		pkg = meth.Pkg().Path()
	}
	k := methKey{x, meth.Name(), pkg}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	ms := m.prog.ssa.MethodSets.MethodSet(x.T)
	sel := ms.Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		m.unsupported("method %s not found on %s", meth.Name(), x.T)
	}
	sf := m.prog.ssa.MethodValue(sel)
	if sf == nil {
		m.unsupported("no method value %s on %s", meth.Name(), x.T)
	}
	f := m.fnOf(sf)
	m.methCache[k] = f
	return f
}

// resolveCall returns callee and flattened args (incl. bindings); nil fn if a panic was raised
func (m *Machine) resolveCall(g *G, f *Frame, ci *callInfo) (*Fn, []V) {
	var args []V
	if ci.invoke != nil {
		iv := f.vs(ci.fv, 2)
		if iv[0].o == nil {
			m.rtPanic(g, "invalid memory address or nil pointer dereference")
			return nil, nil
		}
		x := m.dynType(iv[0])
		fn := m.lookupMethod(x, ci.invoke)
		args = make([]V, x.n, int32(x.n)+ci.nargs)
		m.unboxIface(x, iv[1], args)
		for i, a := range ci.args {
			args = append(args, f.vs(a, ci.argN[i])...)
		}
		return fn, args
	}
	args = make([]V, 0, ci.nargs+4)
	for i, a := range ci.args {
		args = append(args, f.vs(a, ci.argN[i])...)
	}
	if ci.fn != nil {
		if ci.target == nil {
			ci.target = m.fnOf(ci.fn)
		}
		return ci.target, args
	}
	fv := f.v(ci.fv)
	if fv.o == nil {
		m.rtPanic(g, "invalid memory address or nil pointer dereference")
		return nil, nil
	}
	x, ok := fv.o.meta.(*FuncVal)
	if !ok {
		m.violation("memory", "call of a non-function value "+fv.o.label)
	}
	if x.native != nil {
		return &Fn{name: x.name, intr: x.native, isStd: true}, args
	}
	if x.fn == nil {
		x.fn = m.fnOf(x.sf)
	}
	return x.fn, append(args, x.bind...)
}

// doCall: returns true if exec must return to the scheduler
func (m *Machine) doCall(g *G, f *Frame, in *Instr) bool {
	ci := in.x.(*callInfo)
	if ci.builtin != "" {
		return m.builtin(g, f, in, ci)
	}
	fn, args := m.resolveCall(g, f, ci)
	if fn == nil {
		return false
	}
	return m.invoke(g, f, in, ci, fn, args)
}

func (m *Machine) invoke(g *G, f *Frame, in *Instr, ci *callInfo, fn *Fn, args []V) bool {
	if fn.intr != nil {
		c := Call{m: m, g: g, fr: f, args: args, in: in, ci: ci, fn: fn}
		top := g.top
		fn.intr(&c)
		if c.retry {
			return true
		}
		if g.done {
			return true
		}
		if c.tail || c.threw {
			return false
		}
		_ = top
		if int32(len(c.rets)) != ci.retN && ci.retN != 0 {
			m.unsupported("internal: intrinsic %s returned %d values, want %d", fn.name, len(c.rets), ci.retN)
		}
		copy(f.regs[in.dst:], c.rets[:min(len(c.rets), int(ci.retN))])
		f.pc++
		return false
	}
	if fn.hook != nil {
		c := Call{m: m, g: g, fr: f, args: args, in: in, ci: ci, fn: fn}
		if fn.hook(&c) {
			copy(f.regs[in.dst:], c.rets[:min(len(c.rets), int(ci.retN))])
			f.pc++
			return false
		}
	}
	if g.excur == nil && fn.isStd && !f.fn.isStd {
		// entering std code
		nf := m.pushFrame(g, fn, args, in.dst)
		g.excur = nf
		g.atomicN = 0
		return false
	}
	m.pushFrame(g, fn, args, in.dst)
	return false
}

func (m *Machine) doDefer(g *G, f *Frame, in *Instr) {
	ci := in.x.(*callInfo)
	if ci.builtin != "" {
		var args []V
		for i, a := range ci.args {
			args = append(args, f.vs(a, ci.argN[i])...)
		}
		f.defers = append(f.defers, &deferRec{bi: ci.builtin, ci: ci, args: args})
		f.pc++
		return
	}
	fn, args := m.resolveCall(g, f, ci)
	if fn == nil {
		return
	}
	f.defers = append(f.defers, &deferRec{fn: fn, args: args, ci: ci})
	f.pc++
}

func (m *Machine) builtinDeferred(g *G, f *Frame, d *deferRec) {
	switch d.bi {
	case "close":
		m.chanClose(g, d.args[0])
	case "recover":
		// deferred recover() directly: no effect in Go? it does recover; rare
		m.unsupported("defer recover()")
	case "delete":
		m.unsupported("defer delete")
	case "print", "println":
	case "panic":
		m.throw(g, d.args[0], d.args[1])
	default:
		m.unsupported("deferred builtin %s", d.bi)
	}
}

// ---- loads and stores through possibly symbolic pointers

func (m *Machine) loadInto(dst []V, p V, x *TypeInfo) {
	if p.t == nil {
		if p.o == nil {
			if x.n == 0 {
				return
			}
			m.violation("memory", fmt.Sprintf("read through invalid pointer %#x", p.u))
		}
		if x.leaves == nil && x.n > 0 {
			m.unsupported("load of huge array")
		}
		for i, l := range x.leaves {
			v := m.load(p.o, p.u+l.off, l.w)
			if v.t != nil {
				v = m.fixSort(v, l)
			}
			dst[i] = v
		}
		if x.n == 0 {
			m.checkRange(p.o, p.u, 0, "read")
		}
		return
	}
	if p.o == nil {
		m.unsupported("load through symbolic address")
	}
	if x.n == 1 {
		dst[0] = m.symLoad(p, x.leaves[0])
		return
	}
	p = m.concPtr(p)
	m.loadInto(dst, p, x)
}

func (m *Machine) fixSort(v V, l leaf) V {
	if l.bool {
		if v.t.W != 0 {
			return m.boolV(m.tc.Not(m.tc.Eq(v.t, m.tc.Const(v.t.W, 0))))
		}
		return v
	}
	if v.t.W == 0 && v.o == nil {
		return V{t: m.bvOf(v.t)}
	}
	return v
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// symIdx decomposes offset term t = C + g*idx
func (m *Machine) symIdx(t *Term) (c, g uint64, idx *Term) {
	if t.Op == OLin {
		g = 0
		for _, k := range t.K {
			g = gcd(g, k)
		}
		r := lin{}
		for i, k := range t.K {
			r.ks = append(r.ks, k/g)
			r.as = append(r.as, t.A[i])
		}
		idx = m.tc.mkLin(t.W, r)
		if idx != nil {
			return t.C, g, idx
		}
	}
	if t.Op == OTable || t.Op == OIte {
		return 0, 1, t
	}
	return 0, 1, t
}

func sameV(a, b V) bool { return a == b }

func (m *Machine) symLoad(p V, l leaf) V {
	o := p.o
	o.force()
	c, g, idx := m.symIdx(p.t)
	lo, hi := idx.lo, idx.hi
	if l.off+uint64(l.w)+c > o.size {
		m.checkRange(o, c+l.off, uint64(l.w), "read")
	}
	maxI := (o.size - uint64(l.w) - l.off - c) / g
	if hi > maxI {
		hi = maxI
	}
	if lo > hi || hi-lo > 70000 {
		p = m.concPtr(p)
		v := m.load(o, p.u+l.off, l.w)
		if v.t != nil {
			v = m.fixSort(v, l)
		}
		return v
	}
	if m.raceOn {
		m.raceRange(o, c+lo*g+l.off, (hi-lo)*g+uint64(l.w), false)
	}
	race := m.raceOn
	m.raceOn = false
	n := hi - lo + 1
	vs := make([]V, n)
	allConc, anyPtr := true, false
	for i := uint64(0); i < n; i++ {
		v := m.load(o, c+(lo+i)*g+l.off, l.w)
		if v.t != nil && v.o == nil {
			v = m.fixSort(v, l)
		}
		vs[i] = v
		if !v.conc() {
			allConc = false
		}
		if v.o != nil {
			anyPtr = true
		}
	}
	m.raceOn = race
	if anyPtr {
		// fork by groups of identical values
		return m.groupSelect(idx, lo, vs)
	}
	w := l.w * 8
	if l.bool {
		w = 0
	}
	if allConc {
		ks := make([]uint64, hi+1)
		for i := range ks {
			if uint64(i) < lo {
				ks[i] = vs[0].u
			} else {
				ks[i] = vs[uint64(i)-lo].u
			}
		}
		return m.tv(m.tc.Table(w, ks, idx))
	}
	if n > 512 {
		p = m.concPtr(p)
		return m.load(o, p.u+l.off, l.w)
	}
	toT := func(v V) *Term {
		if v.t != nil {
			return v.t
		}
		return m.tc.Const(w, v.u)
	}
	r := toT(vs[n-1])
	for i := int(n) - 2; i >= 0; i-- {
		if vs[i] == vs[i+1] && false {
			continue
		}
		r = m.tc.Ite(m.tc.Ule(idx, m.tc.Const(idx.W, lo+uint64(i))), toT(vs[i]), r)
	}
	return m.tv(r)
}

func (m *Machine) groupSelect(idx *Term, lo uint64, vs []V) V {
	var groups []V
	gi := make([]int, len(vs))
	for i, v := range vs {
		k := -1
		for j, gv := range groups {
			if gv == v {
				k = j
				break
			}
		}
		if k < 0 {
			k = len(groups)
			groups = append(groups, v)
			if k > 300 {
				m.unsupported("symbolic index into pointer table with too many targets")
			}
		}
		gi[i] = k
	}
	for k := 0; k < len(groups)-1; k++ {
		ks := make([]uint64, lo+uint64(len(vs)))
		for i := range vs {
			if gi[i] == k {
				ks[lo+uint64(i)] = 1
			}
		}
		if m.branch(m.tc.boolTable(ks, idx)) {
			return groups[k]
		}
	}
	return groups[len(groups)-1]
}

func (m *Machine) storeLeaves(p V, x *TypeInfo, vs []V) {
	if p.t == nil {
		if p.o == nil {
			if x.n == 0 {
				return
			}
			m.violation("memory", fmt.Sprintf("write through invalid pointer %#x", p.u))
		}
		for i, l := range x.leaves {
			m.store(p.o, p.u+l.off, l.w, vs[i])
		}
		return
	}
	if p.o == nil {
		m.unsupported("store through symbolic address")
	}
	if x.n == 1 && vs[0].o == nil {
		l := x.leaves[0]
		c, g, idx := m.symIdx(p.t)
		lo, hi := idx.lo, idx.hi
		maxI := (p.o.size - uint64(l.w) - l.off - c) / g
		if hi > maxI {
			hi = maxI
		}
		if hi >= lo && hi-lo <= 64 {
			w := l.w * 8
			ok := true
			for i := lo; i <= hi; i++ {
				if m.load(p.o, c+i*g+l.off, l.w).o != nil {
					ok = false
				}
			}
			if ok {
				for i := lo; i <= hi; i++ {
					off := c + i*g + l.off
					old := m.load(p.o, off, l.w)
					cond := m.tc.Eq(idx, m.tc.Const(idx.W, i))
					var nv V
					if l.bool {
						nv = m.boolV(m.tc.Ite(cond, m.boolT(vs[0]), m.boolT(old)))
					} else {
						nv = m.tv(m.tc.Ite(cond, m.termW(vs[0], w), m.termW(old, w)))
					}
					m.store(p.o, off, l.w, nv)
				}
				return
			}
		}
	}
	p = m.concPtr(p)
	m.storeLeaves(p, x, vs)
}

// idx64 normalises an index operand to 64 bit
func (m *Machine) idx64(v V, x *TypeInfo) V {
	if v.t == nil {
		if v.o != nil {
			return cv(m.concV(v))
		}
		if x.signed {
			return cv(uint64(sext64(v.u, x.width)))
		}
		return v
	}
	t := m.termW(v, x.width)
	if x.width == 64 {
		return v
	}
	if x.signed {
		return m.tv(m.tc.Sext(t, 64))
	}
	return m.tv(m.tc.Zext(t, 64))
}

// boundsCheck: idx < n; true if ok, otherwise panics in g
func (m *Machine) boundsCheck(g *G, idx V, n uint64) bool {
	if idx.t == nil {
		if idx.u < n {
			return true
		}
		if int64(idx.u) < 0 {
			m.rtPanic(g, fmt.Sprintf("index out of range [%d]", int64(idx.u)))
		} else {
			m.rtPanic(g, fmt.Sprintf("index out of range [%d] with length %d", idx.u, n))
		}
		return false
	}
	c := m.tc.Ult(idx.t, m.tc.Const(64, n))
	if m.branch(c) {
		return true
	}
	m.rtPanic(g, "index out of range")
	return false
}

func (m *Machine) indexAddr(g *G, f *Frame, in *Instr) bool {
	base := f.v(in.a)
	n := in.k
	if in.n == -1 {
		s := f.vs(in.a, 3)
		n = m.concV(s[1])
	} else if base.o == nil {
		m.nilDeref(g, base)
		return false
	}
	idx := m.idx64(f.v(in.b), in.ti2)
	if !m.boundsCheck(g, idx, n) {
		return false
	}
	if base.o == nil {
		m.violation("memory", "slice with invalid data pointer")
	}
	if idx.t == nil {
		if base.t != nil {
			f.regs[in.dst] = V{o: base.o, t: m.tc.Add(base.t, m.tc.Const(64, idx.u*in.ti.size))}
		} else {
			f.regs[in.dst] = V{o: base.o, u: base.u + idx.u*in.ti.size}
		}
		return true
	}
	t := idx.t
	if t.hi >= n {
		t = m.clampTerm(t, n)
	}
	off := m.tc.Mul(t, m.tc.Const(64, in.ti.size))
	if base.t != nil {
		off = m.tc.Add(off, base.t)
	} else {
		off = m.tc.Add(off, m.tc.Const(64, base.u))
	}
	if off.IsConst() {
		f.regs[in.dst] = V{o: base.o, u: off.C}
	} else {
		f.regs[in.dst] = V{o: base.o, t: off}
	}
	return true
}

// clampTerm gives t a static range < n (valid because the path condition implies t < n):
// narrow to the needed number of bits when the value provably fits
func (m *Machine) clampTerm(t *Term, n uint64) *Term {
	if n == 0 {
		return t
	}
	nb := uint8(1)
	for nb < 63 && (uint64(1)<<nb) < n {
		nb++
	}
	if nb >= 60 {
		return t
	}
	return m.tc.Zext(m.tc.Extract(t, 0, nb), 64)
}

func (m *Machine) index(g *G, f *Frame, in *Instr) bool {
	idx := m.idx64(f.v(in.b), in.ti2)
	if in.n == -1 { // string
		s := f.vs(in.a, 2)
		n := m.concV(s[1])
		if !m.boundsCheck(g, idx, n) {
			return false
		}
		p := s[0]
		if idx.t == nil && p.t == nil {
			f.regs[in.dst] = m.load(p.o, p.u+idx.u, 1)
			if f.regs[in.dst].t != nil {
				f.regs[in.dst] = m.fixSort(f.regs[in.dst], leaf{w: 1})
			}
			return true
		}
		t := m.termW(idx, 64)
		if t.hi >= n {
			t = m.clampTerm(t, n)
		}
		off := m.tc.Add(t, m.tc.Const(64, p.u))
		if p.t != nil {
			off = m.tc.Add(t, p.t)
		}
		f.regs[in.dst] = m.symLoad(V{o: p.o, t: off}, leaf{0, 1, false})
		return true
	}
	if !m.boundsCheck(g, idx, in.k) {
		return false
	}
	if idx.t == nil {
		n := int32(in.ti.n)
		copy(f.regs[in.dst:in.dst+n], f.vs(aliasOff(in.a, int(idx.u)*in.ti.n), n))
		return true
	}
	i := m.concretize(idx.t)
	n := int32(in.ti.n)
	copy(f.regs[in.dst:in.dst+n], f.vs(aliasOff(in.a, int(i)*in.ti.n), n))
	return true
}

func (m *Machine) sliceOp(g *G, f *Frame, in *Instr) bool {
	ops := in.x.([3]*TypeInfo)
	var p V
	var ln, cp uint64
	es := uint64(1)
	switch in.w {
	case 1:
		s := f.vs(in.a, 2)
		p = s[0]
		ln = m.concV(s[1])
		cp = ln
	case 2:
		s := f.vs(in.a, 3)
		p = s[0]
		ln = m.concV(s[1])
		cp = m.concV(s[2])
		es = in.ti.size
	case 3:
		p = f.v(in.a)
		if p.o == nil {
			m.nilDeref(g, p)
			return false
		}
		ln, cp = in.k, in.k
		es = in.ti.size
	}
	lo, hi, mx := uint64(0), ln, cp
	if in.n&1 != 0 {
		lo = m.concV(m.idx64(f.v(in.b), ops[0]))
	}
	if in.n&2 != 0 {
		hi = m.concV(m.idx64(f.v(in.c), ops[1]))
	}
	if in.n&4 != 0 {
		mx = m.concV(m.idx64(f.v(in.d), ops[2]))
	}
	if in.n&4 != 0 && mx > cp {
		m.rtPanic(g, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", int64(mx), cp))
		return false
	}
	if hi > mx {
		if in.w == 1 {
			m.rtPanic(g, fmt.Sprintf("slice bounds out of range [:%d] with length %d", int64(hi), ln))
		} else {
			m.rtPanic(g, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", int64(hi), cp))
		}
		return false
	}
	if lo > hi {
		m.rtPanic(g, fmt.Sprintf("slice bounds out of range [%d:%d]", int64(lo), int64(hi)))
		return false
	}
	np := p
	if p.o != nil {
		off := lo * es
		if in.w != 1 && mx == lo {
			off = 0 // avoid pointing past the end
		}
		if in.w == 1 && hi == lo {
			off = 0
		}
		if p.t != nil {
			np = V{o: p.o, t: m.tc.Add(p.t, m.tc.Const(64, off))}
		} else {
			np.u += off
		}
	}
	f.regs[in.dst] = np
	f.regs[in.dst+1] = cv(hi - lo)
	if in.w != 1 {
		f.regs[in.dst+2] = cv(mx - lo)
	}
	return true
}

// ---- type assertion

func (m *Machine) typeAssert(g *G, f *Frame, in *Instr) {
	iv := f.vs(in.a, 2)
	w0, w1 := iv[0], iv[1]
	ok := false
	var x *TypeInfo
	if w0.o != nil {
		x = m.dynType(w0)
		if in.ti.isIface {
			ok = m.implements(x, in.ti.T)
		} else {
			ok = x == in.ti
		}
	}
	n := int32(in.ti.n)
	dst := f.regs[in.dst : in.dst+n]
	if ok {
		if in.ti.isIface {
			if isEmptyIface(in.ti.T) {
				dst[0] = V{o: m.rtype(x.T)}
			} else {
				dst[0] = V{o: m.itab(x, in.ti)}
			}
			dst[1] = w1
		} else {
			m.unboxIface(in.ti, w1, dst)
		}
	} else {
		if !in.commaOk {
			// *runtime.TypeAssertionError
			rt := m.prog.pkg("runtime")
			tt := rt.Type("TypeAssertionError").Type()
			ti := m.ti(tt)
			o := m.newObj(ti.size, "TypeAssertionError")
			m.store(o, 0, 8, V{o: m.rtype(in.ti2.T)})
			if x != nil {
				m.store(o, 8, 8, V{o: m.rtype(x.T)})
			}
			m.store(o, 16, 8, V{o: m.rtype(in.ti.T)})
			if in.ti.isIface && x != nil {
				if mm, _ := types.MissingMethod(x.T, in.ti.U.(*types.Interface), true); mm != nil {
					p, n := m.newStr(mm.Name())
					m.store(o, 24, 8, p)
					m.store(o, 32, 8, n)
				}
			}
			eface := m.ti(types.NewInterfaceType(nil, nil))
			a, b := m.makeIface(m.ti(types.NewPointer(tt)), eface, []V{{o: o}})
			m.throw(g, a, b)
			return
		}
		for i := range dst {
			dst[i] = V{}
		}
	}
	if in.commaOk {
		f.regs[in.dst+n] = bv(ok)
	}
	f.pc++
}

// ---- binary operators

func (m *Machine) binop(f *Frame, in *Instr) {
	g := m.cur
	switch in.tok {
	case token.EQL, token.NEQ:
		var t V
		if in.ti.n == 1 && !in.ti.isFloat {
			a, b := f.v(in.a), f.v(in.b)
			if a.conc() && b.conc() {
				r := a.u == b.u
				if in.tok == token.NEQ {
					r = !r
				}
				f.regs[in.dst] = bv(r)
				return
			}
		}
		// untyped nil vs interface/slice etc: operand n may differ
		n := int32(in.ti.n)
		if int32(in.ti2.n) > n {
			n = int32(in.ti2.n)
		}
		av := f.vs(in.a, int32(in.ti.n))
		bv_ := f.vs(in.b, int32(in.ti2.n))
		x := in.ti
		if in.ti2.n > in.ti.n {
			x = in.ti2
			av = append([]V(nil), make([]V, n)...)
		} else if in.ti2.n < in.ti.n {
			bv_ = make([]V, n)
		}
		if in.ti.isIface && !in.ti2.isIface && in.ti2.n > 0 && in.ti2.T != types.Typ[types.UntypedNil] {
			// mixed comparison: box
			w0, w1 := m.makeIface(in.ti2, in.ti, f.vs(in.b, int32(in.ti2.n)))
			bv_ = []V{w0, w1}
			x = in.ti
		} else if in.ti2.isIface && !in.ti.isIface && in.ti.n > 0 && in.ti.T != types.Typ[types.UntypedNil] {
			w0, w1 := m.makeIface(in.ti, in.ti2, f.vs(in.a, int32(in.ti.n)))
			av = []V{w0, w1}
			x = in.ti2
		}
		pan := g.top
		r := m.eqValsP(g, x, av, bv_)
		if r == nil {
			_ = pan
			m.fixPanicPC(g, f)
			return
		}
		t = m.boolV(r)
		if in.tok == token.NEQ {
			t = m.boolV(m.tc.Not(r))
		}
		f.regs[in.dst] = t
		return
	}
	if in.ti.isStr {
		m.strBin(f, in)
		return
	}
	if in.ti.isBool {
		a, b := m.boolT(f.v(in.a)), m.boolT(f.v(in.b))
		switch in.tok {
		case token.AND, token.LAND:
			f.regs[in.dst] = m.boolV(m.tc.And(a, b))
		case token.OR, token.LOR:
			f.regs[in.dst] = m.boolV(m.tc.Or(a, b))
		default:
			m.unsupported("bool op %v", in.tok)
		}
		return
	}
	if in.ti.n == 2 {
		m.complexBin(f, in)
		return
	}
	a, b := f.v(in.a), f.v(in.b)
	if in.flt {
		m.floatBin(f, in, a, b)
		return
	}
	w := in.w
	if w == 0 {
		// pointers compare
		w = 64
	}
	if a.o != nil || b.o != nil {
		if v, ok := m.ptrArith(in.tok, a, b); ok {
			f.regs[in.dst] = v
			return
		}
		a, b = cv(m.concV(a)), cv(m.concV(b))
	}
	if in.tok == token.SHL || in.tok == token.SHR {
		m.shift(g, f, in, a, b)
		return
	}
	if a.t == nil && b.t == nil {
		x, y := a.u, b.u
		var r uint64
		switch in.tok {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO, token.REM:
			if y == 0 {
				m.panicHere(g, f, "integer divide by zero")
				return
			}
			if in.signed {
				sx, sy := sext64(x, w), sext64(y, w)
				if in.tok == token.QUO {
					if sy == -1 {
						r = uint64(-sx)
					} else {
						r = uint64(sx / sy)
					}
				} else {
					if sy == -1 {
						r = 0
					} else {
						r = uint64(sx % sy)
					}
				}
			} else if in.tok == token.QUO {
				r = x / y
			} else {
				r = x % y
			}
		case token.AND:
			r = x & y
		case token.OR:
			r = x | y
		case token.XOR:
			r = x ^ y
		case token.AND_NOT:
			r = x &^ y
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var c bool
			if in.signed {
				sx, sy := sext64(x, w), sext64(y, w)
				switch in.tok {
				case token.LSS:
					c = sx < sy
				case token.LEQ:
					c = sx <= sy
				case token.GTR:
					c = sx > sy
				default:
					c = sx >= sy
				}
			} else {
				switch in.tok {
				case token.LSS:
					c = x < y
				case token.LEQ:
					c = x <= y
				case token.GTR:
					c = x > y
				default:
					c = x >= y
				}
			}
			f.regs[in.dst] = bv(c)
			return
		default:
			m.unsupported("binop %v", in.tok)
		}
		f.regs[in.dst] = cv(r & mask(w))
		return
	}
	tc := m.tc
	ta, tb := m.termW(a, w), m.termW(b, w)
	var r *Term
	switch in.tok {
	case token.ADD:
		r = tc.Add(ta, tb)
	case token.SUB:
		r = tc.Sub(ta, tb)
	case token.MUL:
		r = tc.Mul(ta, tb)
	case token.QUO, token.REM:
		if m.branch(tc.Eq(tb, tc.Const(w, 0))) {
			m.panicHere(g, f, "integer divide by zero")
			return
		}
		switch {
		case in.signed && in.tok == token.QUO:
			r = tc.SDiv(ta, tb)
		case in.signed:
			r = tc.SRem(ta, tb)
		case in.tok == token.QUO:
			r = tc.UDiv(ta, tb)
		default:
			r = tc.URem(ta, tb)
		}
	case token.AND:
		r = tc.And_(ta, tb)
	case token.OR:
		r = tc.Or_(ta, tb)
	case token.XOR:
		r = tc.Xor_(ta, tb)
	case token.AND_NOT:
		r = tc.And_(ta, tc.Not_(tb))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if in.tok == token.GTR || in.tok == token.GEQ {
			ta, tb = tb, ta
		}
		strict := in.tok == token.LSS || in.tok == token.GTR
		switch {
		case in.signed && strict:
			r = tc.Slt(ta, tb)
		case in.signed:
			r = tc.Sle(ta, tb)
		case strict:
			r = tc.Ult(ta, tb)
		default:
			r = tc.Ule(ta, tb)
		}
		f.regs[in.dst] = m.boolV(r)
		return
	default:
		m.unsupported("binop %v", in.tok)
	}
	f.regs[in.dst] = m.tv(r)
}

// panicHere raises a runtime panic from inside an instruction handler whose caller will do f.pc++
func (m *Machine) panicHere(g *G, f *Frame, msg string) {
	m.rtPanic(g, msg)
	m.fixPanicPC(g, f)
}

// fixPanicPC compensates the pc++ that the exec loop does on frame f after the handler returns
func (m *Machine) fixPanicPC(g *G, f *Frame) {
	f.pc--
}

func (m *Machine) ptrArith(tok token.Token, a, b V) (V, bool) {
	switch tok {
	case token.ADD:
		if b.o != nil && a.o == nil {
			a, b = b, a
		}
		if b.o == nil {
			if b.t == nil && a.t == nil {
				return V{o: a.o, u: a.u + b.u}, true
			}
			t := m.tc.Add(m.offT(a), m.termW(b, 64))
			if t.IsConst() {
				return V{o: a.o, u: t.C}, true
			}
			return V{o: a.o, t: t}, true
		}
	case token.SUB:
		if a.o != nil && b.o == nil && b.t == nil && a.t == nil {
			return V{o: a.o, u: a.u - b.u}, true
		}
		if a.o != nil && a.o == b.o {
			if a.t == nil && b.t == nil {
				return cv(a.u - b.u), true
			}
			return m.tv(m.tc.Sub(m.offT(a), m.offT(b))), true
		}
	case token.XOR, token.OR:
		if b.conc() && b.u == 0 {
			return a, true
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.o == b.o {
			x, y := m.offT(a), m.offT(b)
			var r *Term
			switch tok {
			case token.LSS:
				r = m.tc.Ult(x, y)
			case token.LEQ:
				r = m.tc.Ule(x, y)
			case token.GTR:
				r = m.tc.Ult(y, x)
			default:
				r = m.tc.Ule(y, x)
			}
			return m.boolV(r), true
		}
	}
	return V{}, false
}

func (m *Machine) offT(v V) *Term {
	if v.t != nil {
		return v.t
	}
	return m.tc.Const(64, v.u)
}

func (m *Machine) shift(g *G, f *Frame, in *Instr, a, b V) {
	w := in.w
	cw := in.ti2.width
	if in.ti2.signed {
		// negative count panics
		if b.t == nil {
			if sext64(b.u, cw) < 0 {
				m.panicHere(g, f, "negative shift amount")
				return
			}
		} else if b.t.hi >= sgnbit(cw) {
			if m.branch(m.tc.Slt(b.t, m.tc.Const(cw, 0))) {
				m.panicHere(g, f, "negative shift amount")
				return
			}
		}
	}
	if a.t == nil && b.t == nil {
		var r uint64
		if in.tok == token.SHL {
			if b.u < 64 {
				r = a.u << b.u
			}
		} else if in.signed {
			s := b.u
			if s > 63 {
				s = 63
			}
			r = uint64(sext64(a.u, w) >> s)
		} else if b.u < 64 {
			r = a.u >> b.u
		}
		f.regs[in.dst] = cv(r & mask(w))
		return
	}
	ta := m.termW(a, w)
	var tb *Term
	if b.t == nil {
		tb = m.tc.Const(w, min(b.u, uint64(w)))
	} else {
		t := m.termW(b, cw)
		if cw > w {
			if t.hi < uint64(w) {
				tb = m.tc.Extract(t, 0, w)
			} else {
				tb = m.tc.Ite(m.tc.Ult(t, m.tc.Const(cw, uint64(w))), m.tc.Extract(t, 0, w), m.tc.Const(w, uint64(w)))
			}
		} else {
			tb = m.tc.Zext(t, w)
		}
	}
	var r *Term
	switch {
	case in.tok == token.SHL:
		r = m.tc.Shl(ta, tb)
	case in.signed:
		r = m.tc.Ashr(ta, tb)
	default:
		r = m.tc.Lshr(ta, tb)
	}
	f.regs[in.dst] = m.tv(r)
}

func (m *Machine) floatBin(f *Frame, in *Instr, a, b V) {
	ta, tb := m.termW(a, in.w), m.termW(b, in.w)
	switch in.tok {
	case token.ADD:
		f.regs[in.dst] = m.tv(m.tc.FBin(OFAdd, ta, tb))
	case token.SUB:
		f.regs[in.dst] = m.tv(m.tc.FBin(OFSub, ta, tb))
	case token.MUL:
		f.regs[in.dst] = m.tv(m.tc.FBin(OFMul, ta, tb))
	case token.QUO:
		f.regs[in.dst] = m.tv(m.tc.FBin(OFDiv, ta, tb))
	case token.LSS:
		f.regs[in.dst] = m.boolV(m.tc.FCmp(OFLt, ta, tb))
	case token.LEQ:
		f.regs[in.dst] = m.boolV(m.tc.FCmp(OFLe, ta, tb))
	case token.GTR:
		f.regs[in.dst] = m.boolV(m.tc.FCmp(OFLt, tb, ta))
	case token.GEQ:
		f.regs[in.dst] = m.boolV(m.tc.FCmp(OFLe, tb, ta))
	default:
		m.unsupported("float op %v", in.tok)
	}
}

func (m *Machine) complexBin(f *Frame, in *Instr) {
	a, b := f.vs(in.a, 2), f.vs(in.b, 2)
	for _, v := range []V{a[0], a[1], b[0], b[1]} {
		if !v.conc() {
			m.unsupported("symbolic complex")
		}
	}
	w := uint8(in.ti.size * 4)
	x := complex(fval(w, a[0].u), fval(w, a[1].u))
	y := complex(fval(w, b[0].u), fval(w, b[1].u))
	var r complex128
	switch in.tok {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	}
	f.regs[in.dst] = cv(fbits(w, real(r)))
	f.regs[in.dst+1] = cv(fbits(w, imag(r)))
}

// ---- equality

func (m *Machine) eqVals(x *TypeInfo, a, b []V) *Term {
	t := m.eqValsP(m.cur, x, a, b)
	if t == nil {
		m.unsupported("uncomparable comparison")
	}
	return t
}

// eqValsP returns nil if a runtime panic was raised
func (m *Machine) eqValsP(g *G, x *TypeInfo, a, b []V) *Term {
	switch u := x.U.(type) {
	case *types.Basic:
		switch {
		case x.isStr:
			return m.strEq(a, b)
		case x.isBool:
			return m.tc.Eq(m.boolT(a[0]), m.boolT(b[0]))
		case x.isFloat:
			return m.tc.FCmp(OFEq, m.termW(a[0], x.width), m.termW(b[0], x.width))
		case x.n == 2:
			w := uint8(x.size * 4)
			return m.tc.And(m.tc.FCmp(OFEq, m.termW(a[0], w), m.termW(b[0], w)), m.tc.FCmp(OFEq, m.termW(a[1], w), m.termW(b[1], w)))
		}
		w := x.width
		if w == 0 {
			w = 64
		}
		return m.wordEq(a[0], b[0], w)
	case *types.Interface:
		if a[0].o == nil || b[0].o == nil {
			return m.tc.Bool(a[0].o == nil && b[0].o == nil)
		}
		xa, xb := m.dynType(a[0]), m.dynType(b[0])
		if xa != xb {
			return m.tc.False
		}
		if !types.Comparable(xa.T) {
			m.throwErr(g, "errorString", "comparing uncomparable type "+rtStringCached(m, xa))
			return nil
		}
		if xa.direct {
			return m.wordEq(a[1], b[1], 64)
		}
		if a[1] == b[1] && !hasFloatOrIface(xa.T) {
			return m.tc.True
		}
		va, vb := make([]V, xa.n), make([]V, xa.n)
		m.unboxIface(xa, a[1], va)
		m.unboxIface(xa, b[1], vb)
		return m.eqValsP(g, xa, va, vb)
	case *types.Struct:
		r := m.tc.True
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			e := m.ti(u.Field(i).Type())
			s := x.fSlot[i]
			t := m.eqValsP(g, e, a[s:s+e.n], b[s:s+e.n])
			if t == nil {
				return nil
			}
			r = m.tc.And(r, t)
		}
		return r
	case *types.Array:
		r := m.tc.True
		n := int(u.Len())
		for i := 0; i < n; i++ {
			t := m.eqValsP(g, x.elem, a[i*x.elem.n:(i+1)*x.elem.n], b[i*x.elem.n:(i+1)*x.elem.n])
			if t == nil {
				return nil
			}
			r = m.tc.And(r, t)
		}
		return r
	case *types.Slice, *types.Signature, *types.Map:
		// only comparable with nil
		return m.wordEq(a[0], b[0], 64)
	default:
		return m.wordEq(a[0], b[0], 64)
	}
}

func hasFloatOrIface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsFloat|types.IsComplex) != 0
	case *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasFloatOrIface(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasFloatOrIface(u.Elem())
	}
	return false
}

func (m *Machine) wordEq(a, b V, w uint8) *Term {
	if a.o == nil && b.o == nil {
		if a.t == nil && b.t == nil {
			return m.tc.Bool(a.u == b.u)
		}
		return m.tc.Eq(m.termW(a, w), m.termW(b, w))
	}
	if a.o == b.o {
		return m.tc.Eq(m.offT(a), m.offT(b))
	}
	if a.o != nil && b.o != nil {
		// distinct objects; zero-size or one-past pointers are considered different
		return m.tc.False
	}
	// pointer vs integer
	p, i := a, b
	if a.o == nil {
		p, i = b, a
	}
	if i.t == nil && i.u == 0 {
		return m.tc.False
	}
	if p.t == nil && i.t == nil && p.o.addr != 0 {
		return m.tc.Bool(p.o.addr+p.u == i.u)
	}
	return m.tc.False
}

func (m *Machine) strEq(a, b []V) *Term {
	la, lb := m.concV(a[1]), m.concV(b[1])
	if la != lb {
		return m.tc.False
	}
	if la == 0 || a[0] == b[0] {
		return m.tc.True
	}
	sa, ok1 := m.concStr(a[0], a[1])
	sb, ok2 := m.concStr(b[0], b[1])
	if ok1 && ok2 {
		return m.tc.Bool(sa == sb)
	}
	return m.bytesEq(a[0], b[0], la)
}

func (m *Machine) bytesEq(p, q V, n uint64) *Term {
	xa, xb := m.bytesAt(p, n), m.bytesAt(q, n)
	r := m.tc.True
	for i := range xa {
		if xa[i].conc() && xb[i].conc() {
			if xa[i].u != xb[i].u {
				return m.tc.False
			}
		}
	}
	for i := range xa {
		r = m.tc.And(r, m.tc.Eq(m.byteTerm(xa[i]), m.byteTerm(xb[i])))
	}
	return r
}

// strCmp: term for a<b (strict) on strings
func (m *Machine) strLess(a, b []V, orEq bool) *Term {
	la, lb := m.concV(a[1]), m.concV(b[1])
	if sa, ok := m.concStr(a[0], a[1]); ok {
		if sb, ok := m.concStr(b[0], b[1]); ok {
			if orEq {
				return m.tc.Bool(sa <= sb)
			}
			return m.tc.Bool(sa < sb)
		}
	}
	n := min(la, lb)
	var r *Term
	if orEq {
		r = m.tc.Bool(la <= lb)
	} else {
		r = m.tc.Bool(la < lb)
	}
	xa, xb := m.bytesAt(a[0], n), m.bytesAt(b[0], n)
	for i := int(n) - 1; i >= 0; i-- {
		x, y := m.byteTerm(xa[i]), m.byteTerm(xb[i])
		r = m.tc.Or(m.tc.Ult(x, y), m.tc.And(m.tc.Eq(x, y), r))
	}
	return r
}

func (m *Machine) strBin(f *Frame, in *Instr) {
	a, b := f.vs(in.a, 2), f.vs(in.b, 2)
	switch in.tok {
	case token.ADD:
		la, lb := m.concV(a[1]), m.concV(b[1])
		if la == 0 {
			x, y := b[0], b[1]
			f.regs[in.dst], f.regs[in.dst+1] = x, y
			return
		}
		if lb == 0 {
			x, y := a[0], a[1]
			f.regs[in.dst], f.regs[in.dst+1] = x, y
			return
		}
		o := m.newObj(la+lb, "string")
		pa, pb := m.concPtr(a[0]), m.concPtr(b[0])
		m.memmove(o, 0, pa.o, pa.u, la)
		m.memmove(o, la, pb.o, pb.u, lb)
		f.regs[in.dst] = V{o: o}
		f.regs[in.dst+1] = cv(la + lb)
	case token.LSS:
		f.regs[in.dst] = m.boolV(m.strLess(a, b, false))
	case token.LEQ:
		f.regs[in.dst] = m.boolV(m.strLess(a, b, true))
	case token.GTR:
		f.regs[in.dst] = m.boolV(m.strLess(b, a, false))
	case token.GEQ:
		f.regs[in.dst] = m.boolV(m.strLess(b, a, true))
	default:
		m.unsupported("string op %v", in.tok)
	}
}

// ---- conversions

func (m *Machine) convert(g *G, f *Frame, in *Instr) {
	from, to := in.ti, in.ti2
	fu, tu := from.U, to.U
	defer func() {}()
	fb, fIsB := fu.(*types.Basic)
	tb, tIsB := tu.(*types.Basic)
	v := f.v(in.a)
	// string conversions
	if tIsB && tb.Info()&types.IsString != 0 {
		if fs, ok := fu.(*types.Slice); ok {
			s := f.vs(in.a, 3)
			n := m.concV(s[1])
			if eb, ok := fs.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				if n == 0 {
					f.regs[in.dst], f.regs[in.dst+1] = V{}, V{}
				} else {
					o := m.newObj(n, "string")
					p := m.concPtr(s[0])
					m.memmove(o, 0, p.o, p.u, n)
					f.regs[in.dst] = V{o: o}
					f.regs[in.dst+1] = cv(n)
				}
				f.pc++
				return
			}
			// []rune
			r := m.callSync(m.fnOf(m.prog.modelFn("RunesToString")), []V{s[0], s[1], s[2]})
			f.regs[in.dst], f.regs[in.dst+1] = r[0], r[1]
			f.pc++
			return
		}
		if fIsB && fb.Info()&types.IsInteger != 0 {
			x := m.idx64(v, from)
			if x.t == nil && (int64(x.u) < 0 || x.u > 0x7fffffff) {
				x = cv(0xFFFD)
			}
			var rv V
			if x.t == nil {
				rv = cv(x.u & 0xffffffff)
			} else {
				rv = m.tv(m.tc.Extract(x.t, 0, 32))
			}
			r := m.callSync(m.fnOf(m.prog.modelFn("RuneToString")), []V{rv})
			f.regs[in.dst], f.regs[in.dst+1] = r[0], r[1]
			f.pc++
			return
		}
		// string->string
		s := f.vs(in.a, 2)
		x, y := s[0], s[1]
		f.regs[in.dst], f.regs[in.dst+1] = x, y
		f.pc++
		return
	}
	if fIsB && fb.Info()&types.IsString != 0 {
		if ts, ok := tu.(*types.Slice); ok {
			s := f.vs(in.a, 2)
			n := m.concV(s[1])
			if eb := ts.Elem().Underlying().(*types.Basic); eb.Kind() == types.Uint8 {
				c := roundupsize(n)
				o := m.newObj(c, "[]byte(string)")
				if n > 0 {
					p := m.concPtr(s[0])
					m.memmove(o, 0, p.o, p.u, n)
				}
				f.regs[in.dst] = V{o: o}
				f.regs[in.dst+1] = cv(n)
				f.regs[in.dst+2] = cv(c)
				f.pc++
				return
			}
			r := m.callSync(m.fnOf(m.prog.modelFn("StringToRunes")), []V{s[0], s[1]})
			copy(f.regs[in.dst:in.dst+3], r)
			f.pc++
			return
		}
	}
	if to.width != 0 && from.width != 0 {
		f.regs[in.dst] = m.convNum(v, from, to)
		f.pc++
		return
	}
	if from.n == 2 && to.n == 2 { // complex
		w1, w2 := uint8(from.size*4), uint8(to.size*4)
		s := f.vs(in.a, 2)
		x, y := m.tv(m.tc.FUn(OFToFP, w2, m.termW(s[0], w1))), m.tv(m.tc.FUn(OFToFP, w2, m.termW(s[1], w1)))
		f.regs[in.dst], f.regs[in.dst+1] = x, y
		f.pc++
		return
	}
	// slice -> array
	if fs, ok := fu.(*types.Slice); ok {
		if ta, ok := tu.(*types.Array); ok {
			_ = fs
			s := f.vs(in.a, 3)
			if m.concV(s[1]) < uint64(ta.Len()) {
				m.rtPanic(g, "cannot convert slice to array")
				return
			}
			m.loadInto(f.regs[in.dst:in.dst+int32(to.n)], s[0], to)
			f.pc++
			return
		}
	}
	// pointers, unsafe, uintptr, identical layout
	n := int32(to.n)
	src := f.vs(in.a, n)
	tmp := append([]V(nil), src...)
	copy(f.regs[in.dst:in.dst+n], tmp)
	f.pc++
}

func (m *Machine) convNum(v V, from, to *TypeInfo) V {
	if v.o != nil {
		if to.width == 64 {
			return v
		}
		v = cv(m.concV(v))
	}
	switch {
	case !from.isFloat && !to.isFloat:
		if v.t == nil {
			x := v.u
			if from.signed {
				x = uint64(sext64(x, from.width))
			}
			return cv(x & mask(to.width))
		}
		t := m.termW(v, from.width)
		if to.width <= from.width {
			return m.tv(m.tc.Extract(t, 0, to.width))
		}
		if from.signed {
			return m.tv(m.tc.Sext(t, to.width))
		}
		return m.tv(m.tc.Zext(t, to.width))
	case from.isFloat && to.isFloat:
		if from.width == to.width {
			return v
		}
		return m.tv(m.tc.FUn(OFToFP, to.width, m.termW(v, from.width)))
	case to.isFloat:
		op := OFFromUI
		if from.signed {
			op = OFFromSI
		}
		t := m.termW(v, from.width)
		if d := m.defs[t]; d != nil {
			t = d
		}
		return m.tv(m.tc.FUn(op, to.width, t))
	default: // float -> int, amd64 semantics
		t := m.termW(v, from.width)
		if to.signed || to.width < 64 {
			// gc: converts via int64 (int32 via cvttsd2sl for 32 bit) then truncates
			if to.signed && to.width == 32 || to.width < 32 && false {
				r := m.tc.FUn(OFToSI, 32, t)
				return m.tv(r)
			}
			if to.width <= 16 {
				return m.tv(m.tc.Extract(m.tc.FUn(OFToSI, 32, t), 0, to.width))
			}
			return m.tv(m.tc.Extract(m.digits(m.tc.FUn(OFToSI, 64, t)), 0, to.width))
		}
		// uint64: x < 2^63 ? int64(x) : int64(x-2^63) ^ 1<<63
		if t.IsConst() {
			x := fval(from.width, t.C)
			var r uint64
			if x < 9223372036854775808.0 {
				r = fun1(OFToSI, 64, 64, math.Float64bits(x))
			} else {
				r = fun1(OFToSI, 64, 64, math.Float64bits(x-9223372036854775808.0)) ^ (1 << 63)
			}
			return cv(r)
		}
		two63 := m.tc.Const(from.width, fbits(from.width, 9223372036854775808.0))
		lt := m.tc.FCmp(OFLt, t, two63)
		a := m.tc.FUn(OFToSI, 64, t)
		if m.flags["fdigits"] != 0 && m.branch(lt) {
			return m.tv(m.digits(a))
		}
		b := m.tc.Xor_(m.tc.FUn(OFToSI, 64, m.tc.FBin(OFSub, t, two63)), m.tc.Const(64, 1<<63))
		return m.tv(m.digits(m.tc.Ite(lt, a, b)))
	}
}

var _ ssa.Value
