package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iNop iop = iota
	iBin
	iNot
	iNeg
	iCompl
	iLoad
	iStore
	iAlloc
	iFieldAddr
	iIndexAddr
	iIndex
	iMapLookup
	iSlice
	iMakeSlice
	iMakeMap
	iMakeChan
	iMakeClosure
	iMakeIface
	iTypeAssert
	iChangeIface
	iConvert
	iCopy
	iCall
	iGo
	iDefer
	iRunDefers
	iPanic
	iReturn
	iIf
	iJump
	iSend
	iRecv
	iSelect
	iMapUpdate
	iRange
	iNext
	iSliceToArrPtr
	iUnsupported
)

type move struct{ dst, src, n int32 }

type edge struct {
	target int32
	moves  []move
	widths []uint8 // bit width per moved V (0 bool, 255 do not merge)
}

type Instr struct {
	op      iop
	tok     token.Token
	w       uint8
	signed  bool
	flt     bool
	commaOk bool
	dst     int32
	a, b, c int32
	d       int32
	n       int32
	k       uint64
	ti, ti2 *TypeInfo
	e0, e1  *edge
	x       any
	in      ssa.Instruction
}

type callInfo struct {
	common  *ssa.CallCommon
	fn      *ssa.Function // static callee
	builtin string
	invoke  *types.Func
	args    []int32
	argN    []int32
	argTI   []*TypeInfo
	nargs   int32
	retN    int32
	fv      int32 // operand for function value / interface value
	target  *Fn
	retTI   *TypeInfo
	bind    []int32
}

type Fn struct {
	f        *ssa.Function
	name     string
	code     []Instr
	consts   []V
	nregs    int32
	nparams  int32
	retN     int32
	recover  int32 // code index of recover block or -1
	intr     intrinsic
	hook     func(c *Call) bool // may answer the call instead of the code
	isStd    bool
	harness  bool
	blockPC  []int32
	nblocks  int
	blkOf    []int32 // pc -> block index
	regions  map[int32]*region
	hasDefer bool
	user     bool
}

type fcomp struct {
	m     *Machine
	fn    *Fn
	f     *ssa.Function
	slots map[ssa.Value]int32
	next  int32
}

func (m *Machine) fnOf(f *ssa.Function) *Fn {
	if x, ok := m.fns[f]; ok {
		return x
	}
	x := &Fn{f: f, name: f.String(), recover: -1}
	m.fns[f] = x
	if o := f.Origin(); o != nil && o != f {
		if in, ok := intrinsics[o.String()]; ok {
			x.intr = in
		}
	}
	if in, ok := intrinsics[x.name]; ok {
		x.intr = in
	}
	if x.intr == nil && f.Blocks == nil {
		if l, ok := m.prog.links[x.name]; ok {
			x.intr = intrinsics[l]
		}
	}
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	if pkg == nil && f.Parent() != nil {
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		pkg = p.Pkg
	}
	x.isStd = pkg == nil || m.prog.stdPkg[pkg.Pkg.Path()]
	x.user = !x.isStd
	x.harness = pkg != nil && strings.HasPrefix(pkg.Pkg.Path(), hPrefix)
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		x.retN += int32(m.ti(sig.Results().At(i).Type()).n)
	}
	if x.intr != nil {
		return x
	}
	if rep, ok := m.prog.models[x.name]; ok && f.Blocks != nil || ok && f.Blocks == nil {
		if rep != f {
			r := m.fnOf(rep)
			m.fns[f] = r
			return r
		}
	}
	if f.Blocks == nil {
		name := x.name
		x.intr = func(c *Call) { c.m.unsupported("external function %s", name) }
		return x
	}
	x.hook = hooks[x.name]
	m.compile(x)
	return x
}

func (m *Machine) compile(x *Fn) {
	f := x.f
	c := &fcomp{m: m, fn: x, f: f, slots: map[ssa.Value]int32{}}
	for _, p := range f.Params {
		c.slots[p] = c.next
		c.next += int32(m.ti(p.Type()).n)
	}
	x.nparams = c.next
	for _, p := range f.FreeVars {
		c.slots[p] = c.next
		c.next += int32(m.ti(p.Type()).n)
	}
	// allocate slots
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				switch v.(type) {
				case *ssa.Extract, *ssa.Field, *ssa.ChangeType:
					continue
				}
				c.slots[v] = c.next
				c.next += int32(c.nOf(v))
			}
		}
	}
	x.blockPC = make([]int32, len(f.Blocks))
	x.nblocks = len(f.Blocks)
	var fix []*edge
	for bi, b := range f.Blocks {
		x.blockPC[bi] = int32(len(x.code))
		for _, in := range b.Instrs {
			n0 := len(x.code)
			c.instr(b, in, &fix)
			for i := n0; i < len(x.code); i++ {
				x.code[i].in = in
				x.blkOf = append(x.blkOf, int32(bi))
			}
		}
		if len(b.Instrs) == 0 || len(x.code) == int(x.blockPC[bi]) {
			// empty block (unreachable)
			x.code = append(x.code, Instr{op: iUnsupported, x: "empty block"})
			x.blkOf = append(x.blkOf, int32(bi))
		}
	}
	for _, e := range fix {
		e.target = x.blockPC[e.target]
	}
	if f.Recover != nil {
		x.recover = x.blockPC[f.Recover.Index]
	}
	x.nregs = c.next
}

func (c *fcomp) nOf(v ssa.Value) int {
	switch v := v.(type) {
	case *ssa.Range:
		return 2 // iterator: object ptr
	case *ssa.Next:
		return c.m.ti(v.Type()).n
	case *ssa.Select:
		return c.m.ti(v.Type()).n
	}
	return c.m.ti(v.Type()).n
}

func (c *fcomp) emit(i Instr) *Instr {
	c.fn.code = append(c.fn.code, i)
	return &c.fn.code[len(c.fn.code)-1]
}

func (c *fcomp) constant(vs []V) int32 {
	k := int32(len(c.fn.consts))
	c.fn.consts = append(c.fn.consts, vs...)
	if len(vs) == 0 {
		c.fn.consts = append(c.fn.consts, V{})
	}
	return -1 - k
}

func aliasOff(op int32, off int) int32 {
	if op >= 0 {
		return op + int32(off)
	}
	return op - int32(off)
}

func (c *fcomp) op(v ssa.Value) int32 {
	if s, ok := c.slots[v]; ok {
		return s
	}
	var r int32
	switch v := v.(type) {
	case *ssa.Extract:
		r = aliasOff(c.op(v.Tuple), c.m.tupleSlot(v.Tuple, v.Index))
	case *ssa.Field:
		r = aliasOff(c.op(v.X), c.m.ti(v.X.Type()).fSlot[v.Field])
	case *ssa.ChangeType:
		r = c.op(v.X)
	case *ssa.Const:
		r = c.constant(c.m.constVal(v))
	case *ssa.Global:
		r = c.constant([]V{{o: c.m.globalObj(v)}})
	case *ssa.Function:
		r = c.constant([]V{{o: c.m.funcObj(v)}})
	case *ssa.Builtin:
		r = 0
	default:
		panic(fmt.Sprintf("operand %T %v in %v", v, v, c.f))
	}
	c.slots[v] = r
	return r
}

func (m *Machine) tupleSlot(tup ssa.Value, idx int) int {
	t := tup.Type().(*types.Tuple)
	n := 0
	for i := 0; i < idx; i++ {
		n += m.ti(t.At(i).Type()).n
	}
	return n
}

func (m *Machine) constVal(v *ssa.Const) []V {
	x := m.ti(v.Type())
	if v.Value == nil {
		return make([]V, x.n)
	}
	switch u := x.U.(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []V{bv(constant.BoolVal(v.Value))}
		case u.Info()&types.IsString != 0:
			s := ""
			if v.Value.Kind() == constant.String {
				s = constant.StringVal(v.Value)
			} else {
				i, _ := constant.Int64Val(v.Value)
				s = string(rune(i))
			}
			o := m.strObj(s)
			return []V{{o: o}, cv(uint64(len(s)))}
		case u.Info()&types.IsInteger != 0:
			return []V{cv(constBits(v.Value, x.width))}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(v.Value))
			if x.width == 32 {
				f32, _ := constant.Float32Val(constant.ToFloat(v.Value))
				return []V{cv(uint64(math.Float32bits(f32)))}
			}
			return []V{cv(math.Float64bits(f))}
		case u.Info()&types.IsComplex != 0:
			cc := constant.ToComplex(v.Value)
			re, _ := constant.Float64Val(constant.Real(cc))
			im, _ := constant.Float64Val(constant.Imag(cc))
			if x.size == 8 {
				return []V{cv(uint64(math.Float32bits(float32(re)))), cv(uint64(math.Float32bits(float32(im))))}
			}
			return []V{cv(math.Float64bits(re)), cv(math.Float64bits(im))}
		case u.Kind() == types.UnsafePointer:
			return []V{cv(constBits(v.Value, 64))}
		}
	case *types.TypeParam:
	}
	panic(fmt.Sprintf("const %v of %v", v, v.Type()))
}

func constBits(v constant.Value, w uint8) uint64 {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return uint64(i) & mask(w)
	}
	u, _ := constant.Uint64Val(v)
	return u & mask(w)
}

func (c *fcomp) edge(from *ssa.BasicBlock, succ int, fix *[]*edge) *edge {
	to := from.Succs[succ]
	e := &edge{target: int32(to.Index)}
	// which pred index? handle duplicate edges by counting
	pi := -1
	cnt := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			cnt++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if cnt == 0 {
				pi = i
				break
			}
			cnt--
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s := c.op(phi.Edges[pi])
		d := c.slots[phi]
		n := int32(c.m.ti(phi.Type()).n)
		if n > 0 {
			e.moves = append(e.moves, move{d, s, n})
			pt := c.m.ti(phi.Type())
			for i := int32(0); i < n; i++ {
				w := uint8(255)
				if pt.isBool {
					w = 0
				} else if pt.width != 0 {
					w = pt.width
				}
				e.widths = append(e.widths, w)
			}
		}
	}
	*fix = append(*fix, e)
	return e
}

func (c *fcomp) instr(b *ssa.BasicBlock, in ssa.Instruction, fix *[]*edge) {
	m := c.m
	switch v := in.(type) {
	case *ssa.Phi, *ssa.DebugRef, *ssa.Extract, *ssa.Field, *ssa.ChangeType:
		if p, ok := in.(*ssa.Phi); ok {
			_ = p
		}
		return
	case *ssa.Alloc:
		t := m.ti(v.Type().Underlying().(*types.Pointer).Elem())
		c.emit(Instr{op: iAlloc, dst: c.slots[v], ti: t, k: t.size})
	case *ssa.BinOp:
		xt := m.ti(v.X.Type())
		yt := m.ti(v.Y.Type())
		c.emit(Instr{op: iBin, tok: v.Op, dst: c.slots[v], a: c.op(v.X), b: c.op(v.Y), ti: xt, ti2: yt, w: xt.width, signed: xt.signed, flt: xt.isFloat})
	case *ssa.UnOp:
		xt := m.ti(v.X.Type())
		switch v.Op {
		case token.NOT:
			c.emit(Instr{op: iNot, dst: c.slots[v], a: c.op(v.X)})
		case token.SUB:
			c.emit(Instr{op: iNeg, dst: c.slots[v], a: c.op(v.X), w: xt.width, flt: xt.isFloat, ti: xt})
		case token.XOR:
			c.emit(Instr{op: iCompl, dst: c.slots[v], a: c.op(v.X), w: xt.width})
		case token.MUL:
			t := m.ti(v.Type())
			c.emit(Instr{op: iLoad, dst: c.slots[v], a: c.op(v.X), ti: t})
		case token.ARROW:
			c.emit(Instr{op: iRecv, dst: c.slots[v], a: c.op(v.X), commaOk: v.CommaOk, ti: m.ti(v.X.Type().Underlying().(*types.Chan).Elem())})
		}
	case *ssa.Store:
		t := m.ti(v.Val.Type())
		c.emit(Instr{op: iStore, a: c.op(v.Addr), b: c.op(v.Val), ti: t})
	case *ssa.FieldAddr:
		st := m.ti(v.X.Type().Underlying().(*types.Pointer).Elem())
		c.emit(Instr{op: iFieldAddr, dst: c.slots[v], a: c.op(v.X), k: st.fOff[v.Field]})
	case *ssa.IndexAddr:
		switch u := v.X.Type().Underlying().(type) {
		case *types.Slice:
			c.emit(Instr{op: iIndexAddr, dst: c.slots[v], a: c.op(v.X), b: c.op(v.Index), n: -1, ti: m.ti(u.Elem()), ti2: m.ti(v.Index.Type())})
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			c.emit(Instr{op: iIndexAddr, dst: c.slots[v], a: c.op(v.X), b: c.op(v.Index), n: 0, k: uint64(arr.Len()), ti: m.ti(arr.Elem()), ti2: m.ti(v.Index.Type())})
		default:
			panic("IndexAddr")
		}
	case *ssa.Index:
		switch u := v.X.Type().Underlying().(type) {
		case *types.Array:
			c.emit(Instr{op: iIndex, dst: c.slots[v], a: c.op(v.X), b: c.op(v.Index), n: 0, k: uint64(u.Len()), ti: m.ti(u.Elem()), ti2: m.ti(v.Index.Type())})
		default:
			c.emit(Instr{op: iIndex, dst: c.slots[v], a: c.op(v.X), b: c.op(v.Index), n: -1, ti: m.ti(types.Typ[types.Uint8]), ti2: m.ti(v.Index.Type())})
		}
	case *ssa.Lookup:
		switch u := v.X.Type().Underlying().(type) {
		case *types.Map:
			c.emit(Instr{op: iMapLookup, dst: c.slots[v], a: c.op(v.X), b: c.op(v.Index), ti: m.ti(u.Key()), ti2: m.ti(u.Elem()), commaOk: v.CommaOk})
		default:
			c.emit(Instr{op: iIndex, dst: c.slots[v], a: c.op(v.X), b: c.op(v.Index), n: -1, ti: m.ti(types.Typ[types.Uint8]), ti2: m.ti(v.Index.Type())})
		}
	case *ssa.Slice:
		i := Instr{op: iSlice, dst: c.slots[v], a: c.op(v.X), n: 0}
		if v.Low != nil {
			i.b = c.op(v.Low)
			i.n |= 1
		}
		if v.High != nil {
			i.c = c.op(v.High)
			i.n |= 2
		}
		if v.Max != nil {
			i.d = c.op(v.Max)
			i.n |= 4
		}
		ops := [3]*TypeInfo{}
		for j, o := range []ssa.Value{v.Low, v.High, v.Max} {
			if o != nil {
				ops[j] = m.ti(o.Type())
			}
		}
		i.x = ops
		switch u := v.X.Type().Underlying().(type) {
		case *types.Basic:
			i.w = 1 // string
		case *types.Slice:
			i.w = 2
			i.ti = m.ti(u.Elem())
		case *types.Pointer:
			i.w = 3
			arr := u.Elem().Underlying().(*types.Array)
			i.ti = m.ti(arr.Elem())
			i.k = uint64(arr.Len())
		default:
			panic("slice")
		}
		c.emit(i)
	case *ssa.MakeSlice:
		c.emit(Instr{op: iMakeSlice, dst: c.slots[v], a: c.op(v.Len), b: c.op(v.Cap), ti: m.ti(v.Type().Underlying().(*types.Slice).Elem()), ti2: m.ti(v.Len.Type())})
	case *ssa.MakeMap:
		c.emit(Instr{op: iMakeMap, dst: c.slots[v], ti: m.ti(v.Type())})
	case *ssa.MakeChan:
		c.emit(Instr{op: iMakeChan, dst: c.slots[v], a: c.op(v.Size), ti: m.ti(v.Type())})
	case *ssa.MakeClosure:
		ci := &callInfo{fn: v.Fn.(*ssa.Function)}
		for _, bnd := range v.Bindings {
			ci.args = append(ci.args, c.op(bnd))
			ci.argN = append(ci.argN, int32(m.ti(bnd.Type()).n))
		}
		c.emit(Instr{op: iMakeClosure, dst: c.slots[v], x: ci})
	case *ssa.MakeInterface:
		c.emit(Instr{op: iMakeIface, dst: c.slots[v], a: c.op(v.X), ti: m.ti(v.X.Type()), ti2: m.ti(v.Type())})
	case *ssa.ChangeInterface:
		c.emit(Instr{op: iChangeIface, dst: c.slots[v], a: c.op(v.X), ti2: m.ti(v.Type())})
	case *ssa.TypeAssert:
		c.emit(Instr{op: iTypeAssert, dst: c.slots[v], a: c.op(v.X), ti: m.ti(v.AssertedType), ti2: m.ti(v.X.Type()), commaOk: v.CommaOk})
	case *ssa.Convert:
		c.emit(Instr{op: iConvert, dst: c.slots[v], a: c.op(v.X), ti: m.ti(v.X.Type()), ti2: m.ti(v.Type())})
	case *ssa.MultiConvert:
		c.emit(Instr{op: iConvert, dst: c.slots[v], a: c.op(v.X), ti: m.ti(v.X.Type()), ti2: m.ti(v.Type())})
	case *ssa.SliceToArrayPointer:
		arr := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		c.emit(Instr{op: iSliceToArrPtr, dst: c.slots[v], a: c.op(v.X), k: uint64(arr.Len())})
	case *ssa.Call:
		ci := c.call(&v.Call)
		ci.retN = int32(m.ti(v.Type()).n)
		ci.retTI = m.ti(v.Type())
		c.emit(Instr{op: iCall, dst: c.slots[v], x: ci})
	case *ssa.Go:
		c.emit(Instr{op: iGo, x: c.call(&v.Call)})
	case *ssa.Defer:
		c.fn.hasDefer = true
		if v.DeferStack != nil {
			c.emit(Instr{op: iUnsupported, x: "defer stack"})
			return
		}
		c.emit(Instr{op: iDefer, x: c.call(&v.Call)})
	case *ssa.RunDefers:
		c.emit(Instr{op: iRunDefers})
	case *ssa.Panic:
		c.emit(Instr{op: iPanic, a: c.op(v.X)})
	case *ssa.Return:
		ci := &callInfo{}
		for _, r := range v.Results {
			ci.args = append(ci.args, c.op(r))
			ci.argN = append(ci.argN, int32(m.ti(r.Type()).n))
		}
		c.emit(Instr{op: iReturn, x: ci})
	case *ssa.Jump:
		e := c.edge(b, 0, fix)
		c.emit(Instr{op: iJump, e0: e})
	case *ssa.If:
		e0, e1 := c.edge(b, 0, fix), c.edge(b, 1, fix)
		c.emit(Instr{op: iIf, a: c.op(v.Cond), e0: e0, e1: e1})
	case *ssa.Send:
		c.emit(Instr{op: iSend, a: c.op(v.Chan), b: c.op(v.X), ti: m.ti(v.X.Type())})
	case *ssa.Select:
		si := &selInfo{blocking: v.Blocking}
		off := int32(2) // index, recvOk
		for _, s := range v.States {
			st := selState{ch: c.op(s.Chan), dir: s.Dir, elem: m.ti(s.Chan.Type().Underlying().(*types.Chan).Elem())}
			if s.Send != nil {
				st.val = c.op(s.Send)
			} else {
				st.off = off
				off += int32(st.elem.n)
			}
			si.states = append(si.states, st)
		}
		si.n = off
		c.emit(Instr{op: iSelect, dst: c.slots[v], x: si})
	case *ssa.MapUpdate:
		mt := v.Map.Type().Underlying().(*types.Map)
		c.emit(Instr{op: iMapUpdate, a: c.op(v.Map), b: c.op(v.Key), c: c.op(v.Value), ti: m.ti(mt.Key()), ti2: m.ti(mt.Elem())})
	case *ssa.Range:
		c.emit(Instr{op: iRange, dst: c.slots[v], a: c.op(v.X), ti: m.ti(v.X.Type())})
	case *ssa.Next:
		c.emit(Instr{op: iNext, dst: c.slots[v], a: c.op(v.Iter), commaOk: v.IsString, ti: m.ti(v.Type())})
	default:
		c.emit(Instr{op: iUnsupported, x: fmt.Sprintf("%T", in)})
	}
}

type selState struct {
	ch   int32
	dir  types.ChanDir
	val  int32
	off  int32
	elem *TypeInfo
}
type selInfo struct {
	blocking bool
	states   []selState
	n        int32
}

func (c *fcomp) call(cc *ssa.CallCommon) *callInfo {
	m := c.m
	ci := &callInfo{common: cc}
	addArgs := func(vs []ssa.Value) {
		for _, a := range vs {
			t := m.ti(a.Type())
			ci.args = append(ci.args, c.op(a))
			ci.argN = append(ci.argN, int32(t.n))
			ci.argTI = append(ci.argTI, t)
			ci.nargs += int32(t.n)
		}
	}
	if cc.IsInvoke() {
		ci.invoke = cc.Method
		ci.fv = c.op(cc.Value)
		addArgs(cc.Args)
		return ci
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = f.Name()
		addArgs(cc.Args)
		return ci
	case *ssa.Function:
		ci.fn = f
	default:
		ci.fv = c.op(cc.Value)
	}
	addArgs(cc.Args)
	return ci
}
