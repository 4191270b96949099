package main

import (
	"os"
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type pathStatus int

const (
	stOK pathStatus = iota
	stInfeasible
	stViolation
	stUnsupported
	stUnknown
	stSteps
	stMem
	stExit
)

var stNames = []string{"ok", "infeasible", "violation", "unsupported", "solver-unknown", "step-limit", "mem-limit", "exit"}

type pathEnd struct {
	st   pathStatus
	kind string
	msg  string
}

type Decision struct {
	Taken bool
	Val   uint64
}

type WorkItem struct {
	prefix []Decision
	model  map[string]uint64
}

type FuncVal struct {
	fn     *Fn
	sf     *ssa.Function
	bind   []V
	native func(c *Call)
	name   string
}

type inputRec struct {
	Name string
	Val  uint64
	term *Term
}

type Machine struct {
	prog      *Program
	opt       *Options
	tc        *TermCtx
	sol       *Solver
	tiPtr     map[types.Type]*TypeInfo
	tiMap     *typeutil.Map
	nextTI    int
	fns       map[*ssa.Function]*Fn
	globals   map[*ssa.Global]*Obj
	funcObjs  map[*ssa.Function]*Obj
	strs      map[string]*Obj
	itabs     map[itabKey]*Obj
	implCache map[itabKey]bool
	strCache  map[*TypeInfo]string
	methCache map[methKey]*Fn
	names     []*Obj
	nameIdx   map[string]int
	typeTab   []*Obj
	typeIdx   map[*Obj]int
	nextObj   int32
	initPhase bool
	pathBytes uint64
	memLimit  uint64
	undo      []undoEnt
	userInit  bool
	baseFuncs map[string]bool
	undoFns   []func()
	baseAddr  uint64
	pathAddr  uint64

	// path state
	pc       []*Term
	pcSet    map[*Term]bool
	model    Model
	shipped  map[string]uint64
	prefix   []Decision
	dpos     int
	decs     []Decision
	newItems []WorkItem
	inputs   []inputRec
	lazy     []*Term         // definitions of digits, left out of branch queries
	defs     map[*Term]*Term // sum of digits -> the term it is the value of
	digOf    map[*Term]*Term // the reverse
	ffmt []floatEnt         // numbers formatted by strconv
	nvar     int
	obs      []obsRec
	steps    int64
	stepLim  int64
	sched    []int

	gs       []*G
	cur      *G
	nextG    int64
	preempts int
	earlies  int
	noSwitch int
	raceOn   bool
	raceWas  bool
	atomicOp bool // the access being recorded is atomic
	now      int64 // virtual ns
	timers   []*Timer
	pools    map[poolKey][]poolEnt
	fsys     any
	syncVC   map[poolKey]vclock
	shadowed []*Obj
	exitCode int
	reached  map[string]int
	mapOrder bool
	flags    map[string]int64

	// stats
	totSteps   int64
	funcsHit   map[string]bool
	blocksHit  int
	obligs     int64
	discharged int64
	unsat0     int64
	mergeCnt   int64
	unkReasons map[string]int
	deadline   time.Time
	unknowns   int
	assumesPruned int64
	iters      map[poolKey]*mapIter
	pcFns      []*Fn
	pcIdx      map[*Fn]int
	rpoCache   map[*Fn][]int32
	pureCache  map[*Fn][]int8
}

type poolKey struct {
	o   *Obj
	off uint64
}
type poolEnt [2]V

type obsRec struct {
	tag string
	vs  []V
}

type methKey struct {
	ti   *TypeInfo
	name string
	pkg  string
}

func NewMachine(p *Program, opt *Options) *Machine {
	m := &Machine{prog: p, opt: opt, tc: NewTermCtx(), tiPtr: map[types.Type]*TypeInfo{}, tiMap: &typeutil.Map{}, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{}, funcObjs: map[*ssa.Function]*Obj{},
		strs: map[string]*Obj{}, itabs: map[itabKey]*Obj{}, implCache: map[itabKey]bool{}, strCache: map[*TypeInfo]string{}, methCache: map[methKey]*Fn{}, nameIdx: map[string]int{}, typeIdx: map[*Obj]int{},
		memLimit: 1 << 28, baseAddr: 0xc000000000, pathAddr: 0xc800000000, funcsHit: map[string]bool{}, pools: map[poolKey][]poolEnt{}, syncVC: map[poolKey]vclock{}, pcIdx: map[*Fn]int{}, rpoCache: map[*Fn][]int32{}, pureCache: map[*Fn][]int8{}, unkReasons: map[string]int{}, reached: map[string]int{}}
	m.sol = NewSolver(m.tc)
	m.sol.dumpDir = opt.dumpDir
	if opt.hardMs > 0 {
		m.sol.hardMs = opt.hardMs
	}
	m.stepLim = opt.stepLim
	if m.stepLim == 0 {
		m.stepLim = 20_000_000
	}
	return m
}

func (m *Machine) endPath(st pathStatus, msg string) { panic(pathEnd{st: st, msg: msg}) }
func (m *Machine) unsupported(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	panic(pathEnd{st: stUnsupported, msg: msg + m.where()})
}
func (m *Machine) violation(kind, msg string) {
	if len(m.lazy) > 0 {
		switch r, nm := m.lazyQuery(m.tc.Bool(true)); r {
		case Unsat:
			panic(pathEnd{st: stInfeasible, msg: "digits"})
		case Unknown:
			panic(pathEnd{st: stUnknown, msg: "solver unknown at violation " + msg})
		default:
			m.model = nm
		}
	}
	panic(pathEnd{st: stViolation, kind: kind, msg: msg + m.where()})
}

func (m *Machine) where() string {
	if m.cur == nil || m.cur.top == nil {
		return ""
	}
	s := ""
	n := 0
	for f := m.cur.top; f != nil && n < 8; f = f.caller {
		pos := ""
		if f.pc < int32(len(f.fn.code)) && f.pc >= 0 {
			if in := f.fn.code[f.pc].in; in != nil {
				p := m.prog.ssa.Fset.Position(in.Pos())
				if p.IsValid() {
					pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
				}
			}
		}
		s += fmt.Sprintf(" <- %s(%s)", f.fn.name, pos)
		n++
	}
	return s
}

func shortFile(f string) string {
	for i, c := 0, 0; i < len(f); i++ {
		if f[len(f)-1-i] == '/' {
			c++
			if c == 3 {
				return f[len(f)-i:]
			}
		}
	}
	return f
}

// ---- path condition

func (m *Machine) addPC(t *Term) {
	if t.IsConst() {
		return
	}
	if t.Op == OBAnd {
		m.addPC(t.A[0])
		m.addPC(t.A[1])
		m.pcSet[t] = true
		return
	}
	if m.pcSet[t] {
		return
	}
	m.pcSet[t] = true
	m.pc = append(m.pc, t)
}

func (m *Machine) slice(q *Term) []*Term {
	out := []*Term{q}
	if q.vars == nil {
		return out
	}
	vs := map[int32]bool{}
	for _, v := range q.vars.ids {
		vs[v] = true
	}
	used := make([]bool, len(m.pc))
	for ch := true; ch; {
		ch = false
		for i, t := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars.ids {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range t.vars.ids {
					if !vs[v] {
						vs[v] = true
						ch = true
					}
				}
			}
		}
	}
	return out
}

var slowLog = os.Getenv("GOSYM_SLOW") != ""

// query: is PC ∧ q satisfiable? returns merged model
func (m *Machine) query(q *Term) (SatRes, Model) {
	if q.IsConst() && q.C == 0 {
		return Unsat, nil
	}
	conj := m.slice(q)
	t0 := time.Now()
	r, mm := m.sol.Check(conj)
	if slowLog && time.Since(t0) > time.Second {
		fmt.Fprintf(os.Stderr, "slow query %v %v %s\n", time.Since(t0), r, m.where())
	}
	if r != Sat {
		return r, nil
	}
	nm := make(Model, len(m.model)+len(mm))
	for k, v := range m.model {
		nm[k] = v
	}
	for k, v := range mm {
		nm[k] = v
	}
	m.tc.stamp++
	for _, t := range conj {
		if m.tc.eval(t, nm) == 0 {
			m.endPath(stUnsupported, "internal: solver model does not satisfy the term semantics: "+t.String())
		}
	}
	return Sat, nm
}

func (m *Machine) shipModel(nm Model) map[string]uint64 {
	out := make(map[string]uint64, len(m.inputs))
	for _, in := range m.inputs {
		v, ok := nm[in.term.id]
		if !ok {
			v = in.term.lo
		}
		out[in.term.name] = v
	}
	return out
}

func (m *Machine) replaying() bool { return m.dpos < len(m.prefix) }

func (m *Machine) branch(cond *Term) bool { return m.branchV(cond, 0) }

func (m *Machine) branchV(cond *Term, val uint64) bool {
	if cond.IsConst() {
		return cond.C != 0
	}
	if m.pcSet[cond] {
		return true
	}
	if m.pcSet[m.tc.Not(cond)] {
		return false
	}
	if m.initPhase {
		m.unsupported("symbolic branch in init")
	}
	if m.replaying() {
		d := m.prefix[m.dpos]
		m.dpos++
		m.decs = append(m.decs, d)
		if d.Taken {
			m.addPC(cond)
		} else {
			m.addPC(m.tc.Not(cond))
		}
		return d.Taken
	}
	b := m.tc.Eval(cond, m.model) != 0
	other := cond
	if b {
		other = m.tc.Not(cond)
	}
	r, nm := m.query(other)
	switch r {
	case Sat:
		pf := make([]Decision, len(m.decs)+1)
		copy(pf, m.decs)
		pf[len(m.decs)] = Decision{!b, val}
		m.newItems = append(m.newItems, WorkItem{pf, m.shipModel(nm)})
	case Unknown:
		m.unknowns++
		m.unkReasons["solver unknown at branch"+m.where()]++
	}
	m.decs = append(m.decs, Decision{b, val})
	if b {
		m.addPC(cond)
	} else {
		m.addPC(m.tc.Not(cond))
	}
	return b
}

func (m *Machine) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.IsConst() {
			return t.C
		}
		if t.W == 0 {
			return b2u(m.branch(t))
		}
		if n > 5000 {
			m.unsupported("concretization of a term with too many values: %s", t)
		}
		if m.replaying() {
			// every concretization step is a recorded decision
			d := m.prefix[m.dpos]
			m.dpos++
			m.decs = append(m.decs, d)
			c := m.tc.Eq(t, m.tc.Const(t.W, d.Val))
			if d.Taken {
				m.addPC(c)
				return d.Val
			}
			m.addPC(m.tc.Not(c))
			continue
		}
		v := m.tc.Eval(t, m.model)
		c := m.tc.Eq(t, m.tc.Const(t.W, v))
		if c.IsConst() || m.pcSet[c] {
			if c.IsConst() && c.C == 0 {
				m.unsupported("internal: concretize")
			}
			m.decs = append(m.decs, Decision{true, v})
			return v
		}
		if m.branchV(c, v) {
			return v
		}
	}
}

// concV concretizes a scalar value
func (m *Machine) concV(v V) uint64 {
	if v.o != nil {
		if v.t != nil {
			return m.addrOf(v.o) + m.concretize(v.t)
		}
		return m.addrOf(v.o) + v.u
	}
	if v.t != nil {
		return m.concretize(v.t)
	}
	return v.u
}

// concPtr concretizes symbolic offset of a pointer
func (m *Machine) concPtr(v V) V {
	if v.o != nil && v.t != nil {
		return V{o: v.o, u: m.concretize(v.t)}
	}
	return v
}

func (m *Machine) assume(cond *Term) {
	if cond.IsConst() {
		if cond.C == 0 {
			m.endPath(stInfeasible, "assume false")
		}
		return
	}
	if m.replaying() {
		m.addPC(cond)
		return
	}
	if m.tc.Eval(cond, m.model) == 0 {
		r, nm := m.query(cond)
		if r == Unsat {
			m.endPath(stInfeasible, "assume")
		}
		if r == Unknown {
			m.endPath(stUnknown, "solver unknown at assume")
		}
		m.model = nm
	}
	m.addPC(cond)
}

func (m *Machine) assert(cond *Term, msg string) {
	if m.replaying() {
		if !cond.IsConst() {
			m.addPC(cond)
		} else if cond.C == 0 {
			m.violation("assert", msg)
		}
		return
	}
	m.obligs++
	if cond.IsConst() {
		if cond.C == 0 {
			m.violation("assert", msg)
		}
		m.discharged++
		return
	}
	if m.pcSet[cond] {
		m.discharged++
		return
	}
	if len(m.lazy) == 0 && m.tc.Eval(cond, m.model) == 0 {
		m.violation("assert", msg)
	}
	if m.generalised(m.tc.Not(cond)) {
		m.discharged++
		m.addPC(cond)
		return
	}
	r, nm := m.query(m.tc.Not(cond))
	if r == Sat && len(m.lazy) > 0 {
		if r, nm = m.lazyQuery(m.tc.Not(cond)); r == Sat {
			m.lazy = nil
		}
	}
	switch r {
	case Sat:
		m.model = nm
		m.violation("assert", msg)
	case Unknown:
		m.unknowns++
		m.unkReasons["solver unknown at assertion "+msg]++
	case Unsat:
		m.discharged++
	}
	m.addPC(cond)
}

// generalised (flag fgen) reports whether q is unsatisfiable even when products of floating point numbers can be any number:
// then it is unsatisfiable. The question is smaller, and the same on many paths.
func (m *Machine) generalised(q *Term) bool {
	if m.flags["fgen"] == 0 {
		return false
	}
	memo := map[*Term]*Term{}
	if m.tc.noFMul(q, memo) == q {
		return false
	}
	conj := m.slice(q)
	for i, t := range conj {
		conj[i] = m.tc.noFMul(t, memo)
	}
	conj = related(conj)
	r, _ := m.sol.Check(conj)
	return r == Unsat
}

// related: the parts of the conjunction that share variables with its first part
func related(conj []*Term) []*Term {
	if conj[0].vars == nil {
		return conj[:1]
	}
	vs := map[int32]bool{}
	for _, v := range conj[0].vars.ids {
		vs[v] = true
	}
	out := conj[:1:1]
	used := make([]bool, len(conj))
	used[0] = true
	for ch := true; ch; {
		ch = false
		for i, t := range conj {
			if used[i] || t.vars == nil {
				continue
			}
			for _, v := range t.vars.ids {
				if vs[v] {
					used[i] = true
				}
			}
			if used[i] {
				ch = true
				out = append(out, t)
				for _, v := range t.vars.ids {
					vs[v] = true
				}
			}
		}
	}
	return out
}

// noFMul replaces products of floating point numbers by variables
func (c *TermCtx) noFMul(t *Term, memo map[*Term]*Term) *Term {
	if len(t.A) == 0 {
		return t
	}
	if r := memo[t]; r != nil {
		return r
	}
	r := t
	if t.Op == OFMul {
		r = c.Var(fmt.Sprintf("!product%d", t.id), t.W, 0, mask(t.W))
	} else {
		var a []*Term
		for i, x := range t.A {
			y := c.noFMul(x, memo)
			if y != x && a == nil {
				a = append([]*Term{}, t.A...)
			}
			if a != nil {
				a[i] = y
			}
		}
		if a != nil {
			r = c.mk(&Term{Op: t.Op, W: t.W, C: t.C, K: t.K, A: a, lo: 0, hi: mask(t.W), name: t.name})
		}
	}
	memo[t] = r
	return r
}

// lazyQuery: satisfiability of q with the definitions of the digits
func (m *Machine) lazyQuery(q *Term) (SatRes, Model) {
	for _, t := range m.lazy {
		q = m.tc.And(q, t)
	}
	if q.IsConst() {
		if q.C == 0 {
			return Unsat, nil
		}
		return Sat, m.model
	}
	return m.query(q)
}

// digits introduces (flag fdigits = k) decimal digits for an integer that comes from a floating point
// number, if it has at most k of them: t = sum of fresh digits. The definition always has exactly one
// solution, so it is left out of the decisions on branches and only used in those on assertions.
func (m *Machine) digits(t *Term) *Term {
	k := m.flags["fdigits"]
	if k == 0 || t.IsConst() || m.initPhase {
		return t
	}
	if l := m.digOf[t]; l != nil {
		return l
	}
	lim := uint64(1)
	for i := int64(0); i < k; i++ {
		lim *= 10
	}
	if r, _ := m.query(m.tc.Not(m.tc.Ult(t, m.tc.Const(t.W, lim)))); r != Unsat {
		return t
	}
	if m.defs == nil {
		m.defs, m.digOf = map[*Term]*Term{}, map[*Term]*Term{}
	}
	// the number of significant digits and, apart from that, of those in the last fsplit positions is a
	// decision of the path
	split := m.flags["fsplit"]
	low := int64(m.concretize(m.termW(m.newVar("!digit", 8, 0, uint64(split)), 8)))
	high := int64(0)
	if split < k {
		high = int64(m.concretize(m.termW(m.newVar("!digit", 8, 0, uint64(k-split)), 8)))
	}
	sum := m.tc.Const(t.W, 0)
	p := uint64(1)
	for i := int64(0); i < k; i++ {
		n, lo := i, uint64(0)
		if i >= split {
			n = i - split
			if n == high-1 {
				lo = 1
			}
			n -= high
		} else {
			if n == low-1 {
				lo = 1
			}
			n -= low
		}
		if n < 0 {
			sum = m.tc.Add(sum, m.tc.Mul(m.tc.Zext(m.newVar("!digit", 8, lo, 9).t, t.W), m.tc.Const(t.W, p)))
		}
		p *= 10
	}
	m.defs[sum], m.digOf[t] = t, sum
	m.lazy = append(m.lazy, m.tc.Eq(sum, t))
	return sum
}

// newVar creates the next symbolic input
func (m *Machine) newVar(tag string, w uint8, lo, hi uint64) V {
	name := fmt.Sprintf("%s#%d", tag, m.nvar)
	m.nvar++
	t := m.tc.Var(name, w, lo, hi)
	if v, ok := m.shipped[t.name]; ok && v >= lo && v <= hi {
		m.model[t.id] = v
	} else {
		m.model[t.id] = lo
	}
	m.inputs = append(m.inputs, inputRec{Name: tag, term: t})
	if lo == hi {
		return V{u: lo}
	}
	return V{t: t}
}

func (m *Machine) boolV(t *Term) V {
	if t.IsConst() {
		return V{u: t.C}
	}
	return V{t: t}
}

// boolT: term of a bool V
func (m *Machine) boolT(v V) *Term {
	if v.t == nil {
		return m.tc.Bool(v.u != 0)
	}
	if v.t.W != 0 {
		return m.tc.Not(m.tc.Eq(v.t, m.tc.Const(v.t.W, 0)))
	}
	return v.t
}

// termW: bit-vector term of width w of scalar V
func (m *Machine) termW(v V, w uint8) *Term {
	if v.o != nil {
		return m.tc.Const(w, m.concV(v))
	}
	if v.t == nil {
		return m.tc.Const(w, v.u)
	}
	if v.t.W == 0 {
		t := m.bvOf(v.t)
		if w != 8 {
			t = m.tc.Zext(t, w)
		}
		return t
	}
	if v.t.W != w {
		if v.t.W < w {
			return m.tc.Zext(v.t, w)
		}
		return m.tc.Extract(v.t, 0, w)
	}
	return v.t
}

func (m *Machine) truth(v V) bool {
	if v.t == nil {
		if v.o != nil {
			return true
		}
		return v.u != 0
	}
	return m.branch(m.boolT(v))
}

// ---- objects for globals, functions, strings

func (m *Machine) globalObj(g *ssa.Global) *Obj {
	if o, ok := m.globals[g]; ok {
		return o
	}
	t := m.ti(g.Type().Underlying().(*types.Pointer).Elem())
	o := m.permObj(t.size, "global "+g.String())
	m.globals[g] = o
	return o
}

func (m *Machine) funcObj(f *ssa.Function) *Obj {
	if o, ok := m.funcObjs[f]; ok {
		return o
	}
	o := m.permObj(8, "func "+f.String())
	o.meta = &FuncVal{sf: f, name: f.String()}
	o.ro = true
	m.funcObjs[f] = o
	return o
}

func (m *Machine) strObj(s string) *Obj {
	if o, ok := m.strs[s]; ok {
		return o
	}
	o := m.permObj(uint64(len(s)), "string const")
	copy(o.data, s)
	o.ro = true
	m.strs[s] = o
	return o
}

// newStr makes a string value from concrete bytes (path object)
func (m *Machine) newStr(s string) (V, V) {
	if len(s) == 0 {
		return V{}, V{}
	}
	o := m.newObj(uint64(len(s)), "string")
	copy(o.data, s)
	return V{o: o}, cv(uint64(len(s)))
}

// strBytes returns the byte values of a string/byte range
func (m *Machine) bytesAt(p V, n uint64) []V {
	if n == 0 {
		return nil
	}
	if p.o == nil {
		m.violation("memory", "read through nil data pointer")
	}
	p = m.concPtr(p)
	out := make([]V, n)
	for i := range out {
		out[i] = m.load(p.o, p.u+uint64(i), 1)
	}
	return out
}

// concStr returns the concrete content if fully concrete
func (m *Machine) concStr(p, n V) (string, bool) {
	if n.t != nil {
		return "", false
	}
	if n.u == 0 {
		return "", true
	}
	if p.o == nil || p.t != nil {
		return "", false
	}
	o := p.o
	o.force()
	if p.u > o.size || n.u > o.size-p.u {
		m.checkRange(o, p.u, n.u, "read")
	}
	if !o.concRange(p.u, n.u) {
		// sub cells may still be outside of range
		for i := uint64(0); i < n.u; i++ {
			if v := m.loadByte(o, p.u+i); v.t != nil {
				return "", false
			}
		}
		b := make([]byte, n.u)
		for i := range b {
			b[i] = byte(m.loadByte(o, p.u+uint64(i)).u)
		}
		return string(b), true
	}
	if m.raceOn {
		m.raceRange(o, p.u, n.u, false)
	}
	return string(o.data[p.u : p.u+n.u]), true
}

// mustStr: concretizes content
func (m *Machine) mustStr(p, n V) string {
	if s, ok := m.concStr(p, n); ok {
		return s
	}
	nn := m.concV(n)
	bs := m.bytesAt(p, nn)
	out := make([]byte, nn)
	for i, b := range bs {
		out[i] = byte(m.concV(b))
	}
	return string(out)
}

func (m *Machine) loadT(p V, x *TypeInfo) []V {
	out := make([]V, x.n)
	m.loadInto(out, p, x)
	return out
}

func (m *Machine) storeT(p V, x *TypeInfo, vs []V) {
	if p.o == nil {
		m.violation("memory", "store through nil")
	}
	p = m.concPtr(p)
	for i, l := range x.leaves {
		m.store(p.o, p.u+l.off, l.w, vs[i])
	}
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
