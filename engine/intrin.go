package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// modelTable: std function -> Go model function in zzverif/models
var modelTable = map[string]string{
	"internal/bytealg.IndexByte":       "IndexByte",
	"internal/bytealg.IndexByteString": "IndexByteString",
	"internal/bytealg.Count":           "Count",
	"internal/bytealg.CountString":     "CountString",
	"internal/bytealg.Compare":         "Compare",
	"internal/bytealg.CompareString":   "CompareString",
	"internal/bytealg.abigen_runtime_cmpstring": "CompareString",
	"internal/bytealg.Index":           "Index",
	"internal/bytealg.IndexString":     "IndexString",
	// the file system (models/fs.go)
	"os.OpenFile": "FsOpenFile",
	"(*os.File).Write": "FsWrite",
	"(*os.File).WriteString": "FsWriteString",
	"(*os.File).Read": "FsRead",
	"(*os.File).WriteTo": "FsWriteTo",
	"(*os.File).ReadFrom": "FsReadFrom",
	"(*os.File).Close": "FsClose",
	"(*os.File).Sync": "FsSync",
	"(*os.File).Name": "FsName",
	"(*os.File).Seek": "FsSeek",
	"os.Truncate": "FsTruncate",
	"(*os.File).Truncate": "FsFileTruncate",
	"os.Stat": "FsStat",
	"os.Lstat": "FsStat",
	"(*os.File).Stat": "FsFileStat",
	"os.Rename": "FsRename",
	"os.Remove": "FsRemove",
	"os.RemoveAll": "FsRemoveAll",
	"os.Mkdir": "FsMkdir",
	"os.MkdirAll": "FsMkdirAll",
	"os.Chown": "FsChown",
	"os.Chmod": "FsChmod",
	"os.Chtimes": "FsChtimes",
	"os.ReadDir": "FsReadDir",
	"(*os.File).Readdirnames": "FsReaddirnames",
	"(*os.File).Readdir": "FsReaddir",
	"(*os.File).ReadDir": "FsFileReadDir",
	"os.ReadFile": "FsReadFile",
	"os.TempDir": "FsTempDir",
	hPrefix + "sym.FileLimit": "FsLimit",
}

func (m *Machine) peek(o *Obj, off uint64, w uint8) V {
	r := m.raceOn
	m.raceOn = false
	v := m.load(o, off, w)
	m.raceOn = r
	return v
}
func (m *Machine) poke(o *Obj, off uint64, w uint8, v V) {
	r := m.raceOn
	m.raceOn = false
	m.store(o, off, w, v)
	m.raceOn = r
}

// ptr checks that argument i is a usable pointer; raises nil deref otherwise
func (c *Call) ptr(i int) (V, bool) {
	p := c.args[i]
	if p.o == nil {
		if p.t != nil || p.u >= 4096 {
			c.m.violation("memory", "invalid pointer passed to "+c.fn.name)
		}
		c.panic("invalid memory address or nil pointer dereference")
		return p, false
	}
	return c.m.concPtr(p), true
}

func (c *Call) visible() bool {
	if c.m.visible(c.g) {
		c.retry = true
		return true
	}
	return false
}

func (c *Call) block(why string, wake func() bool) {
	if c.m.noSwitch > 0 || c.m.initPhase {
		c.m.unsupported("blocking (%s) inside engine callback", why)
	}
	c.m.block(c.g, why, wake)
	c.retry = true
}

func (c *Call) str(i int) string { return c.m.mustStr(c.args[i], c.args[i+1]) }

func (c *Call) retStr(s string) {
	p, n := c.m.newStr(s)
	c.ret(p, n)
}

// tailCall: replaces the intrinsic by a call to a function value
func (c *Call) tailCall(fv V, args []V) {
	m := c.m
	if fv.o == nil {
		c.panic("invalid memory address or nil pointer dereference")
		return
	}
	x := fv.o.meta.(*FuncVal)
	if x.native != nil {
		m.unsupported("tail call of native")
	}
	if x.fn == nil {
		x.fn = m.fnOf(x.sf)
	}
	c.tailFn(x.fn, append(append([]V{}, args...), x.bind...))
}
func (c *Call) tailFn(fn *Fn, args []V) {
	m := c.m
	if fn.intr != nil {
		m.unsupported("tail call of intrinsic %s", fn.name)
	}
	dst := int32(-1)
	if c.in != nil {
		dst = c.in.dst
	}
	if c.in == nil && !c.noRet {
		m.unsupported("tail call in engine callback")
	}
	m.pushFrame(c.g, fn, args, dst)
	c.tail = true
}

func nop(n int) intrinsic {
	return func(c *Call) { c.ret(make([]V, n)...) }
}

func retConst(vs ...uint64) intrinsic {
	return func(c *Call) {
		out := make([]V, len(vs))
		for i, v := range vs {
			out[i] = cv(v)
		}
		c.ret(out...)
	}
}

func (m *Machine) typeFromWord(v V) *TypeInfo {
	if v.o == nil {
		return nil
	}
	r, ok := v.o.meta.(*rtMeta)
	if !ok {
		m.violation("memory", "type descriptor expected, got "+v.o.label)
	}
	return r.ti
}

func init() {
	I := intrinsics
	sp := hPrefix + "sym."
	// ---- nondeterministic inputs
	I[sp+"byteIn"] = func(c *Call) {
		c.ret(c.m.newVar(c.str(0), 8, c.args[2].u, c.args[3].u))
	}
	I[sp+"uintIn"] = func(c *Call) { // tag, width, lo, hi -> uint64 (zero extended)
		m := c.m
		w := uint8(c.args[2].u)
		v := m.newVar(c.str(0), w, c.args[3].u, c.args[4].u)
		if v.t != nil && w < 64 {
			v = m.tv(m.tc.Zext(v.t, 64))
		}
		c.ret(v)
	}
	I[sp+"boolIn"] = func(c *Call) {
		m := c.m
		v := m.newVar(c.str(0), 8, 0, 1)
		c.ret(m.boolV(m.boolT(v)))
	}
	I[sp+"Concrete"] = func(c *Call) { c.ret(cv(c.m.concV(c.args[0]))) }
	I[sp+"ConcreteBytes"] = func(c *Call) {
		m := c.m
		n := m.concV(c.args[1])
		if n > 0 {
			p := m.concPtr(c.args[0])
			for i := uint64(0); i < n; i++ {
				v := m.peek(p.o, p.u+i, 1)
				if v.t != nil {
					m.poke(p.o, p.u+i, 1, cv(m.concV(v)))
				}
			}
		}
		c.ret()
	}
	I[sp+"Assume"] = func(c *Call) { c.m.assume(c.m.boolT(c.args[0])); c.ret() }
	I[sp+"Assert"] = func(c *Call) {
		msg, ok := c.m.concStr(c.args[1], c.args[2])
		if !ok {
			msg = "assertion"
		}
		c.m.assert(c.m.boolT(c.args[0]), msg)
		c.ret()
	}
	I[sp+"Reach"] = func(c *Call) { c.m.reached[c.str(0)]++; c.ret() }
	I[sp+"Param"] = func(c *Call) {
		n := c.str(0)
		v, ok := c.m.opt.params[n]
		if !ok {
			v = int64(c.args[2].u)
		}
		c.ret(cv(uint64(v)))
	}
	I[sp+"Flag"] = func(c *Call) {
		c.m.flags[c.str(0)] = int64(c.m.concV(c.args[2]))
		c.m.raceOn = c.m.flags["race"] != 0
		c.ret()
	}
	// the source of random numbers: low or high
	for _, p := range []string{"math/rand", "math/rand/v2"} {
		I[p+".runtime_rand"] = func(c *Call) {
			c.ret(cv([]uint64{0, 1<<62 + 12345}[c.m.concV(c.m.newVar("!rand", 64, 0, 1))]))
		}
	}
	I[sp+"observe"] = func(c *Call) { // tag, ptr,len,cap
		m := c.m
		n := m.concV(c.args[3])
		race := m.raceOn
		m.raceOn = false
		m.obs = append(m.obs, obsRec{c.str(0), m.bytesAt(c.args[2], n)})
		m.raceOn = race
		c.ret()
	}
	I[sp+"observeInt"] = func(c *Call) {
		m := c.m
		m.obs = append(m.obs, obsRec{"#" + c.str(0), []V{c.args[2]}})
		c.ret()
	}
	I[sp+"Symbolic"] = retConst(1)
	I[sp+"TempDir"] = func(c *Call) { c.retStr("/vroot") }
	I[sp+"Cleanup"] = nop(0)
	mp := hPrefix + "models."
	I[mp+"point"] = func(c *Call) {
		// library functions are atomic otherwise, but not over several operations on files
		ex := c.g.excur
		c.g.excur = nil
		v := c.visible()
		c.g.excur = ex
		if !v {
			c.ret()
		}
	}
	I[mp+"quiet"] = func(c *Call) {
		m := c.m
		if c.args[0].u == 1 {
			m.raceWas, m.raceOn = m.raceOn, false
		} else {
			m.raceOn = m.raceWas
		}
		c.ret()
	}
	I[sp+"Fail"] = func(c *Call) { c.m.violation("assert", c.str(0)) }
	I[sp+"Quiesce"] = func(c *Call) { // wait until no other goroutine is runnable
		m := c.m
		g := c.g
		if g.resumed {
			g.resumed = false
		}
		idle := func() bool {
			for _, o := range m.gs {
				if o != g && !o.done && o.blocked != "quiesce" && m.runnable(o) {
					return false
				}
			}
			return true
		}
		if idle() {
			c.ret()
			return
		}
		c.block("quiesce", idle)
	}

	// ---- math/bits helpers that are intrinsics in gc as well
	I["math/bits.Mul64"] = func(c *Call) {
		m := c.m
		if c.args[0].conc() && c.args[1].conc() {
			h, l := bits.Mul64(c.args[0].u, c.args[1].u)
			c.ret(cv(h), cv(l))
			return
		}
		a, b := m.termW(c.args[0], 64), m.termW(c.args[1], 64)
		c.ret(m.tv(m.tc.MulHi(a, b)), m.tv(m.tc.Mul(a, b)))
	}

	// ---- sync
	I["(*sync.Mutex).Lock"] = func(c *Call) { mutexLock(c, 0) }
	I["(*sync.Mutex).TryLock"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		if c.m.concV(c.m.peek(p.o, p.u, 4)) != 0 {
			c.ret(bv(false))
			return
		}
		c.m.poke(p.o, p.u, 4, cv(1))
		c.m.syncAcq(c.g, p.o, p.u)
		c.ret(bv(true))
	}
	I["(*sync.Mutex).Unlock"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		if c.m.concV(c.m.peek(p.o, p.u, 4)) == 0 {
			c.m.violation("panic", "fatal error: sync: unlock of unlocked mutex")
		}
		c.m.poke(p.o, p.u, 4, cv(0))
		c.m.syncRel(c.g, p.o, p.u)
		c.ret()
	}
	I["(*sync.RWMutex).Lock"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		m := c.m
		free := func() bool { return m.peek(p.o, p.u, 4).u == 0 && m.peek(p.o, p.u+16, 4).u == 0 }
		if !free() {
			c.block("rwmutex", free)
			return
		}
		m.poke(p.o, p.u, 4, cv(1))
		m.syncAcq(c.g, p.o, p.u)
		m.syncAcq(c.g, p.o, p.u+16)
		c.ret()
	}
	I["(*sync.RWMutex).Unlock"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		if c.m.peek(p.o, p.u, 4).u == 0 {
			c.m.violation("panic", "fatal error: sync: Unlock of unlocked RWMutex")
		}
		c.m.poke(p.o, p.u, 4, cv(0))
		c.m.syncRel(c.g, p.o, p.u)
		c.ret()
	}
	I["(*sync.RWMutex).RLock"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		m := c.m
		free := func() bool { return m.peek(p.o, p.u, 4).u == 0 }
		if !free() {
			c.block("rwmutex", free)
			return
		}
		m.poke(p.o, p.u+16, 4, cv(m.peek(p.o, p.u+16, 4).u+1))
		m.syncAcq(c.g, p.o, p.u)
		c.ret()
	}
	I["(*sync.RWMutex).RUnlock"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		n := c.m.peek(p.o, p.u+16, 4).u
		if n == 0 {
			c.m.violation("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		c.m.poke(p.o, p.u+16, 4, cv(n-1))
		c.m.syncRel(c.g, p.o, p.u+16)
		c.ret()
	}
	I["(*sync.WaitGroup).Add"] = func(c *Call) { wgAdd(c, int64(c.m.concV(c.args[1]))) }
	I["(*sync.WaitGroup).Done"] = func(c *Call) { wgAdd(c, -1) }
	I["(*sync.WaitGroup).Wait"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		m := c.m
		z := func() bool { return m.peek(p.o, p.u, 8).u == 0 }
		if !z() {
			c.block("waitgroup", z)
			return
		}
		m.syncAcq(c.g, p.o, p.u)
		c.ret()
	}
	I["(*sync.Pool).Get"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		m := c.m
		k := poolKey{p.o, p.u}
		l := m.pools[k]
		if len(l) > 0 {
			e := l[len(l)-1]
			m.pools[k] = l[:len(l)-1]
			m.syncAcq(c.g, p.o, p.u)
			c.ret(e[0], e[1])
			return
		}
		nf := m.peek(p.o, p.u+32, 8)
		if nf.o == nil {
			c.ret(V{}, V{})
			return
		}
		c.tailCall(nf, nil)
	}
	I["(*sync.Pool).Put"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok || c.visible() {
			return
		}
		m := c.m
		if c.args[1].o != nil {
			k := poolKey{p.o, p.u}
			m.pools[k] = append(append([]poolEnt(nil), m.pools[k]...), poolEnt{c.args[1], c.args[2]})
			m.syncRel(c.g, p.o, p.u)
		}
		c.ret()
	}
	I["sync.runtime_procPin"] = retConst(0)
	I["sync.runtime_procUnpin"] = nop(0)
	I["sync/atomic.runtime_procPin"] = retConst(0)
	I["sync/atomic.runtime_procUnpin"] = nop(0)
	I["sync.runtime_registerPoolCleanup"] = nop(0)
	I["sync.runtime_notifyListCheck"] = nop(0)
	I["sync.fatal"] = func(c *Call) { c.m.violation("panic", "fatal error: "+c.str(0)) }
	I["sync.throw"] = I["sync.fatal"]
	I["runtime.throw"] = I["sync.fatal"]
	I["runtime.fatal"] = I["sync.fatal"]

	// ---- atomics
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 4}, {"Uint32", 4}, {"Int64", 8}, {"Uint64", 8}, {"Uintptr", 8}, {"Pointer", 8}} {
		w := ty.w
		atomic := func(name string, f func(c *Call, m *Machine, p V, old V)) {
			h := func(c *Call) {
				p, ok := c.ptr(0)
				if !ok || c.visible() {
					return
				}
				m := c.m
				if m.raceOn {
					m.atomicOp = true
					m.raceAccess(p.o, p.u, w, name != "Load")
					m.atomicOp = false
				}
				old := m.peek(p.o, p.u, w)
				if old.t != nil {
					old = m.fixSort(old, leaf{w: w})
				}
				// a load synchronises with the stores it observes, a store with the loads that observe it
				if name != "Store" {
					m.syncAcq(c.g, p.o, p.u)
				} else if m.raceEnabled() {
					delete(m.syncVC, poolKey{p.o, p.u})
				}
				if name != "Load" {
					m.syncRel(c.g, p.o, p.u)
				}
				f(c, m, p, old)
			}
			I["sync/atomic."+name+ty.n] = h
		}
		atomic("Load", func(c *Call, m *Machine, p V, old V) { c.ret(old) })
		atomic("Store", func(c *Call, m *Machine, p V, old V) { m.poke(p.o, p.u, w, c.args[1]); c.ret() })
		atomic("Swap", func(c *Call, m *Machine, p V, old V) { m.poke(p.o, p.u, w, c.args[1]); c.ret(old) })
		atomic("CompareAndSwap", func(c *Call, m *Machine, p V, old V) {
			if m.branch(m.wordEq(old, c.args[1], w*8)) {
				m.poke(p.o, p.u, w, c.args[2])
				c.ret(bv(true))
			} else {
				c.ret(bv(false))
			}
		})
		atomic("Add", func(c *Call, m *Machine, p V, old V) {
			var nv V
			if old.conc() && c.args[1].conc() {
				nv = cv((old.u + c.args[1].u) & mask(w*8))
			} else {
				nv = m.tv(m.tc.Add(m.termW(old, w*8), m.termW(c.args[1], w*8)))
			}
			m.poke(p.o, p.u, w, nv)
			c.ret(nv)
		})
		atomic("And", func(c *Call, m *Machine, p V, old V) {
			m.poke(p.o, p.u, w, m.tv(m.tc.And_(m.termW(old, w*8), m.termW(c.args[1], w*8))))
			c.ret(old)
		})
		atomic("Or", func(c *Call, m *Machine, p V, old V) {
			m.poke(p.o, p.u, w, m.tv(m.tc.Or_(m.termW(old, w*8), m.termW(c.args[1], w*8))))
			c.ret(old)
		})
	}
	// ---- time
	I["time.now"] = func(c *Call) {
		c.ret(cv(uint64(c.m.now/1e9)), cv(uint64(c.m.now%1e9)), cv(uint64(c.m.now-startTime+1)))
	}
	I["time.runtimeNano"] = func(c *Call) { c.ret(cv(uint64(c.m.now - startTime + 1))) }
	I["time.runtimeNow"] = I["time.now"]
	I["time.syncTimer"] = func(c *Call) { c.ret(V{}) }
	I["time.newTimer"] = func(c *Call) { // when, period int64, f, arg(2), cp
		m := c.m
		tt := m.ti(m.prog.pkg("time").Type("Timer").Type())
		o := m.newObj(tt.size, "timer")
		m.poke(o, 8, 1, cv(1))
		t := &Timer{when: int64(m.concV(c.args[0])) + startTime - 1, period: int64(m.concV(c.args[1])), f: c.args[2], arg: [2]V{c.args[3], c.args[4]}, active: true, o: o, vc: m.relVC(c.g)}
		o.meta = t
		m.timers = append(m.timers, t)
		c.ret(V{o: o})
	}
	I["time.stopTimer"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok {
			return
		}
		t := p.o.meta.(*Timer)
		was := t.active
		t.active = false
		c.ret(bv(was))
	}
	I["time.resetTimer"] = func(c *Call) {
		p, ok := c.ptr(0)
		if !ok {
			return
		}
		m := c.m
		t := p.o.meta.(*Timer)
		was := t.active
		t.when = int64(m.concV(c.args[1])) + startTime - 1
		t.period = int64(m.concV(c.args[2]))
		t.active = true
		t.vc = m.relVC(c.g)
		found := false
		for _, x := range m.timers {
			if x == t {
				found = true
			}
		}
		if !found {
			m.timers = append(m.timers, t)
		}
		c.ret(bv(was))
	}
	I["time.Sleep"] = func(c *Call) {
		m, g := c.m, c.g
		if g.sleepAt != 0 {
			if m.now >= g.sleepAt {
				g.sleepAt = 0
				g.resumed = false
				c.ret()
				return
			}
		} else {
			d := int64(m.concV(c.args[0]))
			if d <= 0 {
				c.ret()
				return
			}
			g.sleepAt = m.now + d
		}
		c.block("sleep", func() bool { return m.now >= g.sleepAt })
	}

	// ---- runtime
	I["runtime.Gosched"] = func(c *Call) {
		m, g := c.m, c.g
		if g.resumed {
			g.resumed = false
			c.ret()
			return
		}
		others := false
		for _, o := range m.gs {
			if o != g && m.runnable(o) {
				others = true
			}
		}
		if !others {
			c.ret()
			return
		}
		c.block("gosched", func() bool { return true })
	}
	I["runtime.GC"] = nop(0)
	I["runtime.KeepAlive"] = nop(0)
	I["runtime.SetFinalizer"] = nop(0)
	I["runtime/debug.PrintStack"] = nop(0)
	I["runtime.NumGoroutine"] = func(c *Call) { c.ret(cv(uint64(c.m.liveGs()))) }
	I["runtime.GOMAXPROCS"] = retConst(8)
	I["runtime.NumCPU"] = retConst(8)
	I["runtime.Goexit"] = func(c *Call) {
		c.threw = true
		c.m.unwind(c.g, &Panic{goexit: true})
	}
	I["runtime.Caller"] = func(c *Call) {
		m := c.m
		skip := int(m.concV(c.args[0]))
		f := c.fr
		for i := 0; i < skip && f != nil; i++ {
			f = callerFrame(f)
		}
		if f == nil {
			c.ret(V{}, V{}, V{}, V{}, bv(false))
			return
		}
		p := m.prog.ssa.Fset.Position(f.fn.code[f.pc].in.Pos())
		a, b := m.newStr(p.Filename)
		c.ret(cv(m.funcPC(f.fn)+uint64(p.Line)), a, b, cv(uint64(p.Line)), bv(true))
	}
	I["runtime.Callers"] = func(c *Call) {
		m := c.m
		skip := int(m.concV(c.args[0]))
		f := c.fr
		for i := 1; i < skip && f != nil; i++ {
			f = callerFrame(f)
		}
		n := uint64(0)
		cap := m.concV(c.args[2])
		d := c.args[1]
		for ; f != nil && n < cap; f = callerFrame(f) {
			p := m.prog.ssa.Fset.Position(f.fn.code[f.pc].in.Pos())
			m.poke(d.o, d.u+8*n, 8, cv(m.funcPC(f.fn)+uint64(p.Line)))
			n++
		}
		c.ret(cv(n))
	}
	I["runtime.FuncForPC"] = func(c *Call) {
		m := c.m
		pc := m.concV(c.args[0])
		i := int(pc>>20) - 1
		if i < 0 || i >= len(m.pcFns) {
			c.ret(V{})
			return
		}
		o := m.newObj(8, "runtime.Func")
		o.meta = m.pcFns[i]
		c.ret(V{o: o})
	}
	I["(*runtime.Func).Name"] = func(c *Call) {
		if c.args[0].o == nil {
			c.ret(V{}, V{})
			return
		}
		c.retStr(rtFuncName(c.args[0].o.meta.(*Fn)))
	}
	I["(*runtime.Func).FileLine"] = func(c *Call) {
		fn := c.args[0].o.meta.(*Fn)
		p := c.m.prog.ssa.Fset.Position(fn.f.Pos())
		a, b := c.m.newStr(p.Filename)
		c.ret(a, b, cv(c.m.concV(c.args[1])&0xfffff))
	}
	I["runtime.Stack"] = func(c *Call) { c.ret(cv(0)) }
	I["(runtime.rtype).string"] = func(c *Call) { c.retStr(rtString(c.m.typeFromWord(c.args[0]).T)) }
	I["(runtime.rtype).pkgpath"] = func(c *Call) { c.retStr(pkgPathOf(c.m.typeFromWord(c.args[0]).T)) }
	I["runtime.printpanicval"] = nop(0)
	I["internal/godebug.setUpdate"] = nop(0)
	I["internal/godebug.registerMetric"] = nop(0)
	I["internal/godebug.setNewIncNonDefault"] = nop(0)
	I["(*internal/godebug.Setting).Value"] = func(c *Call) { c.ret(V{}, V{}) }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop(0)
	I["internal/godebug.New"] = func(c *Call) { c.ret(V{o: c.m.newObj(64, "godebug.Setting")}) }
	I["os.runtime_args"] = func(c *Call) { c.ret(V{}, V{}, V{}) }
	I["syscall.runtime_envs"] = func(c *Call) { c.ret(V{}, V{}, V{}) }
	I["os.runtime_beforeExit"] = nop(0)
	I["os.Exit"] = func(c *Call) { c.m.exitCode = int(c.m.concV(c.args[0])); c.m.endPath(stExit, "os.Exit") }
	I["os.Getpid"] = retConst(4242)
	I["os.Getenv"] = func(c *Call) {
		if c.str(0) == "TZ" {
			c.retStr("UTC")
			return
		}
		c.ret(V{}, V{})
	}
	I["syscall.Getenv"] = func(c *Call) {
		if c.str(0) == "TZ" {
			a, b := c.m.newStr("UTC")
			c.ret(a, b, bv(true))
			return
		}
		c.ret(V{}, V{}, V{})
	}
	I["os.LookupEnv"] = I["syscall.Getenv"]
	I["internal/bytealg.MakeNoZero"] = func(c *Call) {
		n := c.m.concV(c.args[0])
		r := roundupsize(n)
		c.ret(V{o: c.m.newObj(r, "bytes")}, cv(n), cv(r))
	}
	I["internal/abi.NoEscape"] = func(c *Call) { c.ret(c.args[0]) }
	I["reflect.noescape"] = I["internal/abi.NoEscape"]
	I["strings.noescape"] = I["internal/abi.NoEscape"]
	I["internal/abi.Escape"] = func(c *Call) { c.ret(c.args...) }
	I["internal/race.Acquire"] = nop(0)

	for _, p := range []string{"runtime", "internal/cpu", "internal/godebug", "syscall", "os", "internal/poll", "internal/syscall/unix", "os/signal", "runtime/debug", "internal/testlog", "net", "os/exec", "testing", "internal/syscall/execenv", "internal/bytealg", "internal/runtime/sys", "internal/runtime/atomic", "crypto/rand", "math/rand", "runtime/pprof", "runtime/trace", "flag", "os/user", "internal/oserror0", "net/http", "crypto/tls", "crypto/x509", "vendor/golang.org/x/sys/cpu", "golang.org/x/sys/cpu", "internal/sysinfo"} {
		skipInit[p] = true
	}
	initReflect()
}

var skipInit = map[string]bool{}

func callerFrame(f *Frame) *Frame {
	f = f.caller
	return f
}

func (m *Machine) funcPC(fn *Fn) uint64 {
	if i, ok := m.pcIdx[fn]; ok {
		return uint64(i) << 20
	}
	m.pcFns = append(m.pcFns, fn)
	m.pcIdx[fn] = len(m.pcFns)
	return uint64(len(m.pcFns)) << 20
}

func rtFuncName(fn *Fn) string {
	if fn.f == nil {
		return fn.name
	}
	s := fn.f.RelString(nil)
	// ssa: (*pkg.T).M ; runtime: pkg.(*T).M
	if strings.HasPrefix(s, "(") {
		i := strings.LastIndex(s, ")")
		recv := s[1:i]
		star := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		j := strings.LastIndex(recv, ".")
		if star {
			return recv[:j] + ".(*" + recv[j+1:] + ")" + s[i+1:]
		}
		return recv + s[i+1:]
	}
	return strings.ReplaceAll(s, "$", ".func")
}

func mutexLock(c *Call, off uint64) {
	p, ok := c.ptr(0)
	if !ok || c.visible() {
		return
	}
	m := c.m
	free := func() bool { return m.peek(p.o, p.u+off, 4).u == 0 }
	if !free() {
		c.block("mutex", free)
		return
	}
	m.poke(p.o, p.u+off, 4, cv(1))
	m.syncAcq(c.g, p.o, p.u+off)
	c.ret()
}

func wgAdd(c *Call, d int64) {
	p, ok := c.ptr(0)
	if !ok || c.visible() {
		return
	}
	m := c.m
	n := int64(m.peek(p.o, p.u, 8).u) + d
	if n < 0 {
		pp, nn := m.newStr("sync: negative WaitGroup counter")
		w0, w1 := m.makeIface(m.ti(types.Typ[types.String]), m.ti(types.NewInterfaceType(nil, nil)), []V{pp, nn})
		c.throw(w0, w1)
		return
	}
	m.poke(p.o, p.u, 8, cv(uint64(n)))
	if d < 0 {
		m.syncRel(c.g, p.o, p.u)
	}
	c.ret()
}

func pkgPathOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

var _ ssa.Value
var _ = fmt.Sprint
