package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type InVal struct {
	Tag string `json:"tag"`
	Val uint64 `json:"val"`
}

type PathResult struct {
	st     pathStatus
	kind   string
	msg    string
	inputs []InVal
	obs    []string
	sched  int
	steps  int64
	nsched bool // scheduler decisions present
	noVal  bool // the model may not agree with what the inputs lead to
}

type Explorer struct {
	prog    *Program
	opt     *Options
	hpkg    string
	ms      []*Machine
	workers int
}

type RunStats struct {
	Paths      int64
	ByStatus   map[string]int64
	Steps      int64
	Queries    int64
	Sat        int64
	Unsat      int64
	UnknownQ   int64
	CacheHits  int64
	Fallbacks  int64
	SolverTime time.Duration
	MaxQuery   time.Duration
	Oblig      int64
	Discharged int64
	Merges     int64
	Unknowns   int64
	Exhausted  bool
	Funcs      map[string]bool
	Reached    map[string]int64
	Reasons    map[string]int64
	Samples    []*PathResult
	Viols      []*PathResult
	Wall       time.Duration
}

// newMachineInit builds a machine whose base state has every package initialiser executed: the standard
// library's always, the user packages' too unless they start goroutines or timers or do something
// nondeterministic (then they run again on every path, userInit=false).
func newMachineInit(p *Program, opt *Options, hpkg *ssa.Package) *Machine {
	m := newMachineStd(p, opt)
	if m.initUser(hpkg) {
		m.userInit = true
		return m
	}
	m.sol.close()
	return newMachineStd(p, opt)
}

func (m *Machine) initUser(hpkg *ssa.Package) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if pe, isEnd := r.(pathEnd); isEnd {
				if debug_ {
					fmt.Println("user init per path:", pe.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	m.initPhase = true
	m.stepLim = 50_000_000
	m.flags["fifo"] = 1
	g := m.newG(m.fnOf(hpkg.Func("init")), nil)
	m.run(g)
	m.initPhase = false
	delete(m.flags, "fifo")
	ok = len(m.timers) == 0 && len(m.inputs) == 0
	for _, x := range m.gs {
		if x != g && !x.done {
			ok = false
		}
	}
	if len(m.iters) > 0 {
		ok = false
	}
	m.gs, m.cur, m.nextG, m.steps, m.undo, m.undoFns, m.sched = nil, nil, 0, 0, nil, nil, nil
	m.now = startTime
	m.baseFuncs = m.funcsHit
	return ok
}

func newMachineStd(p *Program, opt *Options) *Machine {
	m := NewMachine(p, opt)
	m.iters = map[poolKey]*mapIter{}
	m.flags = map[string]int64{}
	m.pcSet = map[*Term]bool{}
	m.model = Model{}
	m.now = startTime
	m.initStd()
	return m
}

// initStd runs the package initialisers of the standard library once (base state)
func (m *Machine) initStd() {
	m.initPhase = true
	done := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Pkg.Imports() {
			if sp := m.prog.pkg(q.Path()); sp != nil {
				visit(sp)
			}
		}
		if !m.prog.stdPkg[p.Pkg.Path()] {
			return
		}
		if skipInit[p.Pkg.Path()] {
			if g := p.Var("init$guard"); g != nil {
				m.rawPut(m.globalObj(g), 0, 1, 1)
			}
			if fs := m.prog.pkg("io/fs"); fs != nil && p.Pkg.Path() == "os" {
				for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
					a, b := fs.Var(n), p.Var(n)
					for off := uint64(0); off < 16; off += 8 {
						m.poke(m.globalObj(b), off, 8, m.peek(m.globalObj(a), off, 8))
					}
				}
			}
			return
		}
		m.runInit(p)
	}
	for _, p := range m.prog.ssa.AllPackages() {
		visit(p)
	}
	m.initPhase = false
	m.gs = nil
	m.cur = nil
	m.steps = 0
	m.undo = nil
	m.undoFns = nil
	m.timers = nil
}

func (m *Machine) runInit(p *ssa.Package) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				if debug_ {
					fmt.Println("init", p.Pkg.Path(), "incomplete:", pe.msg)
				}
				m.noSwitch = 0
				return
			}
			panic(r)
		}
	}()
	f := p.Func("init")
	if f == nil {
		return
	}
	m.gs = nil
	g := m.newG(m.fnOf(f), nil)
	m.cur = g
	m.exec(g, nil)
}

func (m *Machine) resetPath(it WorkItem) {
	m.rollback()
	m.pc = m.pc[:0]
	m.pcSet = map[*Term]bool{}
	m.model = Model{}
	m.shipped = it.model
	m.prefix = it.prefix
	m.dpos = 0
	m.decs = nil
	m.newItems = nil
	m.inputs = nil
	m.nvar = 0
	m.obs = nil
	m.lazy, m.defs, m.digOf, m.ffmt = nil, nil, nil, nil
	m.steps = 0
	m.sched = nil
	m.gs = nil
	m.cur = nil
	m.nextG = 0
	m.preempts = 0
	m.earlies = 0
	m.noSwitch = 0
	m.raceOn = false
	m.now = startTime
	m.timers = nil
	m.pools = map[poolKey][]poolEnt{}
	m.syncVC = map[poolKey]vclock{}
	for _, o := range m.shadowed {
		o.sh = nil
	}
	m.shadowed = m.shadowed[:0]
	m.iters = map[poolKey]*mapIter{}
	m.flags = map[string]int64{}
	for k, v := range m.opt.flags {
		m.flags[k] = v
	}
	for k, v := range m.opt.params {
		if k[0] == '@' {
			m.flags[k[1:]] = v
		}
	}
	m.raceOn = m.flags["race"] != 0
	m.pathBytes = 0
	m.pathAddr = 0xc800000000
	m.stepLim = m.opt.stepLim
	if m.stepLim == 0 {
		m.stepLim = 20_000_000
	}
}

func (m *Machine) runPath(it WorkItem, initFn, fn *Fn) (res *PathResult) {
	m.resetPath(it)
	res = &PathResult{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					res.st, res.kind, res.msg = pe.st, pe.kind, pe.msg
					return
				}
				panic(fmt.Sprintf("%v%s", r, m.where()))
			}
		}()
		// package initialisers of user code, then the harness
		m.raceOn = false
		if !m.userInit {
			g0 := m.newG(initFn, nil)
			m.run(g0)
		}
		m.raceOn = m.flags["race"] != 0
		g := m.newG(fn, nil)
		m.run(g)
	}()
	for _, in := range m.inputs {
		v, ok := m.model[in.term.id]
		if !ok {
			v = in.term.lo
		}
		res.inputs = append(res.inputs, InVal{in.Name, v})
		if in.Name == "!digit" || in.Name == "!float" {
			for _, t := range m.lazy {
				if m.tc.Eval(t, m.model) == 0 {
					res.noVal = true
				}
			}
			res.noVal = res.noVal || in.Name == "!float" || in.Name == "!rand"
		} else if in.Name[0] == '!' && in.Name != "!maporder" {
			res.nsched = true
		}
	}
	if res.st == stOK {
		for _, o := range m.obs {
			if o.tag[0] == '#' {
				res.obs = append(res.obs, fmt.Sprintf("%s %x", o.tag, m.evalV(o.vs[0], 64)))
				continue
			}
			b := make([]byte, len(o.vs))
			for i, v := range o.vs {
				b[i] = byte(m.evalV(v, 8))
			}
			res.obs = append(res.obs, fmt.Sprintf("%s %x", o.tag, b))
		}
	}
	res.steps = m.steps
	m.totSteps += m.steps
	return res
}

func (m *Machine) evalV(v V, w uint8) uint64 {
	if v.o != nil {
		return m.addrOf(v.o) + v.u
	}
	if v.t != nil {
		return m.tc.Eval(v.t, m.model) & mask(w)
	}
	return v.u & mask(w)
}

func NewExplorer(p *Program, opt *Options, hpkg string, workers int) *Explorer {
	e := &Explorer{prog: p, opt: opt, hpkg: hpkg, workers: workers}
	e.ms = make([]*Machine, workers)
	return e
}

// confirm is called (serialised) for each violating path; it returns true if exploration must stop
func (e *Explorer) Run(fnName string, opt *Options, deadline time.Time, maxPaths int64, seed int64, nsamples int, confirm func(*PathResult) bool) (*RunStats, error) {
	t0 := time.Now()
	pkg := e.prog.pkg(hPrefix + e.hpkg)
	sf := pkg.Func(fnName)
	if sf == nil {
		return nil, fmt.Errorf("no harness function %s in %s", fnName, e.hpkg)
	}
	st := &RunStats{ByStatus: map[string]int64{}, Funcs: map[string]bool{}, Reached: map[string]int64{}, Reasons: map[string]int64{}, Exhausted: true}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []WorkItem{{}}
	active := 0
	stop := false
	rng := rand.New(rand.NewSource(seed))
	nok := int64(0)
	go func() {
		time.Sleep(time.Until(deadline))
		mu.Lock()
		cond.Broadcast()
		mu.Unlock()
	}()
	var wg sync.WaitGroup
	for w := 0; w < e.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var m *Machine
			var initFn, fn *Fn
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 {
					mu.Unlock()
					break
				}
				if time.Now().After(deadline) || st.Paths >= maxPaths {
					st.Exhausted = false
					stop = true
					cond.Broadcast()
					mu.Unlock()
					break
				}
				it := queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				st.Paths++
				mu.Unlock()
				if m == nil {
					if e.ms[w] == nil {
						e.ms[w] = newMachineInit(e.prog, opt, pkg)
					}
					m = e.ms[w]
					m.opt = opt
					m.sol.st = SolverStats{}
					m.funcsHit = map[string]bool{}
					for k := range m.baseFuncs {
						m.funcsHit[k] = true
					}
					m.reached = map[string]int{}
					m.unkReasons = map[string]int{}
					m.totSteps, m.obligs, m.discharged, m.mergeCnt, m.unknowns = 0, 0, 0, 0, 0
					initFn = m.fnOf(pkg.Func("init"))
					fn = m.fnOf(sf)
				}
				res := m.runPath(it, initFn, fn)
				items := m.newItems
				mu.Lock()
				active--
				st.ByStatus[stNames[res.st]]++
				switch res.st {
				case stUnsupported, stUnknown, stMem:
					st.Reasons[stNames[res.st]+": "+res.msg]++
				case stOK, stExit:
					nok++
					if len(st.Samples) < nsamples {
						st.Samples = append(st.Samples, res)
					} else if nsamples > 0 {
						if k := rng.Int63n(nok); k < int64(nsamples) {
							st.Samples[k] = res
						}
					}
				case stViolation, stSteps:
					if !stop {
						if confirm(res) {
							stop = true
						}
						st.Viols = append(st.Viols, res)
					}
				}
				queue = append(queue, items...)
				cond.Broadcast()
				mu.Unlock()
				if debug_ && res.st != stOK && res.st != stInfeasible {
					fmt.Println("PATH", stNames[res.st], res.kind, res.msg, res.inputs)
				}
			}
			mu.Lock()
			cond.Broadcast()
			if m != nil {
				s := m.sol.st
				st.Queries += s.Queries
				st.Sat += s.Sat
				st.Unsat += s.Unsat
				st.UnknownQ += s.Unknown
				st.CacheHits += s.CacheHits
				st.Fallbacks += s.Fallbacks
				st.SolverTime += s.Time
				if s.MaxTime > st.MaxQuery {
					st.MaxQuery = s.MaxTime
				}
				st.Steps += m.totSteps
				st.Oblig += m.obligs
				st.Discharged += m.discharged
				st.Merges += m.mergeCnt
				st.Unknowns += int64(m.unknowns)
				for k := range m.funcsHit {
					st.Funcs[k] = true
				}
				for k, v := range m.reached {
					st.Reached[k] += int64(v)
				}
				for k, v := range m.unkReasons {
					st.Reasons[k] += int64(v)
				}
				m.rollback()
			}
			mu.Unlock()
		}(w)
	}
	wg.Wait()
	if len(queue) > 0 && !stop {
		st.Exhausted = false
	}
	st.Wall = time.Since(t0)
	return st, nil
}

func (e *Explorer) Close() {
	for _, m := range e.ms {
		if m != nil {
			m.sol.close()
		}
	}
}

var debug_ bool

func setDebug(b bool) { debug_ = b }
func debugOn() bool    { return debug_ }
