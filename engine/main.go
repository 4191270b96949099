package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type RunCfg struct {
	Pkg      string           `json:"pkg"`
	Fn       string           `json:"fn"`
	Quick    map[string]int64 `json:"quick"`
	Thorough map[string]int64 `json:"thorough"`
	Flags    map[string]int64 `json:"flags"`
	MaxPaths int64            `json:"maxpaths"`
	Steps    int64            `json:"steps"`
	Secs     int64            `json:"secs"`  // quick time limit of this run
	TSecs    int64            `json:"tsecs"` // thorough time limit
	NoValid  bool             `json:"novalidate"`
	ThorOnly bool             `json:"thorough_only"`
	Bounds   string           `json:"bounds"`
}

type CheckCfg struct {
	Pkg         string   `json:"pkg"`
	Runs        []RunCfg `json:"runs"`
	Outside     string   `json:"outside"`
	Assumptions []string `json:"assumptions"`
}

type known struct{ prop, fn, msg string }

func loadKnown() []known {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(fs) < 3 {
			continue
		}
		k := known{prop: strings.TrimPrefix(fs[0], "property="), fn: strings.TrimPrefix(fs[1], "fn="), msg: strings.TrimPrefix(fs[2], "msg=")}
		if i := strings.Index(k.msg, " -- "); i >= 0 {
			k.msg = k.msg[:i]
		}
		out = append(out, k)
	}
	return out
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func main() {
	debug.SetGCPercent(200)
	dbg := flag.Bool("debug", false, "")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "")
	only := flag.String("fn", "", "only this harness function")
	workers := flag.Int("j", runtime.NumCPU(), "")
	budget := flag.Int("budget", 0, "seconds")
	params := flag.String("p", "", "a=1,b=2 overrides")
	maxp := flag.Int64("maxpaths", 0, "")
	dump := flag.String("dump", "", "dump queries to dir")
	keepGoing := flag.Bool("k", false, "do not stop at the first violation")
	prof := flag.String("cpuprof", "", "write a cpu profile")
	flag.Parse()
	if *prof != "" {
		pf, _ := os.Create(*prof)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	setDebug(*dbg)
	args := flag.Args()
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym [flags] check ID | replay FILE | harness PKG")
		os.Exit(2)
	}
	switch args[0] {
	case "replay":
		os.Exit(doReplay(args[1]))
	case "check", "harness":
	default:
		os.Exit(2)
	}
	cfgs := map[string]*CheckCfg{}
	id := args[1]
	var cfg *CheckCfg
	if args[0] == "harness" {
		cfg = &CheckCfg{Pkg: args[1], Runs: []RunCfg{{Fn: *only}}}
		id = "X00"
	} else {
		b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if err := json.Unmarshal(b, &cfgs); err != nil {
			fmt.Fprintln(os.Stderr, "checks.json:", err)
			os.Exit(2)
		}
		cfg = cfgs[id]
		if cfg == nil {
			fmt.Fprintln(os.Stderr, "no check", id)
			os.Exit(2)
		}
	}
	seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if *budget == 0 {
		*budget = 600
		if *tier == "thorough" {
			*budget = 7200
		}
	}
	c := &checker{id: id, tier: *tier, seed: seed, cfg: cfg, workers: *workers, only: *only, maxp: *maxp, dump: *dump, keep: *keepGoing,
		t0: time.Now(), deadline: time.Now().Add(time.Duration(*budget) * time.Second), over: map[string]int64{}, known: loadKnown()}
	for _, kv := range strings.Split(*params, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			v, _ := strconv.ParseInt(kv[i+1:], 0, 64)
			c.over[kv[:i]] = v
		}
	}
	code := c.run()
	pprof.StopCPUProfile()
	os.Exit(code)
}

type checker struct {
	id, tier string
	seed     int64
	cfg      *CheckCfg
	workers  int
	only     string
	maxp     int64
	dump     string
	keep     bool
	t0       time.Time
	deadline time.Time
	over     map[string]int64
	known    []known
	scratch  string

	violations int
	replay     string
	knownHit   map[string]bool
	spurious   []string
	mismatch   []string
	validated  int
	samples    []any
	runsOut    []any
	tot        RunStats
	seenMsg    map[string]bool
}

func (c *checker) run() int {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.scratch = d
	defer os.RemoveAll(d)
	c.knownHit = map[string]bool{}
	c.tot.Funcs = map[string]bool{}
	c.tot.ByStatus = map[string]int64{}
	c.tot.Reasons = map[string]int64{}
	c.tot.Reached = map[string]int64{}
	byPkg := map[string][]RunCfg{}
	var order []string
	for _, r := range c.cfg.Runs {
		if r.Pkg == "" {
			r.Pkg = c.cfg.Pkg
		}
		if c.only != "" && r.Fn != c.only {
			continue
		}
		if r.ThorOnly && c.tier != "thorough" {
			continue
		}
		if byPkg[r.Pkg] == nil {
			order = append(order, r.Pkg)
		}
		byPkg[r.Pkg] = append(byPkg[r.Pkg], r)
	}
	exhausted := true
	nruns := 0
	for _, pk := range order {
		nruns += len(byPkg[pk])
	}
	left := nruns
pkgs:
	for _, pk := range order {
		nat := &Native{dir: c.scratch, hpkg: pk}
		go nat.build()
		t1 := time.Now()
		prog, err := loadProgram(pk)
		if err != nil {
			fmt.Fprintln(os.Stderr, "gosym:", err)
			return 2
		}
		if debugOn() {
			fmt.Println("load", time.Since(t1))
		}
		ex := NewExplorer(prog, &Options{}, pk, c.workers)
		for _, r := range byPkg[pk] {
			par := map[string]int64{}
			for k, v := range r.Quick {
				par[k] = v
			}
			if c.tier == "thorough" {
				for k, v := range r.Thorough {
					par[k] = v
				}
			}
			for k, v := range c.over {
				par[k] = v
			}
			opt := &Options{params: par, flags: r.Flags, stepLim: r.Steps, dumpDir: c.dump}
			mp := r.MaxPaths
			if c.maxp > 0 {
				mp = c.maxp
			}
			if mp == 0 || c.tier == "thorough" && c.maxp == 0 {
				mp = 1 << 40
			}
			// share of the remaining time
			rem := time.Until(c.deadline)
			if rem < time.Second {
				rem = time.Second
			}
			dl := time.Now().Add(rem * 3 / time.Duration(left+2))
			secs := r.Secs
			if c.tier == "thorough" {
				secs = r.TSecs
			}
			if secs > 0 {
				if x := time.Now().Add(time.Duration(secs) * time.Second); x.Before(c.deadline) {
					dl = x
				} else {
					dl = c.deadline
				}
			}
			left--
			nsamp := 24
			if c.tier == "thorough" {
				nsamp = 100
			}
			rf := func(pr *PathResult) *ReplayFile {
				return &ReplayFile{Property: c.id, Pkg: pk, Fn: r.Fn, Params: par, Flags: r.Flags, Inputs: pr.inputs, Kind: pr.kind, Msg: pr.msg}
			}
			confirm := func(pr *PathResult) bool { return c.confirm(nat, rf(pr), pr) }
			st, err := ex.Run(r.Fn, opt, dl, mp, c.seed, nsamp, confirm)
			if err != nil {
				fmt.Fprintln(os.Stderr, "gosym:", err)
				return 2
			}
			c.merge(st)
			if c.violations == 0 {
				c.validate(nat, rf, st, r)
			}
			if !st.Exhausted {
				exhausted = false
			}
			ro := map[string]any{
				"harness": pk + "." + r.Fn, "params": par, "flags": r.Flags, "bounds": r.Bounds, "paths": st.Paths, "paths_by_status": st.ByStatus,
				"exhausted": st.Exhausted, "queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.UnknownQ, "solver_s": round3(st.SolverTime.Seconds()),
				"obligations": st.Oblig, "discharged": st.Discharged, "instructions": st.Steps, "wall_s": round3(st.Wall.Seconds()), "reached": st.Reached,
			}
			if len(st.Reasons) > 0 {
				ro["incomplete"] = st.Reasons
			}
			c.runsOut = append(c.runsOut, ro)
			fmt.Printf("%s.%s %v: %d paths %v, exhausted=%v, %d queries (%d unsat) %.1fs solver, %d/%d obligations, wall %.1fs, reached %v\n", pk, r.Fn, par, st.Paths, st.ByStatus, st.Exhausted, st.Queries, st.Unsat, st.SolverTime.Seconds(), st.Discharged, st.Oblig, st.Wall.Seconds(), st.Reached)
			if len(st.Reasons) > 0 {
				ks := make([]string, 0, len(st.Reasons))
				for k := range st.Reasons {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					fmt.Printf("  incomplete: %d x %s\n", st.Reasons[k], k)
				}
			}
			if c.violations > 0 && !c.keep {
				ex.Close()
				break pkgs
			}
		}
		ex.Close()
	}
	for _, s := range c.spurious {
		fmt.Println("  not reproduced natively:", s)
	}
	for _, s := range c.mismatch {
		fmt.Println("  encoding/native mismatch:", s)
	}
	if c.id != "X00" && c.only == "" {
		c.evidence(exhausted)
	}
	if c.violations > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, c.replay)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s exhausted=%v paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs\n", c.id, c.tier, exhausted, c.tot.Paths, c.tot.Queries, c.tot.SolverTime.Seconds(), c.validated, time.Since(c.t0).Seconds())
	return 0
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func (c *checker) merge(s *RunStats) {
	t := &c.tot
	t.Paths += s.Paths
	t.Steps += s.Steps
	t.Queries += s.Queries
	t.Sat += s.Sat
	t.Unsat += s.Unsat
	t.UnknownQ += s.UnknownQ
	t.CacheHits += s.CacheHits
	t.Fallbacks += s.Fallbacks
	t.SolverTime += s.SolverTime
	if s.MaxQuery > t.MaxQuery {
		t.MaxQuery = s.MaxQuery
	}
	t.Oblig += s.Oblig
	t.Discharged += s.Discharged
	t.Merges += s.Merges
	for k := range s.Funcs {
		t.Funcs[k] = true
	}
	for k, v := range s.Reasons {
		t.Reasons[k] += v
	}
	for k, v := range s.ByStatus {
		t.ByStatus[k] += v
	}
}

// confirm decides whether a violating path is reported; returns true to stop.
func (c *checker) confirm(nat *Native, rf *ReplayFile, pr *PathResult) bool {
	for _, k := range c.known {
		if k.prop == c.id && (k.fn == rf.Fn || k.fn == "*") && strings.HasPrefix(firstLine(pr.msg), k.msg) {
			key := k.fn + " " + k.msg
			if !c.knownHit[key] {
				c.knownHit[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.msg)
			}
			return false
		}
	}
	tries := 1
	if pr.nsched {
		tries = 3
	}
	rep, how := false, ""
	for i := 0; i < tries && !rep; i++ {
		o, err := nat.run(rf, 20*time.Second)
		if err != nil {
			how = "native run failed: " + err.Error()
			break
		}
		rep, how = o.reproduces(pr.kind)
		if pr.st == stSteps && !o.timeout {
			rep = false
		}
	}
	engineOnly := pr.st == stViolation && (pr.nsched || pr.kind == "race" || pr.kind == "deadlock" || pr.kind == "memory")
	if !rep && !engineOnly {
		if len(c.spurious) < 20 {
			c.spurious = append(c.spurious, fmt.Sprintf("%s: %s %s [%s] inputs=%v", rf.Fn, pr.kind, pr.msg, how, pr.inputs))
		}
		return false
	}
	if pr.st == stSteps {
		rf.Kind = "hang"
	}
	if rep {
		rf.How = how
	} else {
		rf.How = "counterexample of the symbolic execution (schedule/memory level); native replay of the same inputs: " + how
	}
	c.report(rf)
	return !c.keep
}

func (c *checker) report(rf *ReplayFile) {
	c.violations++
	if c.violations > 1 && !c.keep {
		return
	}
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s_%s.json", c.id, rf.Fn))
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(p, b, 0o644)
	c.replay = p
	if c.seenMsg == nil {
		c.seenMsg = map[string]bool{}
	}
	if k := firstLine(rf.Msg); c.seenMsg[k] {
		return
	} else {
		c.seenMsg[k] = true
	}
	fmt.Printf("counterexample: %s.%s %s: %s\n  %s\n  inputs: %s\n", rf.Pkg, rf.Fn, rf.Kind, rf.Msg, rf.How, fmtInputs(rf.Inputs))
}

func fmtInputs(in []InVal) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 80 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %s=%#x", v.Tag, v.Val)
	}
	return sb.String()
}

// validate replays sampled completed paths on the real code and compares the observations.
func (c *checker) validate(nat *Native, mk func(*PathResult) *ReplayFile, st *RunStats, r RunCfg) {
	type job struct {
		pr  *PathResult
		out *NativeOut
		err error
	}
	var jobs []*job
	for i, pr := range st.Samples {
		if i < 2 || len(c.samples) < 3 {
			if len(c.samples) < 12 {
				c.samples = append(c.samples, map[string]any{"harness": r.Fn, "inputs": fmtInputs(pr.inputs), "obs": pr.obs})
			}
		}
		if r.NoValid || pr.noVal || pr.nsched || pr.st != stOK {
			continue
		}
		jobs = append(jobs, &job{pr: pr})
	}
	sem := make(chan bool, 4)
	done := make(chan bool)
	for _, j := range jobs {
		go func(j *job) {
			sem <- true
			j.out, j.err = nat.run(mk(j.pr), 60*time.Second)
			<-sem
			done <- true
		}(j)
	}
	for range jobs {
		<-done
	}
	for _, j := range jobs {
		if j.err != nil {
			c.mismatch = append(c.mismatch, j.err.Error())
			continue
		}
		want := []string{}
		for _, o := range j.pr.obs {
			want = append(want, "OBS "+o)
		}
		want = append(want, "DONE")
		if j.out.exit == 0 && !j.out.timeout && strings.Join(want, "\n") == strings.Join(j.out.lines, "\n") {
			c.validated++
			continue
		}
		if j.out.exit == 3 || j.out.exit == 2 {
			o2, err := nat.run(mk(j.pr), 60*time.Second)
			if err == nil && o2.exit == j.out.exit {
				if ok, how := o2.reproduces(""); ok {
					rf := mk(j.pr)
					rf.Kind, rf.Msg, rf.How = "native", "the real code violates the property on a path the encoding accepts", how
					c.report(rf)
					return
				}
			}
		}
		c.mismatch = append(c.mismatch, fmt.Sprintf("%s inputs=%s engine=%v native exit=%d timeout=%v %v %s", r.Fn, fmtInputs(j.pr.inputs), want, j.out.exit, j.out.timeout, j.out.lines, firstLine(j.out.stderr)))
	}
}

func (c *checker) evidence(exhausted bool) {
	fl := []string{}
	for f := range c.tot.Funcs {
		if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") {
			fl = append(fl, f)
		}
	}
	sort.Strings(fl)
	bounds := []string{}
	for _, r := range c.cfg.Runs {
		if r.Bounds != "" {
			bounds = append(bounds, r.Fn+": "+r.Bounds)
		}
	}
	cov := map[string]any{
		"states": c.tot.Paths, "transitions": c.tot.Steps, "traces_validated_against_impl": c.validated, "samples": c.samples,
		"exhaustive":        exhausted && len(c.tot.Reasons) == 0,
		"functions_encoded": fl, "bounds": bounds, "outside_bounds": c.cfg.Outside,
		"queries": c.tot.Queries, "sat": c.tot.Sat, "unsat": c.tot.Unsat, "unknown": c.tot.UnknownQ, "solver_s": round3(c.tot.SolverTime.Seconds()), "max_query_s": round3(c.tot.MaxQuery.Seconds()),
		"cache_hits": c.tot.CacheHits, "fallback_queries": c.tot.Fallbacks,
		"assertion_obligations": c.tot.Oblig, "assertions_discharged": c.tot.Discharged, "runs": c.runsOut,
		"explanation": "states = symbolic paths executed over the SSA of the current /repo tree, transitions = SSA instructions executed, traces_validated_against_impl = sampled path models replayed on the natively compiled code with identical observations",
	}
	if len(c.spurious) > 0 {
		cov["counterexamples_not_reproduced"] = c.spurious
	}
	if len(c.mismatch) > 0 {
		cov["encoding_mismatches"] = c.mismatch
	}
	if len(c.knownHit) > 0 {
		ks := []string{}
		for k := range c.knownHit {
			ks = append(ks, k)
		}
		cov["known_findings"] = ks
	}
	as := c.cfg.Assumptions
	if as == nil {
		as = []string{}
	}
	ev := map[string]any{"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov, "assumptions": as, "wall_s": round3(time.Since(c.t0).Seconds()), "violations": c.violations}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.id+".json"), b, 0o644)
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	d, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(d)
	nat := &Native{dir: d, hpkg: rf.Pkg}
	o, err := nat.run(&rf, 30*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rep, how := o.reproduces(rf.Kind)
	fmt.Println(strings.Join(o.lines, "\n"))
	fmt.Println(o.stderr)
	fmt.Println("reproduced:", rep, how)
	if rep {
		return 1
	}
	return 0
}
