package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits, Fallbacks int64
	Time                                              time.Duration
	MaxTime                                           time.Duration
}

// Solver: one long-lived z3 process, push/pop per query, plus one-shot portfolio for hard queries.
type Solver struct {
	tc      *TermCtx
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defd    map[int32]bool
	ndef    int
	nq      int
	st      SolverStats
	softMs  int
	hardMs  int
	lastErr string
	dumpDir string
	cache   map[string]cacheEnt
}

type cacheEnt struct {
	r SatRes
	m Model
}

func NewSolver(tc *TermCtx) *Solver {
	s := &Solver{tc: tc, bin: "z3", args: []string{"-in", "-smt2"}, softMs: 3000, hardMs: 60000, cache: map[string]cacheEnt{}}
	if b := os.Getenv("GOSYM_Z3"); b != "" {
		s.bin = b
	}
	return s
}

func (s *Solver) start() error {
	s.close()
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defd = map[int32]bool{}
	s.ndef = 0
	s.nq = 0
	if err := s.cmd.Start(); err != nil {
		return err
	}
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.softMs)
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = nil
}

// emit definitions in dependency order
func (s *Solver) define(w io.Writer, t *Term, defd map[int32]bool) {
	if t.Op == OConst || defd[t.id] {
		return
	}
	defd[t.id] = true
	if t.Op == OVar {
		fmt.Fprintf(w, "(declare-const v%d %s)\n", t.id, sortName(t.W))
		return
	}
	for _, a := range t.A {
		if t.usesFP() {
			s.defineFP(w, a, defd)
		} else {
			s.define(w, a, defd)
		}
	}
	switch t.Op {
	case OFAdd, OFSub, OFMul, OFDiv, OFToFP, OFFromSI, OFFromUI, OFSqrt, OFFloor:
		s.defineFP(w, t, defd)
	}
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortName(t.W), t.smt())
	if w == io.Writer(s.in) {
		s.ndef++
	}
}

func (s *Solver) defineFP(w io.Writer, t *Term, defd map[int32]bool) {
	if !t.isFP(6) {
		s.define(w, t, defd)
		return
	}
	if defd[-t.id-1] {
		return
	}
	defd[-t.id-1] = true
	for i, a := range t.A {
		if t.usesFP() || t.Op == OXor && i == 0 || t.Op == OIte && i > 0 {
			s.defineFP(w, a, defd)
		} else {
			s.define(w, a, defd)
		}
	}
	fmt.Fprintf(w, "(define-fun f%d () (_ FloatingPoint %s) %s)\n", t.id, fpSort(t.W), t.fpBody())
}

func rangeAssert(v *Term) string {
	if v.W == 0 || (v.lo == 0 && v.hi == mask(v.W)) {
		return ""
	}
	return fmt.Sprintf("(assert (and (bvule %s %s) (bvule %s %s)))\n", bvlit(v.W, v.lo), v.ref(), v.ref(), bvlit(v.W, v.hi))
}

func (s *Solver) queryVars(conj []*Term) []*Term {
	var vs *varset
	for _, t := range conj {
		vs = unionVars(vs, t.vars)
	}
	if vs == nil {
		return nil
	}
	out := make([]*Term, 0, len(vs.ids))
	byid := map[int32]*Term{}
	for _, v := range s.tc.vars {
		byid[v.id] = v
	}
	for _, id := range vs.ids {
		out = append(out, byid[id])
	}
	return out
}

func cacheKey(conj []*Term) string {
	ids := make([]int, len(conj))
	for i, t := range conj {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	return sb.String()
}

// Check decides the conjunction. Model only covers the variables of conj.
func (s *Solver) Check(conj []*Term) (SatRes, Model) {
	for _, t := range conj {
		if t == s.tc.False {
			return Unsat, nil
		}
	}
	key := cacheKey(conj)
	if e, ok := s.cache[key]; ok {
		s.st.CacheHits++
		return e.r, e.m
	}
	t0 := time.Now()
	r, m := s.check1(conj)
	d := time.Since(t0)
	s.st.Queries++
	s.st.Time += d
	if d > s.st.MaxTime {
		s.st.MaxTime = d
	}
	switch r {
	case Sat:
		s.st.Sat++
	case Unsat:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	if s.dumpDir != "" && d > time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", s.dumpDir, s.st.Queries, d.Milliseconds()), []byte(s.standalone(conj, "")), 0o644)
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func hasFP(t *Term, seen map[int32]bool) bool {
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.Op >= OFAdd {
		return true
	}
	for _, a := range t.A {
		if hasFP(a, seen) {
			return true
		}
	}
	return false
}

func (s *Solver) check1(conj []*Term) (SatRes, Model) {
	seen := map[int32]bool{}
	for _, t := range conj {
		if hasFP(t, seen) {
			return s.oneShot(conj)
		}
	}
	if s.cmd == nil || s.ndef > 60000 || s.nq > 4000 {
		if err := s.start(); err != nil {
			s.lastErr = err.Error()
			return Unknown, nil
		}
	}
	s.nq++
	for _, t := range conj {
		s.define(s.in, t, s.defd)
	}
	vars := s.queryVars(conj)
	fmt.Fprintf(s.in, "(push)\n")
	for _, v := range vars {
		s.in.WriteString(rangeAssert(v))
	}
	for _, t := range conj {
		fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.close()
		return s.oneShot(conj)
	}
	switch line {
	case "unsat":
		fmt.Fprintf(s.in, "(pop)\n")
		return Unsat, nil
	case "sat":
		m, ok := s.getModel(vars)
		if !ok {
			s.close()
			return s.oneShot(conj)
		}
		fmt.Fprintf(s.in, "(pop)\n")
		return Sat, m
	case "unknown", "timeout":
		fmt.Fprintf(s.in, "(pop)\n")
		return s.oneShot(conj)
	}
	s.lastErr = line
	s.close()
	return s.oneShot(conj)
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel(vars []*Term) (Model, bool) {
	m := Model{}
	if len(vars) == 0 {
		return m, true
	}
	fmt.Fprintf(s.in, "(get-value (")
	for _, v := range vars {
		s.in.WriteString(v.ref())
		s.in.WriteByte(' ')
	}
	fmt.Fprintf(s.in, "))\n(echo \"---\")\n")
	s.in.Flush()
	var sb strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			return nil, false
		}
		if l == "---" || l == "\"---\"" {
			break
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
	}
	return parseModel(sb.String(), m)
}

func parseModel(txt string, m Model) (Model, bool) {
	if strings.Contains(txt, "(error") {
		return nil, false
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(toks); i += 2 {
		if toks[i][0] != 'v' {
			return nil, false
		}
		id, err := strconv.Atoi(toks[i][1:])
		if err != nil {
			return nil, false
		}
		v := toks[i+1]
		var x uint64
		switch {
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "true":
			x = 1
		case v == "false":
		default:
			return nil, false
		}
		if err != nil {
			return nil, false
		}
		m[int32(id)] = x
	}
	return m, true
}

func (s *Solver) standalone(conj []*Term, logic string) string {
	var sb strings.Builder
	if logic != "" {
		fmt.Fprintf(&sb, "(set-logic %s)\n", logic)
	}
	sb.WriteString("(set-option :produce-models true)\n")
	defd := map[int32]bool{}
	for _, t := range conj {
		s.define(&sb, t, defd)
	}
	vars := s.queryVars(conj)
	for _, v := range vars {
		sb.WriteString(rangeAssert(v))
	}
	for _, t := range conj {
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// answers of oneShot, shared by the workers
type sharedEnt struct {
	done chan bool
	r    SatRes
	m    Model
}

var sharedMu sync.Mutex
var shared = map[string]*sharedEnt{}

// canonical renames terms and variables in the order they appear; back has the variables' own numbers
func canonical(txt string) (string, map[int32]int32) {
	var sb strings.Builder
	names := map[string]int32{}
	back := map[int32]int32{}
	for i := 0; i < len(txt); {
		c := txt[i]
		if (c == 't' || c == 'v' || c == 'f') && (i == 0 || strings.IndexByte(" (\n", txt[i-1]) >= 0) {
			j := i + 1
			for j < len(txt) && txt[j] >= '0' && txt[j] <= '9' {
				j++
			}
			if j > i+1 && (j == len(txt) || strings.IndexByte(" )\n", txt[j]) >= 0) {
				n, ok := names[txt[i:j]]
				if !ok {
					n = int32(len(names))
					names[txt[i:j]] = n
					if c == 'v' {
						id, _ := strconv.Atoi(txt[i+1 : j])
						back[n] = int32(id)
					}
				}
				sb.WriteByte(c)
				sb.WriteString(strconv.Itoa(int(n)))
				i = j
				continue
			}
		}
		sb.WriteByte(c)
		i++
	}
	return sb.String(), back
}

// oneShot: fresh processes, several back ends raced; the same question of several workers is asked once
func (s *Solver) oneShot(conj []*Term) (SatRes, Model) {
	s.st.Fallbacks++
	txt, back := canonical(s.standalone(conj, ""))
	sharedMu.Lock()
	e := shared[txt]
	mine := e == nil
	if mine {
		e = &sharedEnt{done: make(chan bool)}
		shared[txt] = e
	}
	sharedMu.Unlock()
	if mine {
		e.r, e.m = s.race(txt, conj)
		close(e.done)
	} else {
		<-e.done
		s.st.CacheHits++
	}
	if e.r != Sat {
		return e.r, nil
	}
	m := Model{}
	for k, v := range e.m {
		m[back[k]] = v
	}
	return Sat, m
}

func (s *Solver) race(txt string, conj []*Term) (SatRes, Model) {
	fp := false
	seen := map[int32]bool{}
	for _, t := range conj {
		if hasFP(t, seen) {
			fp = true
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.hardMs)*time.Millisecond)
	defer cancel()
	type res struct {
		r SatRes
		m Model
	}
	cmds := [][]string{{"z3-new", "-in", "-smt2"}, {"z3", "-in", "-smt2"}}
	if fp {
		cmds = append(cmds, []string{"cvc5", "--lang=smt2", "--produce-models", "-"})
	} else {
		cmds = append(cmds, []string{"cvc5", "--lang=smt2", "--produce-models", "--force-logic=QF_BV", "--bitblast=eager", "--produce-models", "-"})
		cmds = append(cmds, []string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", "--force-logic=QF_BV", "-"})
	}
	ch := make(chan res, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := string(out)
			if strings.Contains(o, "(error") && !strings.HasPrefix(o, "unsat") {
				ch <- res{Unknown, nil}
				return
			}
			switch {
			case strings.HasPrefix(o, "unsat"):
				ch <- res{Unsat, nil}
			case strings.HasPrefix(o, "sat"):
				m, ok := parseModel(o[3:], Model{})
				if !ok {
					ch <- res{Unknown, nil}
				} else {
					ch <- res{Sat, m}
				}
			default:
				ch <- res{Unknown, nil}
			}
		}(c)
	}
	for range cmds {
		r := <-ch
		if r.r != Unknown {
			return r.r, r.m
		}
	}
	return Unknown, nil
}
