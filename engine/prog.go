package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/v2pro/plz"
const hPrefix = modPath + "/zzverif/"

const startTime = int64(1700000000_123456789)

type Options struct {
	dumpDir string
	hardMs  int
	stepLim int64
	noMerge bool
	raceStd bool
	params  map[string]int64
	flags   map[string]int64
	trace   bool
}

type Program struct {
	ssa     *ssa.Program
	stdPkg  map[string]bool
	models  map[string]*ssa.Function
	byPath  map[string]*ssa.Package
	errs    []string
	links   map[string]string // local full name -> linkname target
	overlay map[string][]byte
}

var (
	repoDir    = envOr("VERIF_REPO", "/repo")
	verifDir   = envOr("VERIF_DIR", "/verif")
	targetRoot = envOr("VERIF_GOROOT", "/opt/veriftools/go1.23.12")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "PATH", "GOROOT", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GO111MODULE", "TZ", "GOSUMDB", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH="+targetRoot+"/bin:/usr/local/bin:/usr/bin:/bin", "GOROOT="+targetRoot, "GOTOOLCHAIN=local", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GO111MODULE=on", "GOWORK=off", "TZ=UTC")
}

// harnessFiles lists the files injected under /repo/zzverif (virtual path -> real path)
func harnessFiles() map[string]string {
	out := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			out[filepath.Join(repoDir, "zzverif", rel)] = p
		}
		return nil
	})
	// files added to packages of the repository
	in := filepath.Join(verifDir, "inpkg")
	filepath.Walk(in, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(in, p)
			out[filepath.Join(repoDir, rel)] = p
		}
		return nil
	})
	return out
}

func loadProgram(hpkg string) (*Program, error) {
	ov := map[string][]byte{}
	for v, r := range harnessFiles() {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: ov, BuildFlags: []string{"-tags=verif"}}
	pats := []string{hPrefix + hpkg, hPrefix + "models"}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Program{stdPkg: map[string]bool{}, models: map[string]*ssa.Function{}, byPath: map[string]*ssa.Package{}, links: map[string]string{}}
	packages.Visit(pk, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			p.errs = append(p.errs, q.PkgPath+": "+e.Error())
		}
		first := strings.SplitN(q.PkgPath, "/", 2)[0]
		if !strings.Contains(first, ".") && q.PkgPath != "command-line-arguments" {
			p.stdPkg[q.PkgPath] = true
		}
	})
	p.stdPkg[hPrefix+"models"] = true
	packages.Visit(pk, nil, func(q *packages.Package) {
		if p.stdPkg[q.PkgPath] {
			return
		}
		for _, f := range q.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					fs := strings.Fields(c.Text)
					if len(fs) == 3 && fs[0] == "//go:linkname" {
						p.links[q.PkgPath+"."+fs[1]] = fs[2]
					}
				}
			}
		}
	})
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(p.errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	for _, q := range prog.AllPackages() {
		p.byPath[q.Pkg.Path()] = q
	}
	mp := p.byPath[hPrefix+"models"]
	// models: //model:<name> comments are awkward in SSA; use the exported table in modelTable
	for name, fn := range modelTable {
		f := mp.Func(fn)
		if f == nil {
			return nil, fmt.Errorf("missing model %s", fn)
		}
		p.models[name] = f
	}
	return p, nil
}

func (p *Program) pkg(path string) *ssa.Package { return p.byPath[path] }
func (p *Program) modelFn(name string) *ssa.Function {
	f := p.byPath[hPrefix+"models"].Func(name)
	if f == nil {
		panic("no model " + name)
	}
	return f
}

var _ types.Type
