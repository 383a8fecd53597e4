package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/g-rath/osv-detector"

type program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by import path
	files int
	raw   []*packages.Package
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func goEnv() []string {
	env := os.Environ()
	path := os.Getenv("PATH")
	for _, v := range []string{"1.24.13", "1.25.14", "1.26.10", "1.27.3"} {
		d := "/opt/veriftools/go" + v + "/bin"
		if _, err := os.Stat(filepath.Join(d, "go")); err == nil {
			path = d + ":" + path
			break
		}
	}
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0")
}

// loadProgram type-checks /repo's current source together with the reference
// functions, and builds SSA for the packages of the module
func loadProgram() (*program, error) {
	repo := repoDir()
	overlay := map[string][]byte{}
	specRoot := filepath.Join(verifDir(), "spec")
	err := filepath.Walk(specRoot, func(f string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(f, ".go.txt") {
			return err
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(specRoot, f)
		overlay[filepath.Join(repo, "internal", "verifspec", strings.TrimSuffix(rel, ".txt"))] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: overlay,
	}
	patterns := []string{"./..."}
	dirs := map[string]bool{}
	for f := range overlay {
		d, _ := filepath.Rel(repo, filepath.Dir(f))
		if !dirs[d] {
			dirs[d] = true
			patterns = append(patterns, "./"+d)
		}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &program{pkgs: map[string]*ssa.Package{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, e)
		}
		p.files += len(pk.Syntax)
	}
	p.raw = pkgs
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for _, sp := range spkgs {
		if sp != nil {
			p.pkgs[sp.Pkg.Path()] = sp
		}
	}
	return p, nil
}

// fn finds a function by "pkgsuffix.Name" or "pkgsuffix.Type.Method"
func (p *program) fn(pkg, name string) *ssa.Function {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.pkgs[path]
	if sp == nil {
		return nil
	}
	if t, m, ok := strings.Cut(name, "."); ok {
		tn := sp.Type(t)
		if tn == nil {
			return nil
		}
		for i := 0; i < 2; i++ {
			typ := tn.Type()
			if i == 1 {
				typ = ptrTo(typ)
			}
			ms := p.prog.MethodSets.MethodSet(typ)
			if sel := ms.Lookup(sp.Pkg, m); sel != nil {
				return p.prog.MethodValue(sel)
			}
		}
		return nil
	}
	return sp.Func(name)
}
