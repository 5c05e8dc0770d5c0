package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/idoall/stockindicator"

// Engine holds the program loaded from /repo's current working tree.
type Engine struct {
	repo, verif string
	tier        string
	seed        int
	prog        *ssa.Program
	harness     *ssa.Package
	sym         *ssa.Package
	errorsNew   *ssa.Function
	initOrder   []*ssa.Package
	overlay     map[string]string // path in repo -> real file
	loadTime    time.Duration
	methMu      sync.Mutex
	methCache   map[string]*ssa.Function
	verbose     bool
	z3          []string
	known       []KnownFinding
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "GOROOT", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, "PATH=/usr/lib/go-1.22/bin:/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local",
		"GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod")
}

// overlayFiles maps the harness sources into the repository tree.
func (e *Engine) overlayFiles() error {
	e.overlay = map[string]string{}
	root := filepath.Join(e.verif, "harness")
	return filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		e.overlay[filepath.Join(e.repo, "zzverif", rel)] = p
		return nil
	})
}

func (e *Engine) load() error {
	t0 := time.Now()
	if err := e.overlayFiles(); err != nil {
		return err
	}
	ov := map[string][]byte{}
	for k, v := range e.overlay {
		if strings.Contains(v, "/replay/") {
			continue
		}
		b, err := os.ReadFile(v)
		if err != nil {
			return err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Env: goEnv(), Overlay: ov}
	pkgs, err := packages.Load(cfg, "./zzverif")
	if err != nil {
		return err
	}
	var bad []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, x := range p.Errors {
				bad = append(bad, x.Error())
			}
		}
	})
	if len(bad) > 0 {
		return fmt.Errorf("the tree does not type-check: %s", strings.Join(bad, "; "))
	}
	for _, p := range pkgs {
		if p.PkgPath != modPath+"/zzverif" {
			bad = append(bad, fmt.Sprint(p.PkgPath, p.Errors))
		}
	}
	if len(bad) > 0 {
		return fmt.Errorf("loading failed: %s", strings.Join(bad, "; "))
	}
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		switch {
		case p.Types == nil:
		case len(p.Errors) == 0 && len(p.TypeErrors) == 0:
			prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		default:
			prog.CreatePackage(p.Types, nil, nil, true)
		}
	})
	e.prog = prog
	// only what the harness can reach is built, lazily by package, repo packages first
	var wg sync.WaitGroup
	for _, p := range prog.AllPackages() {
		if strings.Contains(p.Pkg.Path(), "bytedance") || strings.Contains(p.Pkg.Path(), "twitchyliquid64") {
			continue
		}
		wg.Add(1)
		go func() { defer wg.Done(); p.Build() }()
	}
	wg.Wait()
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case modPath + "/zzverif":
			e.harness = p
		case modPath + "/zzverif/sym":
			e.sym = p
		case "errors":
			e.errorsNew = p.Func("New")
		}
	}
	if e.harness == nil || e.sym == nil {
		return fmt.Errorf("harness package not loaded: %d roots %v sym=%v", len(pkgs), pkgs, e.sym != nil)
	}
	// initialisation order: dependencies first
	seen := map[*types.Package]bool{}
	std := map[string]bool{"errors": true, "time": true, "strings": true, "sort": true, "math": true, "container/list": true, "strconv": true, "slices": true, "unicode/utf8": true, "cmp": true, "math/bits": true, "sync/atomic": true, "sync": true, "io": true}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if strings.HasPrefix(p.Path(), modPath) || std[p.Path()] {
			if sp := prog.Package(p); sp != nil {
				e.initOrder = append(e.initOrder, sp)
			}
		}
	}
	visit(e.harness.Pkg)
	e.methCache = map[string]*ssa.Function{}
	e.loadTime = time.Since(t0)
	return nil
}

func (e *Engine) symFunc(n string) *ssa.Function {
	f := e.sym.Func(n)
	if f == nil {
		panic(unsupported("sym." + n))
	}
	return f
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.methMu.Lock()
	defer e.methMu.Unlock()
	k := types.TypeString(t, nil) + "#" + m.Id()
	if f, ok := e.methCache[k]; ok {
		return f
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methCache[k] = f
	return f
}

// harnesses lists the harness functions of a property.
func (e *Engine) harnesses(prop string) []*ssa.Function {
	var out []*ssa.Function
	for n, m := range e.harness.Members {
		f, ok := m.(*ssa.Function)
		if ok && strings.HasPrefix(n, prop+"_") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
