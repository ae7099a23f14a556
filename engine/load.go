package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/openrelayxyz/cardinal-streams/v2"

// eagerPrefixes: packages whose initialisation is executed on every path;
// the globals of all other packages are initialised once per worker, on first
// use.
var eagerPrefixes = []string{repoModule, "verif/", "github.com/openrelayxyz/", "github.com/Shopify/sarama", "github.com/gorilla/websocket",
	"github.com/inconshreveable/log15", "github.com/savaki/cloudmetrics", "github.com/pubnub/go-metrics-statsd"}

func isEager(path string) bool {
	for _, p := range eagerPrefixes {
		if strings.HasPrefix(path, p) {
			return true
		}
	}
	return false
}

type Loaded struct {
	P       *Prog
	Pkgs    []*ssa.Package // harness packages
	Ordered map[*ssa.Package][]*ssa.Package // eager packages in dependency order, per harness package
	Hash    string
}

func load(dir string, patterns []string) (*Loaded, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        dir,
		BuildFlags: []string{"-tags=verifsym,math_big_pure_go,purego,osusergo,netgo"},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 20 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	P := &Prog{prog: prog, fns: map[*ssa.Function]*Fn{}, repoPfx: repoModule, model: map[string]*ssa.Function{}}
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		return nil, fmt.Errorf("package runtime not loaded")
	}
	P.rtErr = canon(rt.Type("plainError").Type())
	L := &Loaded{P: P, Pkgs: pkgs, Ordered: map[*ssa.Package][]*ssa.Package{}}
	// dependency order
	var seen map[*types.Package]bool
	var top *ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if isEager(p.Path()) {
			if sp := prog.Package(p); sp != nil {
				L.Ordered[top] = append(L.Ordered[top], sp)
			}
		}
	}
	for _, p := range pkgs {
		if p != nil {
			seen, top = map[*types.Package]bool{}, p
			visit(p.Pkg)
		}
	}
	for _, ps := range L.Ordered {
		for _, p := range ps {
			p.Build()
		}
	}
	return L, nil
}

// harnesses returns the harness functions whose name starts with a prefix.
func (L *Loaded) harnesses(prefix string) []*ssa.Function {
	var r []*ssa.Function
	for _, p := range L.Pkgs {
		for name, mem := range p.Members {
			f, ok := mem.(*ssa.Function)
			if ok && strings.HasPrefix(name, prefix) && len(f.Params) == 0 {
				r = append(r, f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// reachLabels collects the constant labels of nd.Reach calls in the harness
// package that are reachable from f through static calls and closures.
func (L *Loaded) reachLabels(f *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	out := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil {
						if cal.String() == ndPkg+"Reach" {
							if k, ok := c.Common().Args[0].(*ssa.Const); ok {
								out[strings.Trim(k.Value.ExactString(), "\"")] = true
							}
						} else if cal.Pkg != nil && strings.HasPrefix(cal.Pkg.Pkg.Path(), "verif/harness") {
							walk(cal)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	var r []string
	for k := range out {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func repoRel(p string) string {
	if r, err := filepath.Rel("/repo", p); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return p
}
