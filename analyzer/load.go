package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/yusank/godis"

// Prog is one build configuration of the analysed tree in SSA form.
type Prog struct {
	Config  string
	Repo    string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPath  map[string]*ssa.Package
	fstores map[*types.Struct]map[string]int
	zlevel  map[*types.Struct]string
	used    map[*ssa.Function]bool
	Funcs   []*ssa.Function // every source function of the module, closures included
}

func load(repo, tags string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir:   repo,
		Tests: false,
		Env:   os.Environ(),
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags", tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not load (%s): %s", tags, strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p := &Prog{Config: tags, Repo: repo, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{}}
	if p.Config == "" {
		p.Config = "default"
	}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ByPath[sp.Pkg.Path()] = sp
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && p.ByPath[f.Pkg.Pkg.Path()] == f.Pkg && f.Blocks != nil {
			p.Funcs = append(p.Funcs, f)
		}
	}
	// AllFunctions only walks reachable functions; add all members and methods
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		if !seen[f] {
			seen[f] = true
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add(prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func (p *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.ByPath[modPath]
	}
	return p.ByPath[modPath+"/"+rel]
}

// pos renders a position relative to the repository root.
func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(x)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Prog) file(x token.Pos) string {
	s := p.pos(x)
	if i := strings.LastIndex(s, ":"); i > 0 {
		return s[:i]
	}
	return s
}

// namedType returns the named type of a package of the module, nil if there is none.
func (p *Prog) namedType(rel, name string) *types.Named {
	sp := p.pkg(rel)
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.TrimPrefix(strings.ReplaceAll(f.String(), modPath+"/", ""), modPath)
}
