package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of /repo's current source with its specifications.
type Program struct {
	ssa   *ssa.Program
	fset  *token.FileSet
	funcs map[string]*ssa.Function // by short key
	pkgs  map[string]*types.Package
	specs *Specs
	mod   string
	dir   string
	// globals stored to outside of package initialisation
	globStores map[string]bool
	globals    map[string]*ssa.Global
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	n := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			n++
		}
	})
	if n > 0 {
		return nil, fmt.Errorf("%d errors loading %s", n, dir)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.GlobalDebug)
	prog.Build()
	p := &Program{ssa: prog, fset: prog.Fset, funcs: map[string]*ssa.Function{}, pkgs: map[string]*types.Package{}, dir: dir,
		globStores: map[string]bool{}, globals: map[string]*ssa.Global{}}
	for _, pk := range pkgs {
		if pk.Module != nil {
			p.mod = pk.Module.Path
		}
		p.pkgs[pk.Types.Name()] = pk.Types
		for _, im := range pk.Types.Imports() {
			if p.pkgs[im.Name()] == nil {
				p.pkgs[im.Name()] = im
			}
		}
	}
	for _, s := range sp {
		if s == nil {
			continue
		}
		for _, m := range s.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globals[globKey(g)] = g
			}
		}
	}
	var all []*ssa.Function
	for fn := range ssautil.AllFunctions(prog) {
		all = append(all, fn)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, fn := range all {
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		if len(fn.Blocks) == 0 {
			continue
		}
		k := FuncKey(fn)
		if p.funcs[k] == nil {
			p.funcs[k] = fn
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && fn.Name() != "init" {
						p.globStores[globKey(g)] = true
					}
				}
			}
		}
	}
	return p, nil
}

func globKey(g *ssa.Global) string { return shortPkg(g.Pkg.Pkg) + "." + g.Name() }

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Name() == "main" {
		return path.Base(p.Path())
	}
	return p.Name()
}

func (p *Program) inRepo(pk *types.Package) bool {
	return pk != nil && (pk.Path() == p.mod || strings.HasPrefix(pk.Path(), p.mod+"/"))
}

// FuncKey is the short name of a function: pkg.F, pkg.(*T).M, pkg.T.M, pkg.F$1.
func FuncKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return FuncKey(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pk := ""
	if fn.Pkg != nil {
		pk = shortPkg(fn.Pkg.Pkg)
	} else if fn.Object() != nil {
		pk = shortPkg(fn.Object().Pkg())
	}
	if r := fn.Signature.Recv(); r != nil {
		return pk + "." + recvName(r.Type()) + "." + fn.Name()
	}
	return pk + "." + fn.Name()
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return "(*" + recvName(p.Elem()) + ")"
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// MethodKey names an interface method: pkg.I.M.
func MethodKey(t types.Type, m *types.Func) string {
	if n, ok := t.(*types.Named); ok {
		return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + m.Name()
	}
	return "iface." + m.Name()
}

// orphans lists the contracts of a package whose function doesn't exist.
func (p *Program) orphans(pk *types.Package) []*Contract {
	if pk == nil {
		return nil
	}
	var out []*Contract
	for _, k := range sortedKeys(p.specs.Contracts) {
		c := p.specs.Contracts[k]
		if c.Kind == "contract" && len(c.Invs) > 0 && p.funcs[k] == nil && strings.HasPrefix(k, shortPkg(pk)+".") {
			out = append(out, c)
		}
	}
	return out
}
