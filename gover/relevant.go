package main

import "golang.org/x/tools/go/ssa"

// globalsReached gives the global variables (by key) that a function or what
// it calls statically mentions. Facts about others are left out of a proof:
// they can't matter, and would only be ballast.
func (p *Program) globalsReached(fn *ssa.Function) map[string]bool {
	seen := map[*ssa.Function]bool{}
	out := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		var ops []*ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					switch v := (*o).(type) {
					case *ssa.Global:
						if v.Pkg != nil {
							out[globKey(v)] = true
						}
					case *ssa.Function:
						if v.Pkg != nil && p.pkgs[shortPkg(v.Pkg.Pkg)] != nil || v.Pkg == nil {
							walk(v)
						}
					}
				}
			}
		}
	}
	walk(fn)
	return out
}
