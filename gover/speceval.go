package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type SEnv struct {
	x       *X
	st, old *State
	vars    map[string]*Val
	resolve func(string) *Val
	pkg     *types.Package
	init    *SEnv
	fuel    int // inside the definition of a recursive function: its rank
	depth   int
}

var nilType = types.Typ[types.UntypedNil]

func (e *SEnv) fail(f string, a ...interface{}) { panic(unsupported("spec: " + fmt.Sprintf(f, a...))) }

func (e *SEnv) boolExpr(ex *Expr) *Term {
	v := e.eval(ex)
	if len(v.ts) != 1 || v.ts[0].sort != SBool {
		e.fail("boolean expected: %s", showExpr(ex))
	}
	return v.ts[0]
}

func (e *SEnv) with(n string, v *Val) *SEnv {
	ne := *e
	ne.vars = map[string]*Val{n: v}
	for k, w := range e.vars {
		if k != n {
			ne.vars[k] = w
		}
	}
	return &ne
}

func showExpr(e *Expr) string {
	if e == nil {
		return ""
	}
	var as []string
	for _, a := range e.args {
		as = append(as, showExpr(a))
	}
	switch e.op {
	case "num", "id":
		return e.s
	case "str":
		return fmt.Sprintf("%q", e.s)
	case "bin":
		return "(" + as[0] + " " + e.s + " " + as[1] + ")"
	case "field":
		return as[0] + "." + e.s
	case "call":
		return e.s + "(" + strings.Join(as, ", ") + ")"
	}
	return e.op + " " + e.s + "[" + strings.Join(as, " ") + "]"
}

func parseSort(s string) (Sort, bool) {
	switch s {
	case "Int":
		return SInt, true
	case "Bool":
		return SBool, true
	case "S":
		return SSeq, true
	case "F":
		return SFlt, true
	}
	if strings.HasPrefix(s, "[") {
		i := strings.IndexByte(s, ']')
		if i > 0 {
			a, ok1 := parseSort(s[1:i])
			b, ok2 := parseSort(s[i+1:])
			if ok1 && ok2 {
				return arr(a, b), true
			}
		}
	}
	return "", false
}

// goType resolves a Go type named in a specification.
func (x *X) goType(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(x.goType(s[2:]))
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(x.goType(s[1:]))
	case strings.HasPrefix(s, "map["):
		i := strings.IndexByte(s, ']')
		return types.NewMap(x.goType(s[4:i]), x.goType(s[i+1:]))
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.IndexByte(s, '.'); i > 0 {
		if p := x.P.pkgs[s[:i]]; p != nil {
			if o := p.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	panic(unsupported("spec: unknown type " + s))
}

// boundVal makes a (bound or free) variable of a specification type.
func (x *X) specVar(name, typ string, mk func(hint string, s Sort) *Term) *Val {
	if s, ok := parseSort(typ); ok {
		return pure(mk(name, s))
	}
	t := x.goType(typ)
	var ts []*Term
	for _, s := range x.flatComps(t) {
		ts = append(ts, mk(name, s))
	}
	v, _ := x.unflat(t, ts)
	return v
}

func (e *SEnv) eval(ex *Expr) *Val {
	x := e.x
	c := x.c
	switch ex.op {
	case "num":
		n, _ := new(big.Int).SetString(ex.s, 10)
		return pure(c.BigInt(n))
	case "str":
		return pure(c.Lit(ex.s))
	case "id":
		return e.ident(ex.s)
	case "un":
		v := e.eval(ex.args[0]).t()
		if ex.s == "!" {
			return pure(c.Not(v))
		}
		return pure(c.Sub(c.Int(0), v))
	case "bin":
		return e.binary(ex)
	case "if":
		cd := e.boolExpr(ex.args[0])
		if cd == c.True {
			return e.eval(ex.args[1])
		}
		if cd == c.False {
			return e.eval(ex.args[2])
		}
		return x.iteVal(cd, e.eval(ex.args[1]), e.eval(ex.args[2]))
	case "let":
		return e.with(ex.s, e.eval(ex.args[0])).eval(ex.args[1])
	case "arr":
		return e.comprehension(ex)
	case "forall", "exists":
		ne := e
		var bs []*Term
		for _, v := range ex.vars {
			bv := x.specVar(v.name, v.typ, func(h string, s Sort) *Term {
				b := c.Bound(h, s)
				bs = append(bs, b)
				return b
			})
			ne = ne.with(v.name, bv)
		}
		var trigs [][]*Term
		for _, tr := range ex.trig {
			var ts []*Term
			for _, t := range tr {
				ts = append(ts, ne.eval(t).t())
			}
			trigs = append(trigs, ts)
		}
		body := ne.boolExpr(ex.args[0])
		if ex.op == "forall" {
			return pure(c.Forall(bs, trigs, body))
		}
		return pure(c.Exists(bs, trigs, body))
	case "field":
		return e.field(ex)
	case "idx":
		return e.index(e.eval(ex.args[0]), e.eval(ex.args[1]))
	case "sub":
		s := e.seq(e.eval(ex.args[0]))
		i, j := c.Int(0), c.Slen(s)
		if ex.args[1] != nil {
			i = e.eval(ex.args[1]).t()
		}
		if ex.args[2] != nil {
			j = e.eval(ex.args[2]).t()
		}
		return pure(c.SubSeq(s, i, j))
	case "deref":
		p := e.eval(ex.args[0])
		return e.st.load(p, p.T.Underlying().(*types.Pointer).Elem())
	case "addr":
		return e.addr(ex.args[0])
	case "call":
		return e.call(ex)
	}
	e.fail("expression %s", ex.op)
	return nil
}

// seq is the byte sequence a value stands for.
func (e *SEnv) seq(v *Val) *Term {
	if v.T == nil || isString(v.T) {
		t := v.t()
		if t.sort != SSeq {
			e.fail("sequence expected, got %s", t.sort)
		}
		return t
	}
	return e.st.bytesOf(v)
}

func (e *SEnv) ident(n string) *Val {
	x := e.x
	c := x.c
	switch n {
	case "true":
		return pure(c.True)
	case "false":
		return pure(c.False)
	case "nil":
		return &Val{T: nilType, ts: []*Term{c.Int(0)}}
	}
	if v, ok := e.vars[n]; ok {
		return v
	}
	if e.resolve != nil {
		if v := e.resolve(n); v != nil {
			return v
		}
	}
	if g := x.P.specs.Ghosts[n]; g != nil {
		s, ok := parseSort(g.typ)
		if !ok {
			e.fail("sort %s", g.typ)
		}
		return pure(e.st.heapGet("g:"+n, s))
	}
	if r := x.P.specs.Recs[n]; r != nil && len(r.Params) == 0 {
		return e.applyRec(r, nil)
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(n); o != nil {
			return e.object(o)
		}
	}
	e.fail("unknown name %s", n)
	return nil
}

func (e *SEnv) object(o types.Object) *Val {
	x := e.x
	switch o := o.(type) {
	case *types.Const:
		v := o.Val()
		switch v.Kind() {
		case constant.String:
			return pure(x.c.Lit(constant.StringVal(v)))
		case constant.Bool:
			return pure(x.c.Bool(constant.BoolVal(v)))
		}
		iv := constant.ToInt(v)
		if iv.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return pure(x.c.BigInt(n))
		}
	case *types.Var:
		g := x.P.globals[shortPkg(o.Pkg())+"."+o.Name()]
		if g != nil {
			return e.st.load(x.globalPtr(g), o.Type())
		}
		return e.st.load(&Val{T: types.NewPointer(o.Type()), ts: []*Term{x.c.Int(999), x.c.Int(0)}, key: "G:" + shortPkg(o.Pkg()) + "." + o.Name()}, o.Type())
	}
	e.fail("object %s", o.Name())
	return nil
}

func (e *SEnv) pkgOf(ex *Expr) *types.Package {
	if ex.op != "id" {
		return nil
	}
	if _, ok := e.vars[ex.s]; ok {
		return nil
	}
	if e.resolve != nil && e.resolve(ex.s) != nil {
		return nil
	}
	return e.x.P.pkgs[ex.s]
}

func findField(t types.Type, n string) (int, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return i, s
		}
	}
	return -1, s
}

func (e *SEnv) field(ex *Expr) *Val {
	x := e.x
	if p := e.pkgOf(ex.args[0]); p != nil {
		if o := p.Scope().Lookup(ex.s); o != nil {
			return e.object(o)
		}
		e.fail("%s.%s", p.Name(), ex.s)
	}
	v := e.eval(ex.args[0])
	if v.T == nil {
		e.fail("field %s of a specification value", ex.s)
	}
	switch ex.s {
	case "ref":
		return pure(v.ts[0])
	case "off", "idx":
		if len(v.ts) > 1 {
			return pure(v.ts[1])
		}
	}
	i, s := findField(v.T, ex.s)
	if i < 0 {
		// promoted through an embedded struct
		if s != nil {
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Embedded() {
					if k, _ := findField(s.Field(j).Type(), ex.s); k >= 0 {
						inner := &Expr{op: "field", s: s.Field(j).Name(), args: ex.args}
						return e.field(&Expr{op: "field", s: ex.s, args: []*Expr{inner}})
					}
				}
			}
		}
		e.fail("no field %s in %s", ex.s, v.T)
	}
	if _, ok := v.T.Underlying().(*types.Pointer); ok {
		return e.loadNoBound(x.fieldAddr(v, i), s.Field(i).Type())
	}
	return v.fs[i]
}

func (e *SEnv) loadNoBound(p *Val, t types.Type) *Val { return e.st.load(p, t) }

func (e *SEnv) addr(ex *Expr) *Val {
	x := e.x
	if ex.op == "field" {
		v := e.eval(ex.args[0])
		i, _ := findField(v.T, ex.s)
		if i >= 0 {
			if _, ok := v.T.Underlying().(*types.Pointer); ok {
				return x.fieldAddr(v, i)
			}
		}
	}
	if ex.op == "idx" {
		s := e.eval(ex.args[0])
		i := e.eval(ex.args[1]).t()
		return &Val{T: types.NewPointer(elemType(s.T)), ts: []*Term{s.ts[0], x.c.Add(s.ts[1], i)}}
	}
	e.fail("address of %s", showExpr(ex))
	return nil
}

func (e *SEnv) index(v, i *Val) *Val {
	x := e.x
	c := x.c
	if v.T == nil {
		t := v.t()
		if t.sort == SSeq {
			return pure(c.Nth(t, i.t()))
		}
		if isArr(t.sort) {
			return pure(c.Select(t, i.t()))
		}
		e.fail("index of %s", t.sort)
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return e.st.load(&Val{T: types.NewPointer(u.Elem()), ts: []*Term{v.ts[0], c.Add(v.ts[1], i.t())}}, u.Elem())
	case *types.Basic:
		return pure(c.Nth(v.t(), i.t()))
	case *types.Map:
		return e.st.mapGet(v, i.t())
	case *types.Array:
		return e.st.load(&Val{T: types.NewPointer(u.Elem()), ts: []*Term{v.ts[0], c.Add(v.ts[1], i.t())}}, u.Elem())
	}
	e.fail("index of %s", v.T)
	return nil
}

func (e *SEnv) binary(ex *Expr) *Val {
	x := e.x
	c := x.c
	switch ex.s {
	case "&&":
		a := e.boolExpr(ex.args[0])
		if a == c.False {
			return pure(a)
		}
		return pure(c.And(a, e.boolExpr(ex.args[1])))
	case "||":
		a := e.boolExpr(ex.args[0])
		if a == c.True {
			return pure(a)
		}
		return pure(c.Or(a, e.boolExpr(ex.args[1])))
	case "==>":
		a := e.boolExpr(ex.args[0])
		if a == c.False {
			return pure(c.True)
		}
		return pure(c.Imp(a, e.boolExpr(ex.args[1])))
	case "<==>":
		return pure(c.Eq(e.boolExpr(ex.args[0]), e.boolExpr(ex.args[1])))
	}
	a, b := e.eval(ex.args[0]), e.eval(ex.args[1])
	switch ex.s {
	case "==", "!=":
		var t *Term
		switch {
		case b.T == nilType:
			t = c.Eq(a.ts[0], c.Int(0))
		case a.T == nilType:
			t = c.Eq(b.ts[0], c.Int(0))
		case len(a.fs) > 0:
			t = x.eq(a, b)
		case len(a.ts) != len(b.ts):
			e.fail("comparison of different types: %s", showExpr(ex))
		default:
			var cs []*Term
			for i := range a.ts {
				if a.ts[i].sort != b.ts[i].sort {
					e.fail("comparison of different sorts: %s", showExpr(ex))
				}
				cs = append(cs, c.Eq(a.ts[i], b.ts[i]))
			}
			t = c.And(cs...)
		}
		if ex.s == "!=" {
			t = c.Not(t)
		}
		return pure(t)
	}
	at, bt := a.t(), b.t()
	if at.sort == SSeq && ex.s == "+" {
		return pure(c.Cat(at, bt))
	}
	if at.sort == SSeq && ex.s == "<" {
		return pure(c.App("sltlex", at, bt))
	}
	if at.sort != SInt || bt.sort != SInt {
		e.fail("integers expected: %s", showExpr(ex))
	}
	switch ex.s {
	case "+":
		return pure(c.Add(at, bt))
	case "-":
		return pure(c.Sub(at, bt))
	case "*":
		return pure(c.Mul(at, bt))
	case "/":
		return pure(c.Div(at, bt))
	case "%":
		return pure(c.Mod(at, bt))
	case "<":
		return pure(c.Lt(at, bt))
	case "<=":
		return pure(c.Le(at, bt))
	case ">":
		return pure(c.Lt(bt, at))
	case ">=":
		return pure(c.Le(bt, at))
	}
	e.fail("operator %s", ex.s)
	return nil
}

func (e *SEnv) call(ex *Expr) *Val {
	x := e.x
	c := x.c
	arg := func(i int) *Val {
		if i >= len(ex.args) {
			e.fail("%s: missing argument", ex.s)
		}
		return e.eval(ex.args[i])
	}
	switch ex.s {
	case "len":
		v := arg(0)
		if v.T == nil || isString(v.T) {
			return pure(c.Slen(v.t()))
		}
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return pure(v.ts[2])
		case *types.Map:
			return pure(e.st.mapLen(v))
		case *types.Array:
			return pure(c.Int(u.Len()))
		}
	case "cap":
		return pure(arg(0).ts[3])
	case "ref":
		return pure(arg(0).ts[0])
	case "off":
		return pure(arg(0).ts[1])
	case "b":
		return pure(e.seq(arg(0)))
	case "tdiv":
		return pure(x.tdiv(arg(0).t(), arg(1).t()))
	case "unit":
		return pure(c.Unit(arg(0).t()))
	case "itoa":
		return pure(c.App("itoa", arg(0).t()))
	case "sprintf":
		return pure(x.sprintf(e.st, e.seq(arg(0)), arg(1)))
	case "store":
		a := arg(0).t()
		return pure(c.Store(a, arg(1).t(), arg(2).t()))
	case "old":
		if e.old == nil {
			e.fail("old without previous state")
		}
		ne := *e
		ne.st = e.old
		pc := e.old.pc
		r := ne.eval(ex.args[0])
		// facts about well-formedness found while looking at the old state hold now as well
		for p := e.old.pc; p != pc && p != nil; p = p.prev {
			e.st.assume(p.t)
		}
		return r
	case "init":
		if e.init == nil {
			e.fail("init outside of a loop")
		}
		ne := *e.init
		nv := map[string]*Val{}
		for k, v := range e.init.vars {
			nv[k] = v
		}
		for k, v := range e.vars {
			if _, ok := nv[k]; !ok {
				nv[k] = v
			}
		}
		ne.vars = nv
		return ne.eval(ex.args[0])
	case "fresh":
		return pure(c.Le(e.old.next(), arg(0).ts[0]))
	case "allocated":
		return pure(c.Lt(arg(0).ts[0], e.st.next()))
	case "older":
		return pure(c.Lt(arg(0).ts[0], e.old.next()))
	case "root":
		return pure(c.App("root", arg(0).ts[0]))
	case "has":
		return pure(e.st.mapHas(arg(0), arg(1).t()))
	case "dom":
		m := arg(0)
		d, ks, _ := x.mapKeys(m.T)
		return pure(c.Select(e.st.heapGet(d, mapSort(ks, SBool)), m.t()))
	case "ite":
		return x.iteVal(arg(0).t(), arg(1), arg(2))
	case "min":
		a, b := arg(0).t(), arg(1).t()
		return pure(c.Ite(c.Le(a, b), a, b))
	case "max":
		a, b := arg(0).t(), arg(1).t()
		return pure(c.Ite(c.Le(a, b), b, a))
	case "istype":
		v := arg(0)
		t := x.goType(exprType(ex.args[1]))
		if v.dyn != nil {
			return pure(c.Bool(types.Identical(v.dyn.T, t)))
		}
		return pure(c.And(c.Not(c.Eq(v.t(), c.Int(0))), c.Eq(c.App("ity", v.t()), x.typeID(t))))
	case "iface":
		// the interface value that holds this value
		v := arg(0)
		fl := flat(v)
		var sorts []Sort
		for _, t := range fl {
			sorts = append(sorts, t.sort)
		}
		c.DeclFun("box:"+typeFull(v.T), sorts, SInt)
		return pure(c.App("box:"+typeFull(v.T), fl...))
	case "as":
		t := x.goType(exprType(ex.args[1]))
		return x.unbox(e.st, arg(0).t(), t)
	case "ptr":
		// ptr(ref, idx, type)
		t := x.goType(exprType(ex.args[2]))
		return &Val{T: t, ts: []*Term{arg(0).t(), arg(1).t()}}
	case "view":
		return pure(c.View(c.Select(e.st.heapGet("uint8", row(SInt)), arg(0).ts[0]), arg(1).t(), arg(2).t()))
	case "isfun":
		// isfun(f, pkg.F$1): f is that function
		v := arg(0)
		k := exprType(ex.args[1])
		if v.fn == nil {
			if kn, ok := x.known[v.t()]; ok && kn.fn != nil {
				v = kn
			}
		}
		if v.fn == nil {
			return pure(x.uf("isfun:"+k, SBool, v.t()))
		}
		return pure(c.Bool(FuncKey(v.fn) == k))
	case "of":
		// of(f, sort, e): the value of e over the captured variables of closure f
		v := arg(0)
		s, ok := parseSort(exprType(ex.args[1]))
		if !ok {
			e.fail("sort in of")
		}
		if v.fn == nil {
			if kn, ok := x.known[v.t()]; ok && kn.fn != nil {
				v = kn
			}
		}
		if v.fn == nil {
			return pure(x.uf("of:"+ex.args[2].String(), s, v.t()))
		}
		r := (&SEnv{x: x, st: e.st, old: e.st, vars: x.freeNames(v.fn, v.binds), pkg: e.pkg}).eval(ex.args[2])
		if s == SSeq {
			return pure(e.seq(r))
		}
		return pure(r.t())
	case "nvisited":
		it := arg(0)
		if it.iter == nil {
			e.fail("not an iteration over a map")
		}
		return pure(c.Select(e.st.heapGet(it.iter.key+"#n", arr(SInt, SInt)), it.t()))
	case "visited":
		it := arg(0)
		if it.iter == nil {
			e.fail("not an iteration over a map")
		}
		return pure(c.Select(c.Select(e.st.heapGet(it.iter.key, mapSort(iterSort(it.iter.key), SBool)), it.t()), arg(1).t()))
	}
	if r := x.P.specs.Recs[ex.s]; r != nil {
		var as []*Val
		for i := range ex.args {
			as = append(as, arg(i))
		}
		return e.applyRec(r, as)
	}
	if g := x.P.specs.GFields[ex.s]; g != nil {
		p := arg(0)
		s, ok := parseSort(g.typ)
		if !ok {
			e.fail("sort %s", g.typ)
		}
		idx := c.Int(0)
		if len(p.ts) == 2 {
			idx = p.ts[1]
		}
		return pure(e.st.get2("gf:"+g.name, s, p.ts[0], idx))
	}
	if d, ok := c.funs[ex.s]; ok && builtinFuns[ex.s].res != "" {
		var as []*Term
		for i := range ex.args {
			v := arg(i)
			if d.args[i] == SSeq {
				as = append(as, e.seq(v))
			} else {
				as = append(as, v.t())
			}
		}
		return pure(c.App(ex.s, as...))
	}
	e.fail("unknown function %s", ex.s)
	return nil
}

func iterSort(key string) Sort { return Sort(strings.TrimPrefix(key, "iter#")) }

func exprType(ex *Expr) string {
	switch ex.op {
	case "id":
		return ex.s
	case "field":
		return exprType(ex.args[0]) + "." + ex.s
	case "deref":
		return "*" + exprType(ex.args[0])
	case "str":
		return ex.s
	}
	return "?"
}

// ---- recursive functions

func (x *X) recReads(r *RecFun) []Sort {
	var out []Sort
	for _, k := range r.Reads {
		out = append(out, x.readSort(k))
	}
	return out
}

// readSort is the sort of a heap key named in a reads clause.
func (x *X) readSort(k string) Sort {
	if i := strings.LastIndexByte(k, ':'); i > 0 {
		s, ok := parseSort(k[i+1:])
		if !ok {
			panic(unsupported("sort in " + k))
		}
		return row(s)
	}
	return row(SInt)
}

func readKey(k string) string {
	if i := strings.LastIndexByte(k, ':'); i > 0 {
		return k[:i]
	}
	return k
}

func (e *SEnv) applyRec(r *RecFun, as []*Val) *Val {
	x := e.x
	c := x.c
	if len(as) != len(r.Params) {
		e.fail("%s: %d arguments, want %d", r.Name, len(as), len(r.Params))
	}
	if r.Def {
		if e.depth > 40 {
			e.fail("definition of %s too deep", r.Name)
		}
		ne := *e
		ne.depth++
		ne.vars = map[string]*Val{}
		ne.resolve = nil
		ne.init = e.init
		for i, p := range r.Params {
			ne.vars[p.name] = as[i]
		}
		if p := x.P.pkgs[r.Pkg]; p != nil {
			ne.pkg = p
		}
		return ne.eval(r.Body)
	}
	res, ok := parseSort(r.Res)
	if !ok {
		e.fail("%s: result sort %q", r.Name, r.Res)
	}
	var ts []*Term
	var sorts []Sort
	for i, p := range r.Params {
		if s, ok := parseSort(p.typ); ok {
			t := as[i]
			var tt *Term
			if s == SSeq {
				tt = e.seq(t)
			} else {
				tt = t.ts[0]
			}
			if tt.sort != s {
				e.fail("%s: argument %d has sort %s", r.Name, i, tt.sort)
			}
			ts = append(ts, tt)
			sorts = append(sorts, s)
		} else {
			gt := x.goType(p.typ)
			f := flat(as[i])
			fc := x.flatComps(gt)
			if len(f) != len(fc) {
				e.fail("%s: argument %d", r.Name, i)
			}
			ts = append(ts, f...)
			sorts = append(sorts, fc...)
		}
	}
	for _, k := range r.Reads {
		s := x.readSort(k)
		ts = append(ts, e.st.heapGet(readKey(k), s))
		sorts = append(sorts, s)
	}
	n := r.Name
	if e.fuel > 0 && r.ord >= e.fuel {
		n += "#"
	}
	c.DeclFun(n, sorts, res)
	return pure(c.App(n, ts...))
}

// recAxiom is the definition of a recursive function.
func (x *X) recAxiom(r *RecFun) []*Term {
	c := x.c
	var bs []*Term
	mk := func(h string, s Sort) *Term {
		b := c.Bound(h, s)
		bs = append(bs, b)
		return b
	}
	st := &State{x: x, heap: map[string]*Term{}, nb: c.Var("next!spec", SInt)}
	env := &SEnv{x: x, st: st, vars: map[string]*Val{}, pkg: x.P.pkgs[r.Pkg]}
	var as []*Val
	for _, p := range r.Params {
		v := x.specVar(p.name, p.typ, mk)
		env.vars[p.name] = v
		as = append(as, v)
	}
	for _, k := range r.Reads {
		st.heap[readKey(k)] = mk("H", x.readSort(k))
	}
	f := env.applyRec(r, as).t()
	env.fuel = r.ord
	f0 := env.applyRec(r, as).t()
	body := env.eval(r.Body).t()
	tr := [][]*Term{{f}}
	eq := c.Eq(f, body)
	in := map[string]bool{}
	syms(body, map[*Term]bool{}, in)
	if in[r.Name+"#"] {
		eq = c.And(eq, c.Eq(f, f0))
	}
	if len(bs) == 0 {
		return []*Term{eq}
	}
	return []*Term{c.Forall(bs, tr, eq)}
}

// lemmaTerm is a lemma as a (universally quantified) formula.
func (x *X) lemmaTerm(l *Lemma) *Term {
	c := x.c
	var bs []*Term
	mk := func(h string, s Sort) *Term {
		b := c.Bound(h, s)
		bs = append(bs, b)
		return b
	}
	env := x.lemmaEnv(l, mk)
	var req, ens []*Term
	for _, r := range l.Requires {
		req = append(req, env.boolExpr(r.E))
	}
	for _, r := range l.Ensures {
		ens = append(ens, env.boolExpr(r.E))
	}
	var trigs [][]*Term
	for _, tr := range l.Trig {
		var ts []*Term
		for _, t := range tr {
			ts = append(ts, env.eval(t).ts[0])
		}
		trigs = append(trigs, ts)
	}
	return c.Forall(bs, trigs, c.Imp(c.And(req...), c.And(ens...)))
}

func (x *X) lemmaEnv(l *Lemma, mk func(string, Sort) *Term) *SEnv {
	st := &State{x: x, heap: map[string]*Term{}, nb: x.c.Var("next!spec", SInt)}
	env := &SEnv{x: x, st: st, vars: map[string]*Val{}, pkg: x.P.pkgs[l.Pkg]}
	for _, p := range l.Params {
		env.vars[p.name] = x.specVar(p.name, p.typ, mk)
	}
	for _, k := range l.Reads {
		st.heap[readKey(k)] = mk("H", x.readSort(k))
	}
	return env
}

// lemmaInst is an instance of a lemma.
func (e *SEnv) lemmaInst(ex *Expr, self *Lemma, selfM *Term, guard func(m *Term) *Term) *Term {
	x := e.x
	c := x.c
	if ex.op != "call" {
		e.fail("use: lemma application expected")
	}
	l := x.P.specs.Lemmas[ex.s]
	if l == nil {
		e.fail("use: no lemma %s", ex.s)
	}
	env := &SEnv{x: x, st: e.st, vars: map[string]*Val{}, pkg: x.P.pkgs[l.Pkg]}
	if len(ex.args) != len(l.Params) {
		e.fail("use %s: %d arguments", ex.s, len(ex.args))
	}
	for i, p := range l.Params {
		v := e.eval(ex.args[i])
		if p.typ == "S" {
			v = pure(e.seq(v))
		} else if _, ok := parseSort(p.typ); ok {
			v = pure(v.ts[0])
		}
		env.vars[p.name] = v
	}
	var req, ens []*Term
	if l == self && guard != nil {
		req = append(req, guard(env.eval(l.Decr).t()))
	}
	for _, r := range l.Requires {
		req = append(req, env.boolExpr(r.E))
	}
	for _, r := range l.Ensures {
		ens = append(ens, env.boolExpr(r.E))
	}
	return c.Imp(c.And(req...), c.And(ens...))
}

// ---- building queries

// syms collects the function symbols of a term.
func syms(t *Term, seen map[*Term]bool, out map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "app" {
		out[t.name] = true
	}
	for _, a := range t.args {
		syms(a, seen, out)
	}
	for _, tr := range t.trigs {
		for _, y := range tr {
			syms(y, seen, out)
		}
	}
}

type lemTerm struct {
	t    *Term
	need map[string]bool
	l    *Lemma
}

func (x *X) lemmaCached(l *Lemma) *lemTerm {
	if x.lemT == nil {
		x.lemT = map[string]*lemTerm{}
	}
	if r := x.lemT[l.Name]; r != nil {
		return r
	}
	t := x.lemmaTerm(l)
	need := map[string]bool{}
	// symbols of the first trigger, or all user functions of the statement
	if len(t.trigs) > 0 {
		for _, y := range t.trigs[0] {
			syms(y, map[*Term]bool{}, need)
		}
	} else {
		syms(t, map[*Term]bool{}, need)
	}
	for k := range need {
		if preludeFuns[k] {
			delete(need, k)
		}
	}
	r := &lemTerm{t, need, l}
	x.lemT[l.Name] = r
	return r
}

// sameVariant is a lemma that relates two values of one recursive function, for
// values that come from unfolding its definition.
func (x *X) sameVariant(t *Term) *Term {
	if t.op != "forall" || len(t.trigs) == 0 {
		return nil
	}
	c := x.c
	n := map[string]int{}
	for _, u := range t.trigs[0] {
		if u.op == "app" {
			n[u.name]++
		}
	}
	m := map[*Term]*Term{}
	for _, u := range t.trigs[0] {
		if u.op == "app" && n[u.name] > 1 {
			r := x.P.specs.Recs[u.name]
			if r == nil || r.Def || r.Opaque {
				continue
			}
			if d, ok := c.funs[u.name+"#"]; ok {
				_ = d
				m[u] = c.App(u.name+"#", u.args...)
			}
		}
	}
	if len(m) < 2 {
		// a lemma about the value for a changed array
		for _, u := range t.trigs[0] {
			r := x.P.specs.Recs[u.name]
			if u.op != "app" || r == nil || r.Def || r.Opaque || len(t.trigs[0]) != 1 {
				continue
			}
			if _, ok := c.funs[u.name+"#"]; !ok {
				continue
			}
			for _, a := range u.args {
				if a.op == "store" {
					var all func(v *Term)
					seen := map[*Term]bool{}
					all = func(v *Term) {
						if seen[v] {
							return
						}
						seen[v] = true
						if v.op == "app" && v.name == u.name {
							m[v] = c.App(u.name+"#", v.args...)
						}
						for _, w := range v.args {
							all(w)
						}
					}
					all(t)
				}
			}
		}
	}
	if len(m) < 2 {
		return nil
	}
	return c.Subst(t, m)
}

// axiomsFor returns definitions and lemmas relevant to a query.
func (x *X) axiomsFor(ts []*Term) []*Term {
	have := map[string]bool{}
	seen := map[*Term]bool{}
	for _, t := range ts {
		syms(t, seen, have)
	}
	var out []*Term
	added := map[string]bool{}
	for {
		n := len(out)
		var names []string
		for s := range have {
			names = append(names, s)
		}
		sort.Strings(names)
		for _, s := range names {
			base := strings.TrimSuffix(s, "#")
			if added[s] || s != base {
				continue
			}
			r := x.P.specs.Recs[s]
			if r == nil || r.Opaque || r.Def || x.hides[s] {
				continue
			}
			added[s] = true
			ax, ok := x.recT[s]
			if !ok {
				if x.recT == nil {
					x.recT = map[string][]*Term{}
				}
				ax = x.recAxiom(r)
				x.recT[s] = ax
			}
			for _, a := range ax {
				out = append(out, a)
				syms(a, seen, have)
			}
		}
		for _, l := range x.P.specs.LemmaList {
			if added["lemma "+l.Name] || x.lemOrd > 0 && l.ord >= x.lemOrd {
				continue
			}
			if !l.Auto && !x.uses[l.Name] || x.hides[l.Name] {
				continue
			}
			lt := x.lemmaCached(l)
			ok := true
			for s := range lt.need {
				if !have[s] {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			added["lemma "+l.Name] = true
			x.lemUsed[l.Name] = true
			out = append(out, lt.t)
			syms(lt.t, seen, have)
			if v := x.sameVariant(lt.t); v != nil {
				out = append(out, v)
			}
		}
		if len(out) == n {
			return out
		}
	}
}

func (x *X) script(assume []*Term, goal *Term) string {
	ts := append(append([]*Term{}, assume...), goal)
	aa := x.arrAxioms(ts)
	ax := append(x.axiomsFor(append(ts, aa...)), aa...)
	for _, a := range assume {
		ax = append(ax, x.expandQ(a, true))
	}
	ax = append(ax, x.bridges(ts)...)
	return x.c.Script(ax, x.expandQ(goal, false))
}

// expandQ gives quantifiers that will be instantiated by the solver versions
// with usable triggers: one for each offset the variable is used with as an
// index. pos: t is assumed, otherwise it is to be proved.
func (x *X) expandQ(t *Term, pos bool) *Term {
	c := x.c
	switch t.op {
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = x.expandQ(a, pos)
		}
		if t.op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	case "=>":
		return c.Imp(x.expandQ(t.args[0], !pos), x.expandQ(t.args[1], pos))
	case "not":
		return c.Not(x.expandQ(t.args[0], !pos))
	case "=":
		if !t.bnd && t.args[0].sort == SBool && (hasQuant(t.args[0]) || hasQuant(t.args[1])) {
			return c.And(x.expandQ(c.Imp(t.args[0], t.args[1]), pos), x.expandQ(c.Imp(t.args[1], t.args[0]), pos))
		}
	case "ite":
		if t.sort == SBool {
			return c.Ite(t.args[0], x.expandQ(t.args[1], pos), x.expandQ(t.args[2], pos))
		}
	case "forall", "exists":
		if (t.op == "forall") != pos || len(t.trigs) > 0 {
			return t
		}
		if r, ok := x.qcache[t]; ok {
			return r
		}
		q := t
		if b := x.expandQ(t.args[0], pos); b != t.args[0] {
			q = c.quant(t.op, t.qvars, t.trigs, b)
		}
		r := x.versions(q)
		x.qcache[t] = r
		return r
	}
	return t
}

// hasQuant tells whether a quantifier occurs in the propositional structure of t.
func hasQuant(t *Term) bool {
	switch t.op {
	case "forall", "exists":
		return true
	case "and", "or", "=>", "not", "=", "ite":
		if t.sort != SBool {
			return false
		}
		for _, a := range t.args {
			if a.sort == SBool && hasQuant(a) {
				return true
			}
		}
	}
	return false
}

func (x *X) versions(t *Term) *Term {
	c := x.c
	if len(t.qvars) != 1 {
		return x.versionsN(t)
	}
	v := t.qvars[0]
	if v.sort != SInt {
		tr := x.patterns(t.args[0], v, v)
		if len(tr) == 0 {
			return t
		}
		return c.quant(t.op, t.qvars, tr, t.args[0])
	}
	own := c.ownVars(t)
	// offsets the variable is used with
	offs := []*Term{}
	have := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] || !u.bnd {
			return
		}
		seen[u] = true
		if u.op == "select" || u.op == "app" {
			for _, a := range u.args {
				if a.sort != SInt || !a.bnd || a.op == "app" || a.op == "select" {
					continue
				}
				l := c.lin(a)
				if m := l.coef[v]; m != nil && m.IsInt64() && m.Int64() == 1 {
					e := c.Sub(a, v)
					if !c.mentions(e, own) && !have[e] {
						have[e] = true
						offs = append(offs, e)
					}
				}
			}
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(t.args[0])
	var vs []*Term
	for _, e := range offs {
		b := t.args[0]
		if e.op != "int" || e.n.Sign() != 0 {
			b = c.Subst(b, map[*Term]*Term{v: c.Sub(v, e)})
		}
		tr := x.patterns(b, v, v)
		if len(tr) > 0 {
			vs = append(vs, c.quant(t.op, t.qvars, tr, b))
		}
	}
	if len(vs) == 0 {
		return t
	}
	if t.op == "forall" {
		return c.And(vs...)
	}
	return c.Or(vs...)
}

// versionsN chooses triggers for a quantifier over several variables: a term for each of them.
func (x *X) versionsN(t *Term) *Term {
	c := x.c
	body := t.args[0]
	m := map[*Term]*Term{}
	for _, v := range t.qvars {
		if v.sort != SInt {
			continue
		}
		var off *Term
		found := false
		seen := map[*Term]bool{}
		var walk func(u *Term)
		walk = func(u *Term) {
			if seen[u] || !u.bnd || found {
				return
			}
			seen[u] = true
			if u.op == "select" || u.op == "app" {
				for _, a := range u.args {
					if a.sort != SInt || !a.bnd || a.op == "app" || a.op == "select" {
						continue
					}
					l := c.lin(a)
					if k := l.coef[v]; k != nil && k.IsInt64() && k.Int64() == 1 {
						if e := c.Sub(a, v); !e.bnd {
							off, found = e, true
							return
						}
					}
				}
			}
			for _, a := range u.args {
				walk(a)
			}
		}
		walk(body)
		if off != nil && (off.op != "int" || off.n.Sign() != 0) {
			m[v] = c.Sub(v, off)
		}
	}
	if len(m) > 0 {
		body = c.Subst(body, m)
	}
	combos := [][]*Term{nil}
	for _, v := range t.qvars {
		ps := x.patterns(body, v, t.qvars...)
		if len(ps) == 0 {
			return t
		}
		if len(ps) > 2 {
			ps = ps[:2]
		}
		var next [][]*Term
		for _, cb := range combos {
			for _, p := range ps {
				next = append(next, append(cb[:len(cb):len(cb)], p...))
			}
		}
		combos = next
	}
	if len(combos) > 4 {
		combos = combos[:4]
	}
	return c.quant(t.op, t.qvars, combos, body)
}

// patterns lists terms of body usable as triggers for variable v.
func (x *X) patterns(body, v *Term, qs ...*Term) [][]*Term {
	c := x.c
	var out [][]*Term
	seen := map[*Term]bool{}
	own := c.ownVars(body)
	for _, q := range qs {
		own[q] = true
	}
	okArg := func(a *Term) bool { return a == v || !c.mentions(a, own) }
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] || !u.bnd {
			return
		}
		seen[u] = true
		if u.op == "select" || u.op == "app" && u.name != "eqs" {
			n, ok := 0, true
			for _, a := range u.args {
				if a == v {
					n++
				}
				if !okArg(a) {
					ok = false
				}
			}
			if ok && n > 0 {
				out = append(out, []*Term{u})
			}
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(body)
	_ = c
	if len(out) > 20 {
		out = out[:20]
	}
	return out
}

// ownVars are the variables bound by t or within it.
func (c *Ctx) ownVars(t *Term) map[*Term]bool {
	own := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		for _, v := range u.qvars {
			own[v] = true
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(t)
	return own
}

// mentions reports whether any of the variables occur in t.
func (c *Ctx) mentions(t *Term, vars map[*Term]bool) bool {
	if !t.bnd {
		return false
	}
	free := map[*Term]bool{}
	c.collectBound(t, map[*Term]bool{}, free)
	for v := range free {
		if vars[v] {
			return true
		}
	}
	return false
}

type subgoal struct {
	assume []*Term
	goal   *Term
}

// splitGoal skolemizes and splits a goal.
func (x *X) splitGoal(assume []*Term, goal *Term) []subgoal {
	c := x.c
	switch goal.op {
	case "and":
		var out []subgoal
		for _, g := range goal.args {
			out = append(out, x.splitGoal(assume, g)...)
		}
		return out
	case "=>":
		return x.splitGoal(append(assume[:len(assume):len(assume)], goal.args[0]), goal.args[1])
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range goal.qvars {
			m[v] = c.Fresh("sk_"+strings.SplitN(v.name, "?", 2)[0], v.sort)
		}
		return x.splitGoal(assume, c.Subst(goal.args[0], m))
	case "ite":
		a := x.splitGoal(append(assume[:len(assume):len(assume)], goal.args[0]), goal.args[1])
		return append(a, x.splitGoal(append(assume[:len(assume):len(assume)], c.Not(goal.args[0])), goal.args[2])...)
	case "=":
		if goal.args[0].sort == SBool {
			a := x.splitGoal(append(assume[:len(assume):len(assume)], goal.args[0]), goal.args[1])
			return append(a, x.splitGoal(append(assume[:len(assume):len(assume)], goal.args[1]), goal.args[0])...)
		}
	case "or":
		// not a or forall ...: skolemize one disjunct
		for i, d := range goal.args {
			if d.op == "forall" || d.op == "and" || d.op == "=>" {
				var rest []*Term
				for j, o := range goal.args {
					if j != i {
						rest = append(rest, c.Not(o))
					}
				}
				return x.splitGoal(append(assume[:len(assume):len(assume)], rest...), d)
			}
		}
	case "not":
		if goal.args[0].op == "exists" {
			q := goal.args[0]
			m := map[*Term]*Term{}
			for _, v := range q.qvars {
				m[v] = c.Fresh("sk_"+strings.SplitN(v.name, "?", 2)[0], v.sort)
			}
			return x.splitGoal(assume, c.Not(c.Subst(q.args[0], m)))
		}
		if goal.args[0].op == "and" {
			// assume all but ... : leave
		}
	}
	return []subgoal{{assume, x.posEq(goal)}}
}

// posEq replaces equalities of sequences in positive position by extensional ones.
func (x *X) posEq(t *Term) *Term {
	c := x.c
	switch t.op {
	case "=":
		if t.args[0].sort == SSeq {
			return c.App("eqs", t.args[0], t.args[1])
		}
	case "and":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.posEq(a))
		}
		return c.And(as...)
	case "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, x.posEq(a))
		}
		return c.Or(as...)
	case "=>":
		return c.Imp(t.args[0], x.posEq(t.args[1]))
	case "not":
		// negated equality of sequences as an assumption is fine
		return t
	}
	return t
}

// ---- locations

// havocLoc gives an arbitrary value to a location of a modifies clause.
func (x *X) havocLoc(st *State, e *SEnv, ex *Expr) {
	c := x.c
	old := e.st
	if e.old != nil {
		oe := *e
		oe.st = e.old
		e = &oe
		// locations are those of the state before
	}
	defer func() { e.st = old }()
	switch ex.op {
	case "id":
		if ex.s == "everything" {
			st.x.epoch++
			st.heap = map[string]*Term{}
			st.base = st.x.epoch
			return
		}
		if g := x.P.specs.Ghosts[ex.s]; g != nil {
			s, _ := parseSort(g.typ)
			x.keySort["g:"+ex.s] = s
			st.heap["g:"+ex.s] = c.Fresh("g:"+ex.s, s)
			return
		}
		if g := x.P.specs.GFields[ex.s]; g != nil {
			// the ghost field of every object
			key := "gf:" + g.name
			s, _ := parseSort(g.typ)
			x.keySort[key] = row(s)
			h := c.Fresh(key, row(s))
			c.hvEpoch[h] = x.epoch
			st.heap[key] = h
			return
		}
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(ex.s).(*types.Var); ok {
				p := x.globalPtr(x.P.globals[shortPkg(o.Pkg())+"."+o.Name()])
				st.store(p, o.Type(), st.freshVal(ex.s, o.Type()))
				return
			}
		}
	case "field":
		p := e.addr(ex)
		t := p.T.Underlying().(*types.Pointer).Elem()
		st.store(p, t, st.freshVal(ex.s, t))
		return
	case "deref":
		p := e.eval(ex.args[0])
		t := p.T.Underlying().(*types.Pointer).Elem()
		st.store(p, t, st.freshVal("deref", t))
		return
	case "idx":
		v := e.eval(ex.args[0])
		i := e.eval(ex.args[1])
		if v.T == nil && ex.args[0].op == "id" {
			// one entry of a ghost map
			key := "g:" + ex.args[0].s
			cur := st.heapGet(key, v.t().sort)
			_, rs := arrParts(cur.sort)
			st.heap[key] = c.Store(cur, i.t(), c.Fresh(key, rs))
			return
		}
		if m, ok := v.T.Underlying().(*types.Map); ok {
			st.mapPut(v, i.t(), st.freshVal("mv", m.Elem()))
			return
		}
		if s, ok := v.T.Underlying().(*types.Slice); ok {
			p := &Val{T: types.NewPointer(s.Elem()), ts: []*Term{v.ts[0], c.Add(v.ts[1], i.t())}}
			st.store(p, s.Elem(), st.freshVal("elem", s.Elem()))
			return
		}
	case "sub":
		v := e.eval(ex.args[0])
		et := elemType(v.T)
		lo, hi := v.ts[1], c.Add(v.ts[1], v.ts[2])
		for _, k := range x.elemKeys(et) {
			h := st.heapGet(k.suf, row(k.sort))
			nr := c.Fresh("H:"+k.suf, arr(SInt, k.sort))
			c.hvEpoch[nr] = x.epoch
			or := c.Select(h, v.ts[0])
			i := c.Bound("i", SInt)
			st.assume(c.Forall([]*Term{i}, [][]*Term{{c.Select(nr, i)}}, c.Or(c.And(c.Le(lo, i), c.Lt(i, hi)), c.Eq(c.Select(nr, i), c.Select(or, i)))))
			st.heap[k.suf] = c.Store(h, v.ts[0], nr)
		}
		return
	case "call":
		if ex.s == "entries" {
			m := e.eval(ex.args[0])
			dom, ks, vals := x.mapKeys(m.T)
			for _, k := range append(vals, comp{dom, SBool}) {
				h := st.heapGet(k.suf, mapSort(ks, k.sort))
				nr := c.Fresh("H:"+k.suf, arr(ks, k.sort))
				c.hvEpoch[nr] = x.epoch
				st.heap[k.suf] = c.Store(h, m.t(), nr)
			}
			ck := st.cardKey(m)
			n := c.Fresh("card", SInt)
			n.lo, n.hi = new(big.Int), maxLen
			st.heap[ck] = c.Store(st.heapGet(ck, arr(SInt, SInt)), m.t(), n)
			return
		}
		if ex.s == "spare" {
			// the unused capacity of a slice
			v := e.eval(ex.args[0])
			lo, hi := c.Add(v.ts[1], v.ts[2]), c.Add(v.ts[1], v.ts[3])
			for _, k := range x.elemKeys(elemType(v.T)) {
				h := st.heapGet(k.suf, row(k.sort))
				nr := c.Fresh("H:"+k.suf, arr(SInt, k.sort))
				c.hvEpoch[nr] = x.epoch
				or := c.Select(h, v.ts[0])
				i := c.Bound("i", SInt)
				st.assume(c.Forall([]*Term{i}, [][]*Term{{c.Select(nr, i)}}, c.Or(c.And(c.Le(lo, i), c.Lt(i, hi)), c.Eq(c.Select(nr, i), c.Select(or, i)))))
				if k.suf == "uint8" {
					st.assume(c.Eq(c.View(nr, v.ts[1], v.ts[2]), c.View(or, v.ts[1], v.ts[2])))
				}
				st.heap[k.suf] = c.Store(h, v.ts[0], nr)
			}
			return
		}
		if ex.s == "row" {
			v := e.eval(ex.args[0])
			et := elemType(v.T)
			for _, k := range x.elemKeys(et) {
				h := st.heapGet(k.suf, row(k.sort))
				nr := c.Fresh("H:"+k.suf, arr(SInt, k.sort))
				c.hvEpoch[nr] = x.epoch
				// there is nothing at nil
				st.heap[k.suf] = c.Store(h, v.ts[0], c.Ite(c.Eq(v.ts[0], c.Int(0)), c.Select(h, c.Int(0)), nr))
			}
			return
		}
		if ex.s == "heap" {
			// heap("type"...): everything stored anywhere as part of a value of the type
			for _, a := range ex.args {
				for _, k := range x.elemKeys(x.goType(a.s)) {
					x.keySort[k.suf] = row(k.sort)
					h := c.Fresh("H:"+k.suf, row(k.sort))
					c.hvEpoch[h] = x.epoch
					st.heap[k.suf] = h
				}
			}
			return
		}
		if g := x.P.specs.GFields[ex.s]; g != nil {
			p := e.eval(ex.args[0])
			s, _ := parseSort(g.typ)
			idx := c.Int(0)
			if len(p.ts) == 2 {
				idx = p.ts[1]
			}
			st.put2("gf:"+g.name, s, p.ts[0], idx, c.Fresh("gf:"+g.name, s))
			return
		}
	}
	e.fail("can't modify %s", showExpr(ex))
}

// allowed builds the condition under which a modifies clause covers entry (r, i) of a heap key.
func (x *X) allowed(e *SEnv, ex *Expr, key string, r, i *Term) *Term {
	c := x.c
	leafs := func(p *Val, t types.Type) *Term {
		var cs []*Term
		var rec func(p *Val, t types.Type)
		rec = func(p *Val, t types.Type) {
			if x.isLeaf(t) {
				k := x.ptrKey(p, t)
				for _, cp := range x.comps(t) {
					if k+cp.suf == key {
						cs = append(cs, c.And(c.Eq(r, p.ts[0]), c.Eq(i, p.ts[1])))
					}
				}
				return
			}
			switch u := t.Underlying().(type) {
			case *types.Struct:
				pp := *p
				pp.T = types.NewPointer(t)
				for j := 0; j < u.NumFields(); j++ {
					rec(x.fieldAddr(&pp, j), u.Field(j).Type())
				}
			case *types.Array:
				for _, k := range x.elemKeys(u.Elem()) {
					if k.suf == key {
						cs = append(cs, c.And(c.Eq(r, p.ts[0]), c.Le(p.ts[1], i), c.Lt(i, c.AddK(p.ts[1], u.Len()))))
					}
				}
			}
		}
		rec(p, t)
		return c.Or(cs...)
	}
	switch ex.op {
	case "id":
		if ex.s == "everything" {
			return c.True
		}
		if x.P.specs.Ghosts[ex.s] != nil {
			return c.Bool(key == "g:"+ex.s)
		}
		if x.P.specs.GFields[ex.s] != nil {
			return c.Bool(key == "gf:"+ex.s)
		}
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(ex.s).(*types.Var); ok {
				return leafs(x.globalPtr(x.P.globals[shortPkg(o.Pkg())+"."+o.Name()]), o.Type())
			}
		}
	case "field":
		p := e.addr(ex)
		return leafs(p, p.T.Underlying().(*types.Pointer).Elem())
	case "deref":
		p := e.eval(ex.args[0])
		return leafs(p, p.T.Underlying().(*types.Pointer).Elem())
	case "idx":
		v := e.eval(ex.args[0])
		if v.T == nil {
			if key == "g:"+ex.args[0].s {
				return c.Eq(r, e.eval(ex.args[1]).t())
			}
			return c.False
		}
		if _, ok := v.T.Underlying().(*types.Map); ok {
			k := e.eval(ex.args[1])
			dom, _, vals := x.mapKeys(v.T)
			for _, kk := range append(vals, comp{dom, SBool}) {
				if kk.suf == key && i.sort == k.t().sort {
					return c.And(c.Eq(r, v.t()), c.Eq(i, k.t()))
				}
			}
			if key == e.st.cardKey(v) {
				return c.Eq(r, v.t())
			}
			return c.False
		}
		if _, ok := v.T.Underlying().(*types.Slice); ok {
			for _, k := range x.elemKeys(elemType(v.T)) {
				if k.suf == key {
					return c.And(c.Eq(r, v.ts[0]), c.Eq(i, c.Add(v.ts[1], e.eval(ex.args[1]).t())))
				}
			}
			return c.False
		}
	case "sub":
		v := e.eval(ex.args[0])
		for _, k := range x.elemKeys(elemType(v.T)) {
			if k.suf == key {
				return c.And(c.Eq(r, v.ts[0]), c.Le(v.ts[1], i), c.Lt(i, c.Add(v.ts[1], v.ts[2])))
			}
		}
		return c.False
	case "call":
		switch ex.s {
		case "entries":
			m := e.eval(ex.args[0])
			dom, _, vals := x.mapKeys(m.T)
			for _, k := range append(vals, comp{dom, SBool}, comp{e.st.cardKey(m), SInt}) {
				if k.suf == key {
					return c.Eq(r, m.t())
				}
			}
			return c.False
		case "spare":
			v := e.eval(ex.args[0])
			for _, k := range x.elemKeys(elemType(v.T)) {
				if k.suf == key {
					return c.And(c.Eq(r, v.ts[0]), c.Le(c.Add(v.ts[1], v.ts[2]), i), c.Lt(i, c.Add(v.ts[1], v.ts[3])))
				}
			}
			return c.False
		case "row":
			v := e.eval(ex.args[0])
			for _, k := range x.elemKeys(elemType(v.T)) {
				if k.suf == key {
					return c.Eq(r, v.ts[0])
				}
			}
			return c.False
		case "heap":
			for _, a := range ex.args {
				for _, k := range x.elemKeys(x.goType(a.s)) {
					if k.suf == key {
						return c.True
					}
				}
			}
			return c.False
		}
		if g := x.P.specs.GFields[ex.s]; g != nil {
			if key != "gf:"+g.name {
				return c.False
			}
			p := e.eval(ex.args[0])
			idx := c.Int(0)
			if len(p.ts) == 2 {
				idx = p.ts[1]
			}
			return c.And(c.Eq(r, p.ts[0]), c.Eq(i, idx))
		}
	}
	e.fail("modifies %s", showExpr(ex))
	return nil
}

// comprehension is the array of the values of an expression: arr i :: e.
func (e *SEnv) comprehension(ex *Expr) *Val {
	x := e.x
	c := x.c
	if len(ex.vars) != 1 {
		e.fail("arr: one variable expected")
	}
	b := c.Bound(ex.vars[0].name, SInt)
	v := e.with(ex.vars[0].name, pure(b)).eval(ex.args[0])
	var t *Term
	if len(v.ts) != 1 || v.T != nil && v.ts[0].sort != SBool && v.ts[0].sort != SInt {
		t = e.with(ex.vars[0].name, pure(b)).seq(v)
	} else {
		t = v.ts[0]
	}
	if x.arrB == nil {
		x.arrB = c.Bound("arr", SInt)
		x.arrs = map[*Term]*Term{}
		x.arrDef = map[*Term]*Term{}
		x.arrSrc = map[*Term]string{}
	}
	body := c.Subst(t, map[*Term]*Term{b: x.arrB})
	if a := x.arrs[body]; a != nil {
		return pure(a)
	}
	if !c.Subst(body, map[*Term]*Term{x.arrB: c.Int(0)}).bnd {
		a := c.Fresh("arr", arr(SInt, t.sort))
		x.arrs[body] = a
		el := c.Select(a, x.arrB)
		d := c.Forall([]*Term{x.arrB}, [][]*Term{{el}}, c.Eq(el, body))
		if body.op == "select" && (body.sort == SBool || body.sort == SInt) && !body.args[0].bnd && body.args[1].bnd {
			// also where the element itself occurs
			if off := c.Sub(body.args[1], x.arrB); !off.bnd {
				nb := c.Subst(body, map[*Term]*Term{x.arrB: c.Sub(x.arrB, off)})
				d = c.And(d, c.Forall([]*Term{x.arrB}, [][]*Term{{nb}}, c.Eq(nb, c.Select(a, c.Sub(x.arrB, off)))))
			}
		}
		x.arrDef[a] = d
		x.arrSrc[a] = showExpr(ex)
		return pure(a)
	}
	e.fail("arr: depends on a quantified variable")
	return nil
}

// arrAxioms are the definitions of the comprehensions that occur in terms.
func (x *X) arrAxioms(ts []*Term) []*Term {
	if len(x.arrDef) == 0 {
		return nil
	}
	var out []*Term
	seen := map[*Term]bool{}
	same := map[string][]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if d := x.arrDef[t]; d != nil {
			out = append(out, d)
			// the same expression at another time: elements of the one are of interest
			// where elements of the other are
			c := x.c
			for _, o := range same[x.arrSrc[t]] {
				if o.sort != t.sort {
					continue
				}
				p, q := c.Select(t, x.arrB), c.Select(o, x.arrB)
				out = append(out, c.Forall([]*Term{x.arrB}, [][]*Term{{p}}, x.uf("ping:"+string(q.sort), SBool, q)), c.Forall([]*Term{x.arrB}, [][]*Term{{q}}, x.uf("ping:"+string(p.sort), SBool, p)))
			}
			same[x.arrSrc[t]] = append(same[x.arrSrc[t]], t)
			walk(d)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// bridges relates elements of byte arrays to elements of views of these arrays.
func (x *X) bridges(ts []*Term) []*Term {
	c := x.c
	views := map[*Term][]*Term{}
	sels := map[*Term][]*Term{}
	seen := map[*Term]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !t.bnd {
			if t.op == "app" && t.name == "view" {
				a := t.args[0]
				if views[a] == nil {
					order = append(order, a)
				}
				views[a] = append(views[a], t)
			}
			if t.op == "select" && t.sort == SInt && !isArr(t.sort) {
				sels[t.args[0]] = append(sels[t.args[0]], t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	var out []*Term
	for _, a := range order {
		if len(views[a])*len(sels[a]) > 100 {
			continue
		}
		for _, v := range views[a] {
			for _, s := range sels[a] {
				k := c.Sub(s.args[1], v.args[1])
				n := c.mk("app", "nth", []*Term{v, k}, SInt)
				out = append(out, c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, v.args[2])), c.Eq(n, s)))
			}
		}
	}
	return out
}
