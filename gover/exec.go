package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// X verifies one function.
type X struct {
	c        *Ctx
	P        *Program
	key      string
	fn       *ssa.Function
	con      *Contract
	obls     []*Obl
	quiet    int
	epoch    int
	keySort  map[string]Sort
	fids     map[string]int
	fidOwner map[int]string
	known    map[*Term]*Val
	entry    *State
	params   map[string]*Val
	paths    int
	returns  int
	trusted  map[string]bool
	inlined  map[string]bool
	called   map[string]bool
	noMod    map[string]bool // contracts not to be used: inline instead
	uses     map[string]bool // lemmas available
	hides    map[string]bool
	steps    int
	deadline time.Time
	retPCs   [][]*Term
	recAx    map[string]*Term
	loopsN   int
	measured int
	hidden   int // invariants kept
	holdChk  bool
	failMsg  string

	lemT      map[string]*lemTerm
	arrB      *Term
	arrs      map[*Term]*Term
	arrDef    map[*Term]*Term
	arrSrc    map[*Term]string
	recT      map[string][]*Term
	lemOrd    int
	lemUsed   map[string]bool
	loopMods  map[*Loop]map[string]*mods
	loopDead  map[loopVisit]map[string]bool
	loopCache map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	mustOK    map[string]bool
	mustBad   map[string]*Obl
	havocs    map[*Term]*havocInfo
	nameCache map[*ssa.Function]map[string][]ssa.Value
	globUsed  bool
	qcache    map[*Term]*Term
}

type Obl struct {
	Name   string
	Pos    string
	assume []*Term
	goal   *Term
	trail  string
	ok     bool
	by     string
	script string
	secs   float64
	must   bool // failed already
	goalS  string
}

func NewX(P *Program, key string) *X {
	return &X{c: NewCtx(), P: P, key: key, keySort: map[string]Sort{}, fids: map[string]int{}, fidOwner: map[int]string{}, known: map[*Term]*Val{},
		trusted: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, noMod: map[string]bool{}, uses: map[string]bool{}, hides: map[string]bool{}, params: map[string]*Val{}, recAx: map[string]*Term{},
		qcache: map[*Term]*Term{}, lemUsed: map[string]bool{}, mustOK: map[string]bool{}, mustBad: map[string]*Obl{}, havocs: map[*Term]*havocInfo{},
		loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}}
}

type Env struct {
	m      map[ssa.Value]*Val
	defers []*deferred
}

func (e *Env) clone() *Env {
	m := make(map[ssa.Value]*Val, len(e.m)+8)
	for k, v := range e.m {
		m[k] = v
	}
	return &Env{m: m, defers: e.defers[:len(e.defers):len(e.defers)]}
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Val
	args []*Val
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	key    string
	parent *Frame
	depth  int
	loops  map[*ssa.BasicBlock]*Loop
	binds  []*Val
	args   []*Val
	names  map[string]*Val // contract names of parameters
}

type Cont func(st *State, res []*Val)

type Ctl struct {
	run  *LoopRun
	prev *Ctl
}

const maxSteps = 400000

func (x *X) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.P.fset.Position(p)
	return strings.TrimPrefix(q.Filename, x.P.dir+"/") + ":" + fmt.Sprint(q.Line)
}

// oblige records a proof obligation and continues with the goal assumed.
func (x *X) oblige(st *State, goal *Term, name string, p token.Pos) {
	if goal == x.c.True {
		return
	}
	if x.quiet == 0 {
		known := false
		for q := st.pc; q != nil; q = q.prev {
			if q.t == goal {
				known = true
				break
			}
		}
		if known {
			return
		}
		x.addObl(st, goal, name, p)
	}
	st.assume(goal)
}

func (x *X) addObl(st *State, goal *Term, name string, p token.Pos) {
	var tr []string
	for t := st.path; t != nil; t = t.prev {
		tr = append(tr, t.s)
	}
	for i, j := 0, len(tr)-1; i < j; i, j = i+1, j-1 {
		tr[i], tr[j] = tr[j], tr[i]
	}
	x.obls = append(x.obls, &Obl{Name: name, Pos: x.pos(p), assume: st.facts(), goal: goal, trail: strings.Join(tr, " ")})
}

var pruneTimeout = 300 * time.Millisecond

// entails asks the solver whether goal holds in st.
// lastFail is the last query of the loop analysis that failed (for development).
var lastFail string

func (x *X) entails(st *State, goal *Term, tmo time.Duration) bool {
	return x.entails2(st, goal, tmo, 0)
}

func (x *X) entails2(st *State, goal *Term, tmo, slow time.Duration) bool {
	return proveAll(x.queries(st, goal), tmo, slow)
}

// queries are the solver queries that together show that goal holds in st; nil if it
// obviously does, one that fails if it obviously doesn't.
func (x *X) queries(st *State, goal *Term) []string {
	if goal == x.c.True {
		return nil
	}
	for p := st.pc; p != nil; p = p.prev {
		if p.t == goal || p.t == x.c.False {
			return nil
		}
	}
	if x.c.False == goal && st.pc == nil {
		return []string{""}
	}
	var out []string
	for _, g := range x.splitGoal(st.facts(), goal) {
		out = append(out, x.script(g.assume, g.goal))
	}
	return out
}

var lastFailMu sync.Mutex

func proveAll(qs []string, tmo, slow time.Duration) bool {
	for _, sc := range qs {
		if sc == "" {
			return false
		}
		if r, _ := Prove(sc, tmo, slow); !r {
			lastFailMu.Lock()
			lastFail = sc
			lastFailMu.Unlock()
			return false
		}
	}
	return true
}

// parallel runs f(0), ..., f(n-1) at the same time.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f(i)
		}(i)
	}
	wg.Wait()
}

func (x *X) note(st *State, format string, a ...interface{}) {
	st.path = &Trail{fmt.Sprintf(format, a...), st.path}
}

// ---- values

func (x *X) constVal(cst *ssa.Const) *Val {
	t := cst.Type()
	if cst.Value == nil {
		return x.zero(t)
	}
	c := x.c
	switch cst.Value.Kind() {
	case constant.Bool:
		return &Val{T: t, ts: []*Term{c.Bool(constant.BoolVal(cst.Value))}}
	case constant.String:
		return &Val{T: t, ts: []*Term{c.Lit(constant.StringVal(cst.Value))}}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return &Val{T: t, ts: []*Term{c.Var("f:"+cst.Value.ExactString(), SFlt)}}
	}
	iv := constant.ToInt(cst.Value)
	if iv.Kind() == constant.Int {
		n, _ := new(big.Int).SetString(iv.ExactString(), 10)
		return &Val{T: t, ts: []*Term{c.BigInt(n)}}
	}
	panic(unsupported("constant " + cst.String()))
}

func (x *X) globalPtr(g *ssa.Global) *Val {
	t := g.Type().(*types.Pointer).Elem()
	k := globKey(g)
	if x.isLeaf(t) && (!x.foreignStruct(t) || isTime(t)) {
		return &Val{T: g.Type(), ts: []*Term{x.c.Int(999), x.c.Int(0)}, key: "G:" + k}
	}
	return &Val{T: g.Type(), ts: []*Term{x.c.Int(int64(1 + x.fieldID("G:"+k)%900)), x.c.Int(0)}}
}

func (x *X) val(fr *Frame, env *Env, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Function:
		return x.funcVal(v, nil)
	case *ssa.Builtin:
		return &Val{T: v.Type(), bi: v.Name()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.binds[i]
			}
		}
	}
	if r, ok := env.m[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), fr.key)))
}

// funcVal is a function value: a fresh identity for closures, a fixed one otherwise.
func (x *X) funcVal(f *ssa.Function, binds []*Val) *Val {
	var id *Term
	if len(binds) == 0 {
		id = x.c.Var("fn:"+FuncKey(f), SInt)
		id.lo = big.NewInt(1)
	} else {
		id = x.c.Fresh("clo:"+FuncKey(f), SInt)
		id.lo = big.NewInt(1)
	}
	v := &Val{T: f.Signature, ts: []*Term{id}, fn: f, binds: binds}
	x.known[id] = v
	return v
}

func (x *X) typeID(t types.Type) *Term {
	h := int64(7)
	for _, b := range []byte(types.TypeString(t, nil)) {
		h = (h*131 + int64(b)) % 1000000007
	}
	return x.c.Int(h + 10)
}

func (x *X) box(st *State, v *Val, it types.Type) *Val {
	if types.IsInterface(v.T) {
		n := *v
		n.T = it
		return &n
	}
	c := x.c
	fl := flat(v)
	var sorts []Sort
	for _, t := range fl {
		sorts = append(sorts, t.sort)
	}
	tk := typeFull(v.T)
	name := "box:" + tk
	c.DeclFun(name, sorts, SInt)
	id := c.App(name, fl...)
	if id.lo == nil {
		id.lo = big.NewInt(1)
	}
	st.assume(c.Eq(c.App("ity", id), x.typeID(v.T)))
	for i, t := range fl {
		un := fmt.Sprintf("unbox:%s:%d", tk, i)
		c.DeclFun(un, []Sort{SInt}, t.sort)
		st.assume(c.Eq(c.App(un, id), t))
	}
	r := &Val{T: it, ts: []*Term{id}, dyn: v}
	x.known[id] = r
	return r
}

func typeFull(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p) })
}

func (x *X) unbox(st *State, id *Term, t types.Type) *Val {
	if k, ok := x.known[id]; ok && k.dyn != nil && types.Identical(k.dyn.T, t) {
		return k.dyn
	}
	c := x.c
	tk := typeFull(t)
	var ts []*Term
	for i, cp := range x.flatComps(t) {
		un := fmt.Sprintf("unbox:%s:%d", tk, i)
		c.DeclFun(un, []Sort{SInt}, cp)
		ts = append(ts, c.App(un, id))
	}
	v, _ := x.unflat(t, ts)
	st.wfDeep(v)
	return v
}

func (x *X) flatComps(t types.Type) (out []Sort) {
	if x.isLeaf(t) {
		for _, cp := range x.comps(t) {
			out = append(out, cp.sort)
		}
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, x.flatComps(s.Field(i).Type())...)
		}
		return
	}
	panic(unsupported("boxing " + t.String()))
}

// eq is Go's == on two values of the same type.
func (x *X) eq(a, b *Val) *Term {
	c := x.c
	if len(a.fs) > 0 {
		var cs []*Term
		for i := range a.fs {
			cs = append(cs, x.eq(a.fs[i], b.fs[i]))
		}
		return c.And(cs...)
	}
	if a.T != nil {
		if _, ok := a.T.Underlying().(*types.Slice); ok { // comparison with nil
			if b.ts[0].op == "int" {
				return c.Eq(a.ts[0], b.ts[0])
			}
			if a.ts[0].op == "int" {
				return c.Eq(a.ts[0], b.ts[0])
			}
		}
	}
	var cs []*Term
	for i := range a.ts {
		cs = append(cs, c.Eq(a.ts[i], b.ts[i]))
	}
	return c.And(cs...)
}

// ---- execution

func (x *X) newFrame(fn *ssa.Function, parent *Frame, args, binds []*Val) *Frame {
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	return &Frame{fn: fn, key: FuncKey(fn), parent: parent, depth: d, loops: x.loops(fn), binds: binds, args: args}
}

func (x *X) runFunc(fr *Frame, st *State, k Cont) {
	env := &Env{m: map[ssa.Value]*Val{}}
	for i, p := range fr.fn.Params {
		env.m[p] = fr.args[i]
	}
	x.goTo(fr, env, st, nil, fr.fn.Blocks[0], nil, k)
}

// goTo follows a control flow edge.
func (x *X) goTo(fr *Frame, env *Env, st *State, pred, b *ssa.BasicBlock, ctl *Ctl, k Cont) {
	for ctl != nil && !ctl.run.loop.body[b] {
		if ctl.run.discover {
			ctl.run.exited(fr, env, st, pred, b)
			return
		}
		ctl = ctl.prev
	}
	if ctl != nil && ctl.run.loop.header == b {
		ctl.run.back(fr, env, st, pred)
		return
	}
	if l := fr.loops[b]; l != nil {
		x.enterLoop(fr, env, st, pred, l, ctl, k)
		return
	}
	x.enterBlock(fr, env, st, pred, b, ctl, k)
}

func (x *X) phis(fr *Frame, env *Env, pred, b *ssa.BasicBlock) map[*ssa.Phi]*Val {
	out := map[*ssa.Phi]*Val{}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[ph] = x.val(fr, env, ph.Edges[pi])
	}
	return out
}

func (x *X) enterBlock(fr *Frame, env *Env, st *State, pred, b *ssa.BasicBlock, ctl *Ctl, k Cont) {
	for ph, v := range x.phis(fr, env, pred, b) {
		n := *v
		n.T = ph.Type()
		env.m[ph] = &n
	}
	x.instrs(fr, env, st, b, 0, ctl, k)
}

func (x *X) instrs(fr *Frame, env *Env, st *State, b *ssa.BasicBlock, i int, ctl *Ctl, k Cont) {
	for ; i < len(b.Instrs); i++ {
		if st.dead() {
			return
		}
		x.steps++
		if x.steps > maxSteps || x.steps%64 == 0 && time.Now().After(x.deadline) {
			panic(unsupported("too many paths"))
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.goTo(fr, env, st, b, b.Succs[0], ctl, k)
			return
		case *ssa.If:
			x.branch(fr, env, st, b, in, ctl, k)
			return
		case *ssa.Return:
			for c := ctl; c != nil; c = c.prev {
				if c.run.discover {
					return
				}
			}
			var res []*Val
			for _, r := range in.Results {
				v := *x.val(fr, env, r)
				res = append(res, &v)
			}
			for j := range res {
				res[j].T = fr.fn.Signature.Results().At(j).Type()
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.oblige(st, x.c.False, "panic is unreachable", in.Pos())
			return
		case *ssa.RunDefers:
			if len(env.defers) > 0 {
				ds := env.defers
				env.defers = nil
				rest := i + 1
				x.runDefers(fr, st, ds, func(st2 *State) {
					x.instrs(fr, env.clone(), st2, b, rest, ctl, k)
				})
				return
			}
		case *ssa.Defer:
			d := &deferred{call: &in.Call, pos: in.Pos()}
			d.fn, d.args = x.callee(fr, env, &in.Call)
			env.defers = append(env.defers[:len(env.defers):len(env.defers)], d)
		case *ssa.Go:
			x.goStmt(fr, env, st, in)
		case *ssa.Call:
			f, args := x.callee(fr, env, &in.Call)
			rest := i + 1
			x.call(fr, st, &in.Call, f, args, in.Pos(), func(st2 *State, res []*Val) {
				e := env.clone()
				e.m[in] = tupleVal(in.Type(), res)
				x.instrs(fr, e, st2, b, rest, ctl, k)
			})
			return
		case *ssa.Select:
			rest := i + 1
			x.selectStmt(fr, env, st, in, func(st2 *State, v *Val) {
				e := env.clone()
				e.m[in] = v
				x.instrs(fr, e, st2, b, rest, ctl, k)
			})
			return
		case *ssa.Store:
			p := x.val(fr, env, in.Addr)
			x.checkNil(st, p, in.Pos())
			t := in.Addr.Type().Underlying().(*types.Pointer).Elem()
			x.lockCheck(st, p, t, true, in.Pos())
			st.store(p, t, x.val(fr, env, in.Val))
		case *ssa.MapUpdate:
			m := x.val(fr, env, in.Map)
			x.oblige(st, x.c.Not(x.c.Eq(m.t(), x.c.Int(0))), "map written to isn't nil", in.Pos())
			st.mapPut(m, x.val(fr, env, in.Key).t(), x.val(fr, env, in.Value))
		case *ssa.Send:
			x.send(fr, env, st, in)
		case ssa.Value:
			env.m[in] = x.value(fr, env, st, in)
		default:
			panic(unsupported(fmt.Sprintf("instruction %T", in)))
		}
	}
}

func tupleVal(t types.Type, res []*Val) *Val {
	if len(res) == 1 {
		if _, ok := t.(*types.Tuple); !ok {
			return res[0]
		}
	}
	return &Val{T: t, fs: res}
}

func (x *X) branch(fr *Frame, env *Env, st *State, b *ssa.BasicBlock, in *ssa.If, ctl *Ctl, k Cont) {
	cond := x.val(fr, env, in.Cond).t()
	if cond == x.c.True {
		x.goTo(fr, env, st, b, b.Succs[0], ctl, k)
		return
	}
	if cond == x.c.False {
		x.goTo(fr, env, st, b, b.Succs[1], ctl, k)
		return
	}
	qs := [][]string{x.queries(st, cond), x.queries(st, x.c.Not(cond))}
	var yes [2]bool
	parallel(2, func(i int) { yes[i] = proveAll(qs[i], pruneTimeout, 0) })
	if yes[0] {
		st.assume(cond)
		x.goTo(fr, env, st, b, b.Succs[0], ctl, k)
		return
	}
	if yes[1] {
		st.assume(x.c.Not(cond))
		x.goTo(fr, env, st, b, b.Succs[1], ctl, k)
		return
	}
	st2, env2 := st.clone(), env.clone()
	line := 0
	if p := in.Cond.Pos(); p.IsValid() {
		line = x.P.fset.Position(p).Line
	}
	st.assume(cond)
	x.note(st, "%d:T", line)
	x.paths++
	x.goTo(fr, env, st, b, b.Succs[0], ctl, k)
	st2.assume(x.c.Not(cond))
	x.note(st2, "%d:F", line)
	x.goTo(fr, env2, st2, b, b.Succs[1], ctl, k)
}

func (x *X) runDefers(fr *Frame, st *State, ds []*deferred, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	x.call(fr, st, d.call, d.fn, d.args, d.pos, func(st2 *State, _ []*Val) {
		x.runDefers(fr, st2, ds[:len(ds)-1], k)
	})
}

func (x *X) checkNil(st *State, p *Val, pos token.Pos) {
	x.oblige(st, x.c.Not(x.c.Eq(p.ts[0], x.c.Int(0))), "no nil dereference", pos)
}

// wrap reduces t to the range of integer type T.
func (x *X) wrap(st *State, t *Term, T types.Type) *Term {
	lo, hi, ok := intRange(T)
	if !ok || t.op == "int" && t.n.Cmp(lo) >= 0 && t.n.Cmp(hi) <= 0 {
		return t
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	c := x.c
	in := c.And(c.Le(c.BigInt(lo), t), c.Le(t, c.BigInt(hi)))
	if x.entails(st, in, pruneTimeout) {
		st.assume(in)
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	w := c.Add(c.Mod(c.Sub(t, c.BigInt(lo)), c.BigInt(m)), c.BigInt(lo))
	// a single wrap around is easier to reason about
	if t.lo != nil && t.hi != nil && new(big.Int).Sub(lo, t.lo).Cmp(m) <= 0 && new(big.Int).Sub(t.hi, hi).Cmp(m) <= 0 {
		w = c.Ite(c.Lt(c.BigInt(hi), t), c.Sub(t, c.BigInt(m)), c.Ite(c.Lt(t, c.BigInt(lo)), c.Add(t, c.BigInt(m)), t))
		r := c.Fresh("wrap", SInt)
		r.lo, r.hi = lo, hi
		st.assume(c.Eq(r, w))
		return r
	}
	r := c.Fresh("wrap", SInt)
	r.lo, r.hi = lo, hi
	st.assume(c.Imp(in, c.Eq(r, t)))
	st.assume(c.Eq(r, w))
	return r
}

// tdiv is Go's truncated division.
func (x *X) tdiv(a, b *Term) *Term {
	c := x.c
	z := c.Int(0)
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		return c.Div(a, b)
	}
	neg := func(t *Term) *Term { return c.Sub(z, t) }
	abs := func(t *Term) *Term { return c.Ite(c.Le(z, t), t, neg(t)) }
	q := c.Div(abs(a), abs(b))
	return c.Ite(c.Eq(c.Le(z, a), c.Le(z, b)), q, neg(q))
}

func (x *X) trem(a, b *Term) *Term {
	c := x.c
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		return c.Mod(a, b)
	}
	return c.Sub(a, c.Mul(b, x.tdiv(a, b)))
}

func (x *X) uf(name string, res Sort, args ...*Term) *Term {
	var ss []Sort
	for _, a := range args {
		ss = append(ss, a.sort)
	}
	x.c.DeclFun(name, ss, res)
	return x.c.App(name, args...)
}

func (x *X) binop(st *State, op token.Token, a, b *Val, T types.Type, pos token.Pos) *Val {
	c := x.c
	bl := func(t *Term) *Val { return &Val{T: T, ts: []*Term{t}} }
	switch op {
	case token.EQL:
		return bl(x.eq(a, b))
	case token.NEQ:
		return bl(c.Not(x.eq(a, b)))
	}
	at, bt := a.t(), b.t()
	if at.sort == SFlt {
		n := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv", token.LSS: "flt", token.LEQ: "fle", token.GTR: "fgt", token.GEQ: "fge"}[op]
		if n == "" {
			panic(unsupported("float operation " + op.String()))
		}
		if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
			return bl(x.uf(n, SBool, at, bt))
		}
		return bl(x.uf(n, SFlt, at, bt))
	}
	if at.sort == SSeq {
		switch op {
		case token.ADD:
			r := c.Cat(at, bt)
			return bl(r)
		case token.LSS:
			return bl(c.App("sltlex", at, bt))
		case token.GTR:
			return bl(c.App("sltlex", bt, at))
		case token.LEQ:
			return bl(c.Not(c.App("sltlex", bt, at)))
		case token.GEQ:
			return bl(c.Not(c.App("sltlex", at, bt)))
		}
	}
	if at.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return bl(c.And(at, bt))
		case token.OR, token.LOR:
			return bl(c.Or(at, bt))
		}
	}
	switch op {
	case token.LSS:
		return bl(c.Lt(at, bt))
	case token.LEQ:
		return bl(c.Le(at, bt))
	case token.GTR:
		return bl(c.Lt(bt, at))
	case token.GEQ:
		return bl(c.Le(bt, at))
	}
	var r *Term
	switch op {
	case token.ADD:
		r = c.Add(at, bt)
	case token.SUB:
		r = c.Sub(at, bt)
	case token.MUL:
		r = c.Mul(at, bt)
	case token.QUO:
		x.oblige(st, c.Not(c.Eq(bt, c.Int(0))), "no division by zero", pos)
		r = x.tdiv(at, bt)
	case token.REM:
		x.oblige(st, c.Not(c.Eq(bt, c.Int(0))), "no division by zero", pos)
		r = x.trem(at, bt)
	case token.SHL:
		if bt.op == "int" && bt.n.IsInt64() && bt.n.Int64() < 64 {
			r = c.Mul(at, c.BigInt(pow2(uint(bt.n.Int64()))))
		}
	case token.SHR:
		if bt.op == "int" && bt.n.IsInt64() && bt.n.Int64() < 64 {
			r = c.Div(at, c.BigInt(pow2(uint(bt.n.Int64()))))
		}
	case token.AND:
		for _, p := range [][2]*Term{{at, bt}, {bt, at}} {
			if p[1].op == "int" && p[1].n.Sign() >= 0 {
				m := new(big.Int).Add(p[1].n, bigOne)
				if new(big.Int).And(m, p[1].n).Sign() == 0 {
					r = c.Mod(p[0], c.BigInt(m))
				}
			}
		}
	}
	if r == nil {
		r = x.uf("bit"+fmt.Sprint(int(op))+typeKey(T), SInt, at, bt)
		if r.lo == nil {
			r.lo, r.hi, _ = intRange(T)
		}
		return bl(r)
	}
	return bl(x.wrap(st, r, T))
}

func (x *X) value(fr *Frame, env *Env, st *State, in ssa.Value) *Val {
	c := x.c
	T := in.Type()
	switch in := in.(type) {
	case *ssa.Alloc:
		et := T.Underlying().(*types.Pointer).Elem()
		p := &Val{T: T, ts: []*Term{st.alloc(), c.Int(0)}}
		st.zeroMem(p, et)
		x.zeroGhosts(st, p, et, 0)
		return p
	case *ssa.BinOp:
		return x.binop(st, in.Op, x.val(fr, env, in.X), x.val(fr, env, in.Y), T, in.Pos())
	case *ssa.UnOp:
		v := x.val(fr, env, in.X)
		switch in.Op {
		case token.MUL:
			x.checkNil(st, v, in.Pos())
			x.lockCheck(st, v, T, false, in.Pos())
			return st.load(v, T)
		case token.NOT:
			return &Val{T: T, ts: []*Term{c.Not(v.t())}}
		case token.SUB:
			if v.t().sort == SFlt {
				return &Val{T: T, ts: []*Term{x.uf("fneg", SFlt, v.t())}}
			}
			return &Val{T: T, ts: []*Term{x.wrap(st, c.Sub(c.Int(0), v.t()), T)}}
		case token.ARROW:
			return x.recv(fr, st, x.valueName(in.X), v, T, in.CommaOk)
		case token.XOR:
			r := x.uf("bitnot", SInt, v.t())
			r.lo, r.hi, _ = intRange(T)
			return &Val{T: T, ts: []*Term{r}}
		}
	case *ssa.ChangeType:
		v := *x.val(fr, env, in.X)
		v.T = T
		return &v
	case *ssa.ChangeInterface:
		v := *x.val(fr, env, in.X)
		v.T = T
		return &v
	case *ssa.MakeInterface:
		return x.box(st, x.val(fr, env, in.X), T)
	case *ssa.MakeClosure:
		var bs []*Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(fr, env, b))
		}
		f := in.Fn.(*ssa.Function)
		v := x.funcVal(f, bs)
		if con := x.P.specs.Contracts[FuncKey(f)]; con != nil && len(con.Captures) > 0 {
			env := &SEnv{x: x, st: st, old: st, vars: x.freeNames(f, bs), pkg: con.Pkg}
			for _, r := range con.Captures {
				x.oblige(st, env.boolExpr(r.E), "captured by "+FuncKey(f)+": "+r.Src, in.Pos())
			}
			for _, b := range in.Bindings {
				if !constCell(b) {
					x.oblige(st, x.c.False, "variables captured by "+FuncKey(f)+" aren't assigned again", in.Pos())
				}
			}
		}
		return v
	case *ssa.Convert:
		return x.convert(st, x.val(fr, env, in.X), T)
	case *ssa.Extract:
		tv := x.val(fr, env, in.Tuple)
		return tv.fs[in.Index]
	case *ssa.Field:
		return x.val(fr, env, in.X).fs[in.Field]
	case *ssa.FieldAddr:
		p := x.val(fr, env, in.X)
		x.checkNil(st, p, in.Pos())
		pp := *p
		pp.T = in.X.Type()
		return x.fieldAddr(&pp, in.Field)
	case *ssa.IndexAddr:
		s, i := x.val(fr, env, in.X), x.val(fr, env, in.Index).t()
		if pt, ok := s.T.Underlying().(*types.Pointer); ok {
			n := pt.Elem().Underlying().(*types.Array).Len()
			x.oblige(st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(n))), "index in range", in.Pos())
			return &Val{T: T, ts: []*Term{s.ts[0], c.Add(s.ts[1], i)}}
		}
		x.oblige(st, c.And(c.Le(c.Int(0), i), c.Lt(i, s.ts[2])), "index in range", in.Pos())
		return &Val{T: T, ts: []*Term{s.ts[0], c.Add(s.ts[1], i)}}
	case *ssa.Index:
		s, i := x.val(fr, env, in.X), x.val(fr, env, in.Index).t()
		if isString(s.T) {
			x.oblige(st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Slen(s.t()))), "index in range", in.Pos())
			v := &Val{T: T, ts: []*Term{c.Nth(s.t(), i)}}
			return v
		}
		if a, ok := s.T.Underlying().(*types.Array); ok {
			x.oblige(st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(a.Len()))), "index in range", in.Pos())
			return st.load(&Val{T: types.NewPointer(a.Elem()), ts: []*Term{s.ts[0], c.Add(s.ts[1], i)}}, a.Elem())
		}
	case *ssa.Lookup:
		m := x.val(fr, env, in.X)
		if isString(m.T) {
			i := x.val(fr, env, in.Index).t()
			x.oblige(st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Slen(m.t()))), "index in range", in.Pos())
			return &Val{T: T, ts: []*Term{c.Nth(m.t(), i)}}
		}
		k := x.val(fr, env, in.Index).t()
		has := st.mapHas(m, k)
		et := m.T.Underlying().(*types.Map).Elem()
		v := x.iteVal(has, st.mapGet(m, k), x.zero(et))
		if in.CommaOk {
			return &Val{T: T, fs: []*Val{v, {T: types.Typ[types.Bool], ts: []*Term{has}}}}
		}
		return v
	case *ssa.MakeMap:
		v := &Val{T: T, ts: []*Term{st.alloc()}}
		dom, ks, _ := x.mapKeys(T)
		h := st.heapGet(dom, mapSort(ks, SBool))
		st.heap[dom] = c.Store(h, v.t(), c.ConstArr(c.False, ks))
		ck := st.cardKey(v)
		st.heap[ck] = c.Store(st.heapGet(ck, arr(SInt, SInt)), v.t(), c.Int(0))
		return v
	case *ssa.MakeChan:
		return &Val{T: T, ts: []*Term{st.alloc()}}
	case *ssa.MakeSlice:
		n, cp := x.val(fr, env, in.Len).t(), x.val(fr, env, in.Cap).t()
		x.oblige(st, c.And(c.Le(c.Int(0), n), c.Le(n, cp)), "make: length in range", in.Pos())
		// an impossible size panics or exhausts memory: outside of the model
		st.assume(c.Le(cp, c.BigInt(maxLen)))
		r := st.alloc()
		et := elemType(T)
		for _, e := range x.elemKeys(et) {
			h := st.heapGet(e.suf, row(e.sort))
			st.heap[e.suf] = c.Store(h, r, c.ConstArr(x.zeroSort(e.sort), SInt))
		}
		return x.sliceVal(T, r, c.Int(0), n, cp)
	case *ssa.Slice:
		return x.sliceExpr(fr, env, st, in)
	case *ssa.TypeAssert:
		return x.typeAssert(st, x.val(fr, env, in.X), in.AssertedType, in.CommaOk, T, in.Pos())
	case *ssa.Range:
		m := x.val(fr, env, in.X)
		if isString(m.T) {
			panic(unsupported("range over string"))
		}
		_, ks, _ := x.mapKeys(m.T)
		r := st.alloc()
		key := "iter#" + string(ks)
		st.heap[key] = c.Store(st.heapGet(key, mapSort(ks, SBool)), r, c.ConstArr(c.False, ks))
		st.heap[key+"#n"] = c.Store(st.heapGet(key+"#n", arr(SInt, SInt)), r, c.Int(0))
		dom, _, _ := x.mapKeys(m.T)
		st.heap[key+"#dom0"] = c.Store(st.heapGet(key+"#dom0", mapSort(ks, SBool)), r, c.Select(st.heapGet(dom, mapSort(ks, SBool)), m.t()))
		return &Val{T: T, ts: []*Term{r}, iter: &iterInfo{m: m, key: key}}
	case *ssa.Next:
		return x.next(st, x.val(fr, env, in.Iter), in)
	}
	panic(unsupported(fmt.Sprintf("instruction %T %s", in, in)))
}

func (x *X) zeroSort(s Sort) *Term {
	switch s {
	case SBool:
		return x.c.False
	case SSeq:
		return x.c.Empty()
	case SFlt:
		return x.c.Var("f:0", SFlt)
	}
	return x.c.Int(0)
}

func (x *X) iteVal(cond *Term, a, b *Val) *Val {
	if cond == x.c.True {
		return a
	}
	if cond == x.c.False {
		return b
	}
	v := &Val{T: a.T}
	for i := range a.ts {
		v.ts = append(v.ts, x.c.Ite(cond, a.ts[i], b.ts[i]))
	}
	for i := range a.fs {
		v.fs = append(v.fs, x.iteVal(cond, a.fs[i], b.fs[i]))
	}
	return v
}

func (x *X) next(st *State, it *Val, in *ssa.Next) *Val {
	c := x.c
	inf := it.iter
	mt := inf.m.T.Underlying().(*types.Map)
	dom, ks, _ := x.mapKeys(inf.m.T)
	ok := c.Fresh("next.ok", SBool)
	k := st.freshVal("next.k", mt.Key())
	vis := c.Select(st.heapGet(inf.key, mapSort(ks, SBool)), it.t())
	d := c.Select(st.heapGet(dom, mapSort(ks, SBool)), inf.m.t())
	st.assume(c.Imp(ok, c.And(st.mapHas(inf.m, k.t()), c.Not(c.Select(vis, k.t())))))
	b := c.Bound("mk", ks)
	st.assume(c.Imp(c.Not(ok), c.Or(c.Eq(inf.m.t(), c.Int(0)), c.Forall([]*Term{b}, [][]*Term{{c.Select(d, b)}}, c.Imp(c.Select(d, b), c.Select(vis, b))))))
	v := st.mapGet(inf.m, k.t())
	h := st.heap[inf.key]
	st.heap[inf.key] = c.Store(h, it.t(), c.Store(vis, k.t(), c.True)) // irrelevant if !ok
	// distinct visited keys are counted
	ck := inf.key + "#n"
	hn := st.heapGet(ck, arr(SInt, SInt))
	n := c.Select(hn, it.t())
	// without changes during the iteration, all keys have been visited at its end
	d0 := c.Select(st.heapGet(inf.key+"#dom0", mapSort(ks, SBool)), it.t())
	st.assume(c.Imp(c.And(c.Not(ok), c.Eq(d, d0)), c.Eq(n, st.mapLen(inf.m))))
	st.assume(c.Le(c.Int(0), n))
	st.heap[ck] = c.Store(hn, it.t(), c.AddK(n, 1))
	// the order of the iteration, for contracts that speak of it
	if ks == SSeq && x.con != nil {
		for _, m := range x.con.Modifies {
			if m.op == "id" && m.s == "mapord" {
				const o = "g:mapord"
				st.heap[o] = c.Store(st.heapGet(o, arr(SInt, SSeq)), n, k.t())
			}
		}
	}
	tt := in.Type().(*types.Tuple)
	return &Val{T: tt, fs: []*Val{{T: types.Typ[types.Bool], ts: []*Term{ok}}, k, v}}
}

func (x *X) convert(st *State, v *Val, T types.Type) *Val {
	c := x.c
	from, to := v.T.Underlying(), T.Underlying()
	if isByteSlice(from) && isString(to) {
		r := st.bytesOf(v)
		c.progStr[r] = true
		return &Val{T: T, ts: []*Term{r}}
	}
	if isString(from) && isByteSlice(to) {
		return st.newBytes(T, v.t())
	}
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return &Val{T: T, ts: []*Term{x.wrap(st, v.t(), T)}}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return &Val{T: T, ts: []*Term{x.uf("i2f", SFlt, v.t())}}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			r := x.uf("f2i"+typeKey(T), SInt, v.t())
			if r.lo == nil {
				r.lo, r.hi, _ = intRange(T)
			}
			return &Val{T: T, ts: []*Term{r}}
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return &Val{T: T, ts: v.ts}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return &Val{T: T, ts: v.ts}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			if v.t().hi != nil && v.t().hi.Cmp(big.NewInt(127)) <= 0 && v.t().lo.Sign() >= 0 {
				return &Val{T: T, ts: []*Term{c.Unit(v.t())}}
			}
			return st.freshVal("runestr", T)
		}
	}
	if types.IdenticalIgnoreTags(from, to) || len(x.comps(v.T)) == len(x.comps(T)) && fmt.Sprintf("%T", from) == fmt.Sprintf("%T", to) {
		n := *v
		n.T = T
		return &n
	}
	panic(unsupported("conversion from " + v.T.String() + " to " + T.String()))
}

func (x *X) sliceExpr(fr *Frame, env *Env, st *State, in *ssa.Slice) *Val {
	c := x.c
	s := x.val(fr, env, in.X)
	lo := c.Int(0)
	if in.Low != nil {
		lo = x.val(fr, env, in.Low).t()
	}
	if isString(s.T) {
		n := c.Slen(s.t())
		hi := n
		if in.High != nil {
			hi = x.val(fr, env, in.High).t()
		}
		x.oblige(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), "slice bounds in range", in.Pos())
		r := c.SubSeq(s.t(), lo, hi)
		c.progStr[r] = true
		return &Val{T: in.Type(), ts: []*Term{r}}
	}
	var ref, off, ln, cp *Term
	if pt, ok := s.T.Underlying().(*types.Pointer); ok {
		n := c.Int(pt.Elem().Underlying().(*types.Array).Len())
		x.checkNil(st, s, in.Pos())
		ref, off, ln, cp = s.ts[0], s.ts[1], n, n
	} else {
		ref, off, ln, cp = s.ts[0], s.ts[1], s.ts[2], s.ts[3]
	}
	hi := ln
	if in.High != nil {
		hi = x.val(fr, env, in.High).t()
	}
	mx := cp
	if in.Max != nil {
		mx = x.val(fr, env, in.Max).t()
	}
	conds := []*Term{c.Le(c.Int(0), lo), c.Le(lo, hi)}
	if in.High != nil {
		conds = append(conds, c.Le(hi, mx))
	}
	if in.Max != nil {
		conds = append(conds, c.Le(mx, cp))
	}
	x.oblige(st, c.And(conds...), "slice bounds in range", in.Pos())
	noff, nln, ncp := c.Add(off, lo), c.Sub(hi, lo), c.Sub(mx, lo)
	// slicing nil gives nil
	r := x.sliceVal(in.Type(), ref, noff, nln, ncp)
	return r
}

func (x *X) implements(t, it types.Type) bool {
	i := it.Underlying().(*types.Interface)
	return types.Implements(t, i)
}

func (x *X) typeAssert(st *State, v *Val, at types.Type, commaOk bool, T types.Type, pos token.Pos) *Val {
	c := x.c
	d := v.dyn
	if d == nil {
		if k, ok := x.known[v.t()]; ok {
			d = k.dyn
		}
	}
	var ok *Term
	var r *Val
	if types.IsInterface(at) {
		if d != nil {
			ok = c.Bool(x.implements(d.T, at))
		} else {
			if v.t().op == "int" && v.t().n.Sign() == 0 {
				ok = c.False
			} else {
				ok = c.And(c.Not(c.Eq(v.t(), c.Int(0))), x.uf("impl:"+typeFull(at), SBool, c.App("ity", v.t())))
			}
		}
		n := *v
		n.T = at
		r = &n
	} else {
		if d != nil {
			ok = c.Bool(types.Identical(d.T, at))
			if ok == c.True {
				r = d
			}
		} else {
			ok = c.And(c.Not(c.Eq(v.t(), c.Int(0))), c.Eq(c.App("ity", v.t()), x.typeID(at)))
		}
		if r == nil {
			r = x.unbox(st, v.t(), at)
		}
	}
	if !commaOk {
		x.oblige(st, ok, "type assertion holds", pos)
		return r
	}
	r = x.iteVal(ok, r, x.zeroIface(at, r))
	return &Val{T: T, fs: []*Val{r, {T: types.Typ[types.Bool], ts: []*Term{ok}}}}
}

func (x *X) zeroIface(t types.Type, like *Val) *Val { return x.zero(t) }

// constCell reports whether the captured variable v is assigned only once.
func constCell(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	stores := 0
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != v || r.Val == v {
				return false
			}
			stores++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v && !onlyLoaded(r.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	_, isAlloc := v.(*ssa.Alloc)
	return isAlloc && stores <= 1
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v && !onlyLoaded(r.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (c *Ctx) zeroOf(s Sort) *Term {
	switch s {
	case SInt:
		return c.Int(0)
	case SSeq:
		return c.Lit("")
	case SBool:
		return c.False
	}
	panic(unsupported("zero ghost field of sort " + string(s)))
}

// sprintf is what formatting gives, as far as the format and the arguments are known.
func (x *X) sprintf(st *State, f *Term, args *Val) *Term {
	c := x.c
	if f.op != "lit" || args.ts[2].op != "int" {
		return c.Fresh("sprintf", SSeq)
	}
	s := f.name
	out := c.Lit("")
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = c.Cat(out, c.Lit(s[i:i+1]))
			continue
		}
		i++
		if i == len(s) {
			return c.Fresh("sprintf", SSeq)
		}
		if s[i] == '%' {
			out = c.Cat(out, c.Lit("%"))
			continue
		}
		if int64(n) >= args.ts[2].n.Int64() {
			return c.Fresh("sprintf", SSeq)
		}
		it := elemType(args.T)
		e := st.load(&Val{T: types.NewPointer(it), ts: []*Term{args.ts[0], c.Add(args.ts[1], c.Int(int64(n)))}}, it)
		n++
		out = c.Cat(out, x.fmtArg(st, s[i], e))
	}
	if int64(n) != args.ts[2].n.Int64() {
		return c.Fresh("sprintf", SSeq)
	}
	return out
}

func (x *X) fmtArg(st *State, verb byte, v *Val) *Term {
	c := x.c
	d := v.dyn
	if d == nil {
		if k, ok := x.known[v.t()]; ok {
			d = k.dyn
		}
	}
	if d != nil {
		if n, ok := d.T.(*types.Named); !ok || n.NumMethods() == 0 {
			switch u := d.T.Underlying().(type) {
			case *types.Slice:
				if verb == 's' && types.Identical(u.Elem().Underlying(), types.Typ[types.Uint8]) {
					return st.bytesOf(d)
				}
			case *types.Basic:
				if u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') {
					return d.t()
				}
				if u.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v') {
					return c.App("itoa", d.t())
				}
			}
		}
	}
	return x.uf(fmt.Sprintf("fmt:%c", verb), SSeq, v.t())
}

// zeroGhosts sets the ghost fields of a new object, and of the structs it embeds, to zero.
func (x *X) zeroGhosts(st *State, p *Val, t types.Type, depth int) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		for _, g := range x.P.specs.GFields {
			if g.of != "" && g.of == shortPkg(n.Obj().Pkg())+"."+n.Obj().Name() {
				s, _ := parseSort(g.typ)
				if isArr(s) {
					continue
				}
				st.put2("gf:"+g.name, s, p.ts[0], p.ts[1], x.c.zeroOf(s))
			}
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 3 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			if _, ok := n.Underlying().(*types.Struct); ok {
				x.zeroGhosts(st, x.fieldAddr(p, i), n, depth+1)
			}
		}
	}
}
