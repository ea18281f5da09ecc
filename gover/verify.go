package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// intrinsics are functions the verifier treats specially.
var intrinsics = map[string]func(x *X, fr *Frame, st *State, args []*Val, sig *types.Signature, pos token.Pos, k Cont){}

// Result is the outcome of verifying one function or lemma.
type Result struct {
	Key      string
	Kind     string // function, lemma, globals
	Obls     []*Obl
	Failed   []*Obl
	Err      string
	Trusted  []string
	Inlined  []string
	Called   []string
	Lemmas   []string
	Paths    int
	Returns  int
	Loops    int
	Measured int
	Invs     int
	Secs     float64
	Where    string
	NoMod    []string
	// global invariants were assumed
	UsesGlobals bool
	// a contract nothing relies on any more
	Dropped bool
}

func (r *Result) OK() bool { return r.Err == "" && len(r.Failed) == 0 }

var (
	quickTmo = 6 * time.Second
	slowTmo  = 25 * time.Second
	execTmo  = 240 * time.Second
)

func (x *X) startState() *State {
	nb := x.c.Var("next0", SInt)
	nb.lo = big.NewInt(1000)
	x.c.nbEpoch[nb] = 0
	x.c.epochNb[0] = nb
	x.c.isFr[nb] = true
	return &State{x: x, heap: map[string]*Term{}, nb: nb}
}

// implicitReq is the precondition every method with pointer receiver has.
func recvPtr(sig *types.Signature) bool {
	if sig.Recv() == nil {
		return false
	}
	_, ok := sig.Recv().Type().Underlying().(*types.Pointer)
	return ok
}

func (x *X) assumeGlobals(st *State) {
	var reached map[string]bool
	if x.fn != nil {
		reached = x.P.globalsReached(x.fn)
	}
	for _, g := range x.P.specs.Globals {
		if reached != nil && (x.fn.Pkg == nil || shortPkg(x.fn.Pkg.Pkg) != g.Pkg) {
			ids := map[string]bool{}
			freeIDs(g.C.E, map[string]bool{}, ids)
			hit := false
			for id := range ids {
				hit = hit || reached[g.Pkg+"."+id]
			}
			if !hit {
				continue
			}
		}
		env := &SEnv{x: x, st: st, old: st, vars: map[string]*Val{}, pkg: x.P.pkgs[g.Pkg]}
		st.assume(env.boolExpr(g.C.E))
		x.globUsed = true
	}
}

// VerifyFunc checks a function against its contract.
func (P *Program) VerifyFunc(key string, noMod map[string]bool) (res *Result) {
	t0 := time.Now()
	res = &Result{Key: key, Kind: "function"}
	fn := P.funcs[key]
	con := P.specs.Contracts[key]
	if fn == nil {
		res.Err = "function not found"
		return
	}
	if con == nil {
		con = &Contract{Key: key}
		for _, p := range fn.Params {
			con.Params = append(con.Params, p.Name())
		}
		if fn.Pkg != nil {
			con.Pkg = fn.Pkg.Pkg
		}
	}
	res.Where = P.posOf(fn)
	x := NewX(P, key)
	x.fn, x.con = fn, con
	for n := range noMod {
		x.noMod[n] = true
		res.NoMod = append(res.NoMod, n)
	}
	sort.Strings(res.NoMod)
	for _, n := range con.NoMod {
		x.noMod[n] = true
	}
	for _, n := range con.Uses {
		x.uses[n] = true
	}
	for _, n := range con.Hides {
		x.hides[n] = true
	}
	x.holdChk = con.LockChk
	x.deadline = time.Now().Add(execTmo)
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if os.Getenv("GOVER_STACK") != "" {
				debug.PrintStack()
			}
			u, ok := r.(unsupported)
			if !ok {
				if s, is := r.(string); is && strings.Contains(s, "sort") {
					u, ok = unsupported(s), true
				}
			}
			if !ok {
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				u = unsupported(fmt.Sprint(r))
			}
			res.Err = u.Error()
			x.fill(res)
		}
	}()
	st := x.startState()
	var args []*Val
	if len(con.Params) > len(fn.Params) {
		panic(unsupported("contract has more parameters than the function"))
	}
	for i, p := range fn.Params {
		v := st.freshVal(p.Name(), p.Type())
		args = append(args, v)
		if x.params[p.Name()] == nil {
			x.params[p.Name()] = v
		}
		if i < len(con.Params) {
			x.params[con.Params[i]] = v
		}
	}
	var binds []*Val
	for i, f := range fn.FreeVars {
		v := st.freshVal(f.Name(), f.Type())
		if _, ok := f.Type().Underlying().(*types.Pointer); ok {
			st.assume(x.c.Lt(x.c.Int(0), v.ts[0]))
			for j := 0; j < i; j++ {
				if _, ok := fn.FreeVars[j].Type().Underlying().(*types.Pointer); ok {
					st.assume(x.c.Not(x.c.Eq(v.ts[0], binds[j].ts[0])))
				}
			}
		}
		binds = append(binds, v)
		x.params[f.Name()] = v
	}
	if recvPtr(fn.Signature) {
		st.assume(x.c.Not(x.c.Eq(args[0].ts[0], x.c.Int(0))))
	}
	if fn.Name() != "init" {
		x.assumeGlobals(st)
	}
	env := &SEnv{x: x, st: st, old: st, vars: x.params, pkg: con.Pkg}
	for _, r := range con.Requires {
		st.assume(env.boolExpr(r.E))
	}
	for _, r := range con.Captures {
		st.assume(env.boolExpr(r.E))
	}
	x.entry = st.clone()
	fr := x.newFrame(fn, nil, args, binds)
	x.runFunc(fr, st, func(st *State, rs []*Val) { x.atReturn(st, rs) })
	for _, inv := range con.Invs {
		if !inv.Must {
			continue
		}
		n := "invariant " + inv.Src
		if x.mustOK[n] {
			continue
		}
		o := x.mustBad[n]
		if o == nil {
			o = &Obl{Name: n + ": no loop it holds for", Pos: res.Where}
		}
		o.must = true
		x.obls = append(x.obls, o)
	}
	for _, ea := range con.Each {
		if !x.mustOK["each "+ea.Src] {
			x.obls = append(x.obls, &Obl{Name: "each iteration: " + ea.Src + ": no loop it applies to", Pos: res.Where, must: true})
		}
	}
	if x.returns == 0 && !con.NoReturn && !con.Diverges {
		x.obls = append(x.obls, &Obl{Name: "some path returns (otherwise the contract is vacuous)", Pos: res.Where, must: true})
	}
	x.discharge(res)
	x.vacuity(res)
	x.fill(res)
	return
}

func (P *Program) posOf(fn *ssa.Function) string {
	q := P.fset.Position(fn.Pos())
	return strings.TrimPrefix(q.Filename, P.dir+"/") + ":" + fmt.Sprint(q.Line)
}

func (x *X) fill(res *Result) {
	for k := range x.trusted {
		res.Trusted = append(res.Trusted, k)
	}
	for k := range x.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	for k := range x.called {
		res.Called = append(res.Called, k)
	}
	for k := range x.lemUsed {
		res.Lemmas = append(res.Lemmas, k)
	}
	res.UsesGlobals = x.globUsed
	sort.Strings(res.Trusted)
	sort.Strings(res.Inlined)
	sort.Strings(res.Called)
	sort.Strings(res.Lemmas)
	res.Paths, res.Returns, res.Loops, res.Measured, res.Invs = x.paths+1, x.returns, x.loopsN, x.measured, x.hidden
	if res.Obls == nil {
		res.Obls = x.obls
	}
}

// atReturn adds the obligations of a path that returns.
func (x *X) atReturn(st *State, rs []*Val) {
	c := x.c
	con := x.con
	x.returns++
	vars := map[string]*Val{}
	for n, v := range x.params {
		vars[n] = v
	}
	for i, r := range rs {
		if i < len(con.Results) {
			vars[con.Results[i]] = r
		}
		if i == 0 {
			vars["result"] = r
		}
	}
	env := &SEnv{x: x, st: st, old: x.entry.clone(), vars: vars, pkg: con.Pkg}
	entryPC := env.old.pc
	pull := func() {
		for p := env.old.pc; p != entryPC && p != nil; p = p.prev {
			st.assume(p.t)
		}
		entryPC = env.old.pc
	}
	for _, u := range con.UseExprs {
		st.assume(env.lemmaInst(u.E, nil, nil, nil))
		x.lemUsed[u.E.s] = true
	}
	if len(con.Sets) > 0 {
		var vs []*Term
		for _, a := range con.Sets {
			v := env.eval(a.E)
			if v.T != nil && (isByteSlice(v.T) || isString(v.T)) {
				vs = append(vs, env.seq(v))
			} else {
				vs = append(vs, v.t())
			}
		}
		for i, a := range con.Sets {
			st.heap["g:"+a.Tag] = vs[i]
		}
		pull()
	}
	for _, a := range con.Asserts {
		t := env.boolExpr(a.E)
		pull()
		x.addObl(st, t, "assertion "+a.Src, token.NoPos)
		st.assume(t)
	}
	for _, e := range con.Ensures {
		t := env.boolExpr(e.E)
		pull()
		x.addObl(st, t, "postcondition "+e.Src, token.NoPos)
		// later postconditions may rely on earlier ones
		if st.nGoal < 40 {
			st.assume(t)
			st.nGoal++
		}
	}
	x.retPCs = append(x.retPCs, st.facts())
	x.frameObls(st)
	_ = c
}

// frameObls requires that only what the contract lists was modified.
func (x *X) frameObls(st *State) {
	c := x.c
	con := x.con
	if con.ModAny {
		return
	}
	for _, m := range con.Modifies {
		if m.op == "id" && m.s == "everything" {
			return
		}
	}
	next0 := x.entry.next()
	menv := &SEnv{x: x, st: x.entry.clone(), old: x.entry.clone(), vars: x.params, pkg: con.Pkg}
	for _, key := range sortedKeys(st.heap) {
		cur := st.heap[key]
		base := x.entry.heap[key]
		if base == nil {
			if st.base != x.entry.base {
				panic(unsupported("everything modified"))
			}
			base = c.Var(fmt.Sprintf("H%d:%s", x.entry.base, key), cur.sort)
		}
		if cur == base || strings.HasPrefix(key, "iter#") {
			continue
		}
		if !isArr(cur.sort) || strings.HasPrefix(key, "g:") && !x.ghostMapMod(key) {
			al := c.False
			for _, m := range con.Modifies {
				al = c.Or(al, x.allowed(menv, m, key, c.Int(0), c.Int(0)))
			}
			if al != c.True {
				x.addObl(st, c.Or(al, c.Eq(cur, base)), "frame: "+key+" unchanged", token.NoPos)
			}
			continue
		}
		dom, rng := arrParts(cur.sort)
		// references written to
		if refs, ok := x.storedRefs(cur, base); ok && dom == SInt {
			for _, r := range refs {
				x.frameRow(st, menv, key, cur, base, rng, r, next0, false)
			}
			continue
		}
		r := c.Bound("fr", dom)
		if strings.HasPrefix(key, "g:") {
			var al []*Term
			for _, m := range con.Modifies {
				al = append(al, x.allowed(menv, m, key, r, c.Int(0)))
			}
			x.addObl(st, c.Forall([]*Term{r}, nil, c.Or(append(al, c.Eq(c.Select(cur, r), c.Select(base, r)))...)), "frame: "+key, token.NoPos)
			continue
		}
		x.frameRow(st, menv, key, cur, base, rng, r, next0, true)
	}
}

func (x *X) ghostMapMod(key string) bool {
	for _, m := range x.con.Modifies {
		if m.op == "idx" && m.args[0].op == "id" && "g:"+m.args[0].s == key {
			return true
		}
	}
	return false
}

func (x *X) frameRow(st *State, menv *SEnv, key string, cur, base *Term, rng Sort, r, next0 *Term, quant bool) {
	c := x.c
	cond := c.And(c.Lt(r, next0), c.Lt(c.App("root", r), next0))
	if !quant && (c.Le(next0, r) == c.True || c.isFr[r] && c.older(next0, r)) {
		return
	}
	var goal *Term
	if isArr(rng) {
		ks, _ := arrParts(rng)
		i := c.Bound("fi", ks)
		var al []*Term
		for _, m := range x.con.Modifies {
			al = append(al, x.allowed(menv, m, key, r, i))
		}
		body := c.Or(append(al, c.Eq(c.Select(c.Select(cur, r), i), c.Select(c.Select(base, r), i)))...)
		goal = c.Forall([]*Term{i}, nil, c.Imp(cond, body))
	} else {
		var al []*Term
		for _, m := range x.con.Modifies {
			al = append(al, x.allowed(menv, m, key, r, c.Int(0)))
		}
		goal = c.Imp(cond, c.Or(append(al, c.Eq(c.Select(cur, r), c.Select(base, r)))...))
	}
	if quant {
		goal = c.Forall([]*Term{r}, nil, goal)
	}
	if goal != c.True {
		x.addObl(st, goal, "frame: only what the contract lists of "+key+" is modified", token.NoPos)
	}
}

// storedRefs lists the references stored to on the way from base to cur.
func (x *X) storedRefs(cur, base *Term) ([]*Term, bool) {
	var out []*Term
	seen := map[*Term]bool{}
	for cur != base {
		if h := x.havocs[cur]; h != nil && !h.m.unknown {
			// arbitrary after a loop at these references only
			for _, r := range sortedTerms(h.m.refs) {
				if !seen[r] {
					seen[r] = true
					out = append(out, r)
				}
			}
			cur = h.base
			continue
		}
		if cur.op != "store" {
			return nil, false
		}
		if !seen[cur.args[1]] {
			seen[cur.args[1]] = true
			out = append(out, cur.args[1])
		}
		cur = cur.args[0]
	}
	return out, true
}

type job struct {
	o      *Obl
	script string
}

// follows reports whether unit propagation over the assumptions yields the goal.
func (x *X) follows(assume []*Term, goal *Term) bool {
	c := x.c
	facts := map[*Term]bool{}
	var imps []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if facts[t] {
			return
		}
		facts[t] = true
		if facts[c.Not(t)] {
			facts[c.False] = true
		}
		switch t.op {
		case "=":
			if t.args[0].sort == SBool {
				imps = append(imps, c.Imp(t.args[0], t.args[1]), c.Imp(t.args[1], t.args[0]))
			}
		case "and":
			for _, a := range t.args {
				add(a)
			}
		case "=>":
			imps = append(imps, t)
		}
	}
	var holds func(t *Term) bool
	holds = func(t *Term) bool {
		if t == c.True || facts[t] {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !holds(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, a := range assume {
		add(a)
	}
	for {
		if facts[c.False] || holds(goal) {
			return true
		}
		rest := imps
		imps = nil
		n := 0
		for _, t := range rest {
			if t.op != "=>" {
				n++
				add(t)
			} else if holds(t.args[0]) {
				n++
				add(t.args[1])
			} else {
				imps = append(imps, t)
			}
		}
		if n == 0 {
			return false
		}
	}
}

// discharge proves the collected obligations.
func (x *X) discharge(res *Result) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	fails := 0
	var lost []*job
	for _, o := range x.obls {
		o.ok = !o.must
	}
	start := func(j *job) {
		wg.Add(1)
		lim <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-lim }()
			mu.Lock()
			slow := slowTmo
			if fails >= 4 || !j.o.ok {
				slow = 0
			}
			mu.Unlock()
			t0 := time.Now()
			ok, by := Prove(j.script, quickTmo, slow)
			mu.Lock()
			j.o.secs += time.Since(t0).Seconds()
			if ok {
				if j.o.by == "" || j.o.by == "syntactic" {
					j.o.by = by
				} else if !strings.Contains(j.o.by, by) {
					j.o.by += "+" + by
				}
			} else {
				if j.o.ok {
					fails++
				}
				j.o.ok = false
				j.o.script = j.script
				lost = append(lost, j)
			}
			mu.Unlock()
		}()
	}
	for _, o := range x.obls {
		if o.must {
			continue
		}
		n := 0
		for _, g := range x.splitGoal(o.assume, o.goal) {
			if g.goal == x.c.True || x.follows(g.assume, g.goal) {
				continue
			}
			n++
			if os.Getenv("GOVER_GOALS") != "" {
				fmt.Fprintln(os.Stderr, "GOAL", o.Name, "::", x.c.Show(g.goal))
			}
			start(&job{o, x.script(g.assume, g.goal)})
		}
		if n == 0 {
			o.by = "syntactic"
		}
	}
	wg.Wait()
	if n := len(lost); n > 0 && n <= 2 && slowTmo > 0 {
		// one or two queries out of time on a busy machine: once more, with twice the time
		ok := make([]bool, n)
		by := make([]string, n)
		for i, j := range lost {
			wg.Add(1)
			go func(i int, j *job) {
				defer wg.Done()
				ok[i], by[i] = Prove(j.script, quickTmo, 2*slowTmo)
			}(i, j)
		}
		wg.Wait()
		for i, j := range lost {
			if ok[i] && (n == 1 || j.o != lost[1-i].o || ok[1-i]) {
				j.o.ok = true
				if j.o.by == "" {
					j.o.by = by[i]
				}
			}
		}
	}
	for _, o := range x.obls {
		if o.must {
			o.ok = false
		}
		if !o.ok {
			res.Failed = append(res.Failed, o)
		}
		o.assume, o.goalS = nil, ""
		if o.goal != nil && !o.ok {
			o.goalS = x.c.Show(o.goal)
		}
	}
	res.Obls = x.obls
}

// vacuity requires that not every return path contradicts itself.
func (x *X) vacuity(res *Result) {
	if len(x.retPCs) == 0 || x.con.NoReturn {
		return
	}
	for _, f := range x.retPCs {
		if ok, _ := Prove(x.script(f, x.c.False), 2*time.Second, 0); !ok {
			return
		}
	}
	if os.Getenv("GOVER_DUMP") != "" {
		os.WriteFile("/tmp/vac.smt2", []byte(x.script(x.retPCs[0], x.c.False)), 0644)
	}
	o := &Obl{Name: "assumptions are consistent", Pos: res.Where}
	res.Obls = append(res.Obls, o)
	res.Failed = append(res.Failed, o)
}

// VerifyLemma proves a lemma from its definitions and earlier lemmas.
func (P *Program) VerifyLemma(l *Lemma) (res *Result) {
	t0 := time.Now()
	res = &Result{Key: "lemma " + l.Name, Kind: "lemma", Where: l.Where}
	x := NewX(P, "lemma "+l.Name)
	x.lemOrd = l.ord
	x.con = &Contract{}
	for _, n := range l.Names {
		x.uses[n] = true
	}
	for _, n := range l.Hides {
		x.hides[n] = true
	}
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Err = u.Error()
				return
			}
			res.Err = fmt.Sprint(r)
		}
	}()
	env := x.lemmaEnv(l, func(h string, s Sort) *Term { return x.c.Fresh(h, s) })
	st := env.st
	for _, v := range env.vars {
		st.wfSpec(v)
	}
	for _, r := range l.Requires {
		st.assume(env.boolExpr(r.E))
	}
	var m0 *Term
	if l.Decr != nil {
		m0 = env.eval(l.Decr).t()
	}
	c := x.c
	for _, u := range l.Uses {
		if o := P.specs.Lemmas[callName(u)]; o != nil && o != l && o.ord > l.ord {
			panic(unsupported("use of the later lemma " + o.Name))
		} else if o == l && l.Decr == nil {
			panic(unsupported("induction without decreases"))
		} else if o != nil {
			x.lemUsed[o.Name] = true
		}
		st.assume(env.useTerm(u, l, func(m *Term) *Term { return c.And(c.Le(c.Int(0), m), c.Lt(m, m0)) }))
	}
	for _, a := range l.Asserts {
		t := env.boolExpr(a.E)
		x.addObl(st, t, "assertion "+a.Src, token.NoPos)
		st.assume(t)
	}
	cases := []*Term{c.True}
	if len(l.Cases) > 0 {
		cases = nil
		var neg []*Term
		for _, ce := range l.Cases {
			t := env.boolExpr(ce)
			cases = append(cases, c.And(append(append([]*Term{}, neg...), t)...))
			neg = append(neg, c.Not(t))
		}
		cases = append(cases, c.And(neg...))
	}
	for _, cs := range cases {
		s2 := st.clone()
		s2.assume(cs)
		for _, e := range l.Ensures {
			x.addObl(s2, env.boolExpr(e.E), "lemma "+l.Name+": "+e.Src, token.NoPos)
		}
	}
	delete(x.lemUsed, l.Name)
	x.discharge(res)
	delete(x.lemUsed, l.Name)
	x.fill(res)
	return
}

func callName(e *Expr) string {
	for e.op == "bin" && e.s == "==>" {
		e = e.args[1]
	}
	for e.op == "forall" {
		e = e.args[0]
	}
	for e.op == "bin" && e.s == "==>" {
		e = e.args[1]
	}
	return e.s
}

// useTerm is a (possibly guarded or quantified) lemma instance.
func (e *SEnv) useTerm(ex *Expr, self *Lemma, guard func(m *Term) *Term) *Term {
	c := e.x.c
	if ex.op == "bin" && ex.s == "==>" {
		return c.Imp(e.boolExpr(ex.args[0]), e.useTerm(ex.args[1], self, guard))
	}
	if ex.op == "forall" {
		ne := e
		var bs []*Term
		for _, v := range ex.vars {
			bv := e.x.specVar(v.name, v.typ, func(h string, s Sort) *Term {
				b := c.Bound(h, s)
				bs = append(bs, b)
				return b
			})
			ne = ne.with(v.name, bv)
		}
		var trigs [][]*Term
		for _, tr := range ex.trig {
			var ts []*Term
			for _, t := range tr {
				ts = append(ts, ne.eval(t).t())
			}
			trigs = append(trigs, ts)
		}
		return c.Forall(bs, trigs, ne.useTerm(ex.args[0], self, guard))
	}
	return e.lemmaInst(ex, self, nil, guard)
}

// wfSpec notes what holds of any value of a specification parameter with Go type.
func (st *State) wfSpec(v *Val) {}

// VerifyGlobals checks global invariants of a package against its initialiser.
func (P *Program) VerifyGlobals(pkg string) *Result {
	key := pkg + ".init"
	fn := P.funcs[key]
	res := &Result{Key: "globals of " + pkg, Kind: "globals"}
	if fn == nil {
		res.Err = "no initialiser"
		return res
	}
	x := NewX(P, key)
	x.fn = fn
	x.con = &Contract{Key: key, ModAny: true}
	for _, g := range P.specs.Globals {
		if g.Pkg == pkg {
			x.con.Ensures = append(x.con.Ensures, g.C)
		}
	}
	x.con.Pkg = P.pkgs[pkg]
	x.deadline = time.Now().Add(execTmo)
	t0 := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					res.Err = u.Error()
					return
				}
				panic(r)
			}
		}()
		st := x.startState()
		st.store(x.globalPtr(fn.Pkg.Var("init$guard")), types.Typ[types.Bool], &Val{T: types.Typ[types.Bool], ts: []*Term{x.c.False}})
		x.entry = st.clone()
		fr := x.newFrame(fn, nil, nil, nil)
		x.runFunc(fr, st, func(st *State, rs []*Val) { x.atReturn(st, rs) })
		x.discharge(res)
		x.vacuity(res)
	}()
	// invariants only mention variables that nothing else assigns
	for _, g := range P.specs.Globals {
		if g.Pkg != pkg {
			continue
		}
		ids := map[string]bool{}
		freeIDs(g.C.E, map[string]bool{}, ids)
		for id := range ids {
			if P.globStores[pkg+"."+id] {
				o := &Obl{Name: "global " + pkg + "." + id + " isn't assigned outside of initialisation"}
				res.Obls = append(res.Obls, o)
				res.Failed = append(res.Failed, o)
			}
		}
	}
	x.fill(res)
	res.Secs = time.Since(t0).Seconds()
	return res
}
