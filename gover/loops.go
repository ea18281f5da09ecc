package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ranges bool // range over a map
}

func (x *X) loops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	l, ok := x.loopCache[fn]
	if !ok {
		l = findLoops(fn)
		x.loopCache[fn] = l
	}
	return l
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &Loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			var rec func(b *ssa.BasicBlock)
			rec = func(b *ssa.BasicBlock) {
				if l.body[b] {
					return
				}
				l.body[b] = true
				for _, p := range b.Preds {
					rec(p)
				}
			}
			rec(b)
		}
	}
	for _, l := range out {
		for b := range l.body {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Next); ok {
					l.ranges = true
				}
			}
		}
	}
	return out
}

type LoopRun struct {
	loop     *Loop
	discover bool
	back     func(fr *Frame, env *Env, st *State, pred *ssa.BasicBlock)
	exited   func(fr *Frame, env *Env, st *State, pred, b *ssa.BasicBlock)
}

// cand is a candidate invariant: a formula over the loop's variables.
type loopVisit struct {
	l    *Loop
	path string
}

type cand struct {
	name  string
	must  bool
	f     func(fr *Frame, env *Env, st *State) *Term
	decr  func(fr *Frame, env *Env, st *State) *Term // termination measure instead
	fails *Obl
}

// slow is the time other solvers get for a candidate.
func (cd *cand) slow() time.Duration {
	if strings.HasPrefix(cd.name, "invariant ") && !strings.Contains(cd.name, " with ") {
		return 4 * time.Second
	}
	return 0
}

type mods struct {
	refs    map[*Term]bool
	cells   map[*Term]map[*Term]bool // entries of a row; absent: all of it
	fresh   bool
	sub     bool
	unknown bool
}

func (x *X) enterLoop(fr *Frame, env *Env, st *State, pred *ssa.BasicBlock, l *Loop, ctl *Ctl, k Cont) {
	c := x.c
	entryPhis := x.phis(fr, env, pred, l.header)
	entryEnv := env.clone()
	for ph, v := range entryPhis {
		n := *v
		n.T = ph.Type()
		entryEnv.m[ph] = &n
	}
	entrySt := st.clone()
	// every phi of the header gets its entry value so that invariants can be evaluated
	var phis []*ssa.Phi
	for ph := range entryPhis {
		phis = append(phis, ph)
	}
	sort.Slice(phis, func(i, j int) bool { return phis[i].Name() < phis[j].Name() })

	cands := x.candidates(fr, l, phis, entryEnv, entrySt)
	// what failed in an earlier visit on this path, with the enclosing loop's
	// invariants then known, which can only have become fewer
	visit := loopVisit{l, st.path.String()}
	if gone := x.loopDead[visit]; gone != nil {
		var cs []*cand
		for _, cd := range cands {
			if cd.must || cd.decr != nil || !gone[cd.name] {
				cs = append(cs, cd)
			}
		}
		cands = cs
	}
	if x.loopDead == nil {
		x.loopDead = map[loopVisit]map[string]bool{}
	}
	if x.loopDead[visit] == nil {
		x.loopDead[visit] = map[string]bool{}
	}
	// keep those that hold on entry
	tmo := 1500 * time.Millisecond
	var alive []*cand
	type ejob struct {
		cd *cand
		es *State
		g  *Term
		qs []string
		ok bool
	}
	var ejobs []*ejob
	for _, cd := range cands {
		jb := &ejob{cd: cd, es: entrySt.clone()}
		if cd.decr == nil {
			g, ok := x.tryEval(func() *Term { return cd.f(fr, entryEnv, jb.es) })
			if !ok {
				continue
			}
			jb.g = g
			jb.qs = x.queries(jb.es, g)
		}
		ejobs = append(ejobs, jb)
	}
	parallel(len(ejobs), func(i int) { ejobs[i].ok = proveAll(ejobs[i].qs, tmo, ejobs[i].cd.slow()) })
	for _, jb := range ejobs {
		if jb.ok {
			alive = append(alive, jb.cd)
		} else if !jb.cd.must {
			x.loopDead[visit][jb.cd.name] = true
		} else {
			x.mustFail(jb.es, jb.g, jb.cd.name+" holds on entry", l)
		}
	}
	M := map[string]*mods{}
	entryNext := entrySt.next()
	if x.loopMods[l] != nil {
		// what an earlier visit found, without the objects that only that visit knew
		known := map[*Term]bool{}
		for _, v := range entryEnv.m {
			if v != nil {
				for _, t := range v.ts {
					bornVars(t, known)
				}
			}
		}
		for k, m := range x.loopMods[l] {
			cm := &mods{refs: map[*Term]bool{}, cells: map[*Term]map[*Term]bool{}, fresh: m.fresh, sub: m.sub, unknown: m.unknown}
			for r := range m.refs {
				if !allKnown(r, known) {
					continue
				}
				cs := m.cells[r]
				ok := true
				for i := range cs {
					ok = ok && allKnown(i, known)
				}
				if !ok {
					continue
				}
				cm.refs[r] = true
				if cs != nil {
					cm.cells[r] = map[*Term]bool{}
					for i := range cs {
						cm.cells[r][i] = true
					}
				}
			}
			M[k] = cm
		}
	}

	header := func() (*Env, *State, *Term) {
		hs := entrySt.clone()
		henv := env.clone()
		mark := x.c.fresh
		hs.newNext()
		for _, ph := range phis {
			ev := entryEnv.m[ph]
			henv.m[ph] = x.freshLike(hs, ph, ev)
		}
		var ks []string
		for k := range M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, key := range ks {
			x.havocLoopKey(hs, entrySt, key, M[key], entryNext)
		}
		for _, cd := range alive {
			if cd.decr == nil {
				if g, ok := x.tryEval(func() *Term { return cd.f(fr, henv, hs) }); ok {
					hs.assume(g)
				}
			}
		}
		return henv, hs, c.Int(int64(mark))
	}

	framed := map[string]bool{}
	for iter := 0; ; iter++ {
		if iter > 60 {
			panic(unsupported("loop analysis doesn't converge in " + fr.key))
		}
		changed := false
		henv, hs, markT := header()
		mark := markT.n.Int64()
		hdrHeap := map[string]*Term{}
		for kk, v := range hs.heap {
			hdrHeap[kk] = v
		}
		hdrSt := hs.clone()
		dead := map[*cand]bool{}
		measures := map[*cand]*Term{}
		for _, cd := range alive {
			if cd.decr != nil {
				if t, ok := x.tryEval(func() *Term { return cd.decr(fr, henv, hdrSt) }); ok {
					measures[cd] = t
				} else {
					dead[cd] = true
				}
			}
		}
		nback := 0
		run := &LoopRun{loop: l, discover: true}
		run.exited = func(fr *Frame, env *Env, st *State, pred, b *ssa.BasicBlock) {}
		run.back = func(fr *Frame, env *Env, bs *State, pred *ssa.BasicBlock) {
			nback++
			for key, cur := range bs.heap {
				base := hdrHeap[key]
				if base == nil {
					base = c.Var(fmt.Sprintf("H%d:%s", hdrSt.base, key), cur.sort)
				}
				if cur == base || strings.HasPrefix(key, "iter#") && false {
					continue
				}
				if x.addMods(M, key, cur, base, bs, entryNext, int(mark), entryEnv, phis) {
					changed = true
				}
			}
			if bs.base != hdrSt.base {
				panic(unsupported("everything modified in a loop"))
			}
			benv := env.clone()
			for ph, v := range x.phis(fr, env, pred, l.header) {
				n := *v
				n.T = ph.Type()
				benv.m[ph] = &n
			}
			if changed {
				return
			}
			type job struct {
				cd *cand
				ss *State
				g  *Term
				qs []string
				ok bool
			}
			var jobs []*job
			for _, cd := range alive {
				if dead[cd] {
					continue
				}
				jb := &job{cd: cd, ss: bs.clone()}
				if cd.decr != nil {
					t, ok := x.tryEval(func() *Term { return cd.decr(fr, benv, jb.ss) })
					if !ok {
						dead[cd] = true
						continue
					}
					jb.g = c.And(c.Le(c.Int(0), measures[cd]), c.Lt(t, measures[cd]))
				} else {
					g, ok := x.tryEval(func() *Term { return cd.f(fr, benv, jb.ss) })
					if !ok {
						dead[cd] = true
						continue
					}
					jb.g = g
				}
				jb.qs = x.queries(jb.ss, jb.g)
				jobs = append(jobs, jb)
			}
			parallel(len(jobs), func(i int) { jobs[i].ok = proveAll(jobs[i].qs, tmo, jobs[i].cd.slow()) })
			for _, jb := range jobs {
				if jb.ok {
					continue
				}
				cd := jb.cd
				dead[cd] = true
				if !cd.must && cd.decr == nil {
					x.loopDead[visit][cd.name] = true
				}
				if debugLoops && cd.decr == nil {
					fmt.Printf("  drop %s\n", cd.name)
					for _, q := range jb.qs {
						if r, _ := Prove(q, tmo, cd.slow()); !r {
							dropN++
							os.WriteFile(fmt.Sprintf("/tmp/drop%d.smt2", dropN), []byte("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"+q+"(check-sat)\n"), 0o644)
							break
						}
					}
				}
				if cd.must {
					x.quiet++
					cd.fails = &Obl{Name: cd.name + " is kept by every iteration", Pos: x.pos(loopPos(l)), assume: jb.ss.facts(), goal: jb.g}
					x.quiet--
				}
			}
		}
		x.quiet++
		x.enterHeader(fr, henv.clone(), hs, l, &Ctl{run: run, prev: ctl}, k)
		x.quiet--
		if len(dead) > 0 {
			var na []*cand
			for _, cd := range alive {
				if !dead[cd] {
					na = append(na, cd)
				}
			}
			if !changed {
				for cd := range dead {
					if cd.decr == nil {
						changed = true
					}
				}
				alive = na
			}
		}
		if debugLoops {
			fmt.Printf("loop %s b%d pass %d: %d candidates, %d dead, changed %v, mods %v\n", fr.key, l.header.Index, iter, len(alive), len(dead), changed, modNames(M))
		}
		if nback > 0 {
			var fjobs []*ejob
			for _, cd := range append(x.rowCands(M, framed, entrySt), x.frameCands(M, framed)...) {
				es := entrySt.clone()
				if g, ok := x.tryEval(func() *Term { return cd.f(fr, entryEnv, es) }); ok {
					fjobs = append(fjobs, &ejob{cd: cd, qs: x.queries(es, g)})
				}
			}
			parallel(len(fjobs), func(i int) { fjobs[i].ok = proveAll(fjobs[i].qs, tmo, 0) })
			for _, jb := range fjobs {
				if jb.ok {
					alive = append(alive, jb.cd)
					changed = true
				}
			}
		}
		if !changed {
			if nback > 0 {
				term := false
				for _, cd := range alive {
					if cd.decr != nil {
						term = true
					} else if x.quiet == 0 {
						x.hidden++
					}
				}
				if x.quiet == 0 {
					x.loopsN++
					if term || l.ranges {
						x.measured++
					} else if !(x.con != nil && x.con.Diverges) && !x.divergesOK(fr) {
						x.addObl(entrySt, c.False, "loop terminates", loopPos(l))
					}
					for _, cd := range cands {
						if cd.must {
							ok := false
							for _, a := range alive {
								if a == cd {
									ok = true
								}
							}
							if ok {
								x.mustOK[cd.name] = true
							} else if cd.fails != nil && !x.mustOK[cd.name] {
								x.mustBad[cd.name] = cd.fails
							}
						}
					}
				}
			}
			break
		}
	}
	if x.loopMods == nil {
		x.loopMods = map[*Loop]map[string]*mods{}
	}
	x.loopMods[l] = M

	// the final pass: obligations of the body, and the code after the loop
	henv, hs, _ := header()
	hdrSt := hs.clone()
	run := &LoopRun{loop: l}
	run.back = func(fr *Frame, env *Env, bs *State, pred *ssa.BasicBlock) {
		if x.quiet > 0 || fr.parent != nil || x.con == nil {
			return
		}
		benv := env.clone()
		for ph, v := range x.phis(fr, env, pred, l.header) {
			n := *v
			n.T = ph.Type()
			benv.m[ph] = &n
		}
		for _, cl := range x.con.Each {
			se := x.loopEnv(fr, benv, bs, l)
			se.old = hdrSt
			if t, ok := x.tryEval(func() *Term { return se.boolExpr(cl.E) }); ok {
				x.addObl(bs, t, "each iteration: "+cl.Src, loopPos(l))
				x.mustOK["each "+cl.Src] = true
			}
		}
	}
	x.enterHeader(fr, henv, hs, l, &Ctl{run: run, prev: ctl}, k)
}

var debugLoops = false
var dropN = 0

func modNames(M map[string]*mods) []string {
	var out []string
	for k, m := range M {
		out = append(out, fmt.Sprintf("%s(%d refs fresh=%v unknown=%v)", k, len(m.refs), m.fresh, m.unknown))
	}
	sort.Strings(out)
	return out
}

func (x *X) divergesOK(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		if con := x.P.specs.Contracts[f.key]; con != nil && con.Diverges {
			return true
		}
	}
	return false
}

func (x *X) mustFail(st *State, g *Term, name string, l *Loop) {
	if x.quiet == 0 {
		n := strings.TrimSuffix(name, " holds on entry")
		if x.mustBad[n] == nil {
			x.mustBad[n] = &Obl{Name: name, Pos: x.pos(loopPos(l)), assume: st.facts(), goal: g}
		}
	}
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *X) enterHeader(fr *Frame, env *Env, st *State, l *Loop, ctl *Ctl, k Cont) {
	i := 0
	for i < len(l.header.Instrs) {
		if _, ok := l.header.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	x.instrs(fr, env, st, l.header, i, ctl, k)
}

func (x *X) tryEval(f func() *Term) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupported); is {
				if debugLoops && strings.HasPrefix(string(u), "spec") {
					fmt.Println("   eval:", u)
				}
				t, ok = nil, false
				return
			}
			if s, is := r.(string); is && strings.Contains(s, "sort") {
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return f(), true
}

// freshLike is an arbitrary value for a loop variable.
func (x *X) freshLike(st *State, ph *ssa.Phi, ev *Val) *Val {
	n := ph.Comment
	if n == "" {
		n = ph.Name()
	}
	if pt, ok := ph.Type().Underlying().(*types.Pointer); ok && ev.key != "" && pt != nil {
		v := st.freshVal(n, ph.Type())
		v.key = ev.key
		return v
	}
	return st.freshVal(n, ph.Type())
}

// bornAfter reports whether t mentions a variable made after the mark.
func (x *X) bornAfter(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "var" {
			if i := strings.LastIndexByte(t.name, '!'); i >= 0 {
				if n, err := strconv.Atoi(t.name[i+1:]); err == nil && n > mark {
					return true
				}
			}
			return false
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// addMods records what changed in a heap key during an iteration.
func (x *X) addMods(M map[string]*mods, key string, cur, base *Term, st *State, entryNext *Term, mark int, entryEnv *Env, phis []*ssa.Phi) bool {
	m := M[key]
	changed := false
	if m == nil {
		m = &mods{refs: map[*Term]bool{}, cells: map[*Term]map[*Term]bool{}}
		M[key] = m
		changed = true
		x.keySort[key] = cur.sort
	}
	if strings.HasPrefix(key, "g:") {
		m.unknown = true
		return changed
	}
	c := x.c
	seen := map[*Term]bool{}
	var walk func(t *Term)
	addRef := func(r *Term) {
		if m.refs[r] || m.unknown {
			return
		}
		if e, k := c.nextParts(r); e >= 0 {
			if e0, k0 := c.nextParts(entryNext); e > e0 || e == e0 && k >= k0 {
				if !m.fresh {
					m.fresh, changed = true, true
				}
				return
			}
		}
		if strings.Contains(r.name, "gf:") || strings.Contains(r.name, "gf_") || r.op == "select" && rootVar(r) != nil && strings.Contains(rootVar(r).name, "gf") {
			// there is nothing at nil
			if x.entails(st, c.Eq(r, c.Int(0)), time.Second) {
				return
			}
		}
		if !x.bornAfter(r, mark) {
			m.refs[r] = true
			changed = true
			if debugLoops {
				fmt.Println("  ref", c.Show(r), "in", key)
			}
			return
		}
		if c.Le(entryNext, r) == c.True {
			if !m.fresh {
				m.fresh, changed = true, true
			}
			return
		}
		if e, k := c.nextParts(r); e >= 0 && k >= 0 {
			if !m.fresh {
				m.fresh, changed = true, true
			}
			return
		}
		if r.op == "app" && r.name == "sr" {
			rt := r.args[0]
			if e, k := c.nextParts(rt); e >= 0 && k >= 0 {
				if !m.fresh || !m.sub {
					m.fresh, m.sub, changed = true, true, true
				}
				return
			}
		}
		// equal to something older, or fresh?
		var opts []*Term
		opts = append(opts, c.Le(entryNext, r))
		var olds []*Term
		for rr := range m.refs {
			olds = append(olds, rr)
		}
		for _, ph := range phis {
			v := entryEnv.m[ph]
			if v != nil && v.T != nil && len(v.ts) > 0 {
				switch v.T.Underlying().(type) {
				case *types.Slice, *types.Pointer, *types.Map:
					olds = append(olds, v.ts[0])
				}
			}
		}
		for _, o := range olds {
			opts = append(opts, c.Eq(r, o))
		}
		if x.entails(st, c.Or(opts...), time.Second) {
			if !m.fresh {
				m.fresh, changed = true, true
			}
			for _, o := range olds {
				if !m.refs[o] {
					m.refs[o] = true
					changed = true
				}
			}
			return
		}
		if debugLoops {
			fmt.Println("  unknown ref", c.Show(r), "in", key)
		}
		m.unknown = true
		changed = true
	}
	// what base was made from, with the references stored to on the way
	anc := map[*Term][]*Term{}
	var on []*Term
	for t := base; ; {
		anc[t] = on
		if t.op == "store" {
			on = append(on[:len(on):len(on)], t.args[1])
			t = t.args[0]
			continue
		}
		if h := x.havocs[t]; h != nil && !h.m.unknown {
			break // its own references were recorded when it was made
		}
		break
	}
	touch := func(r, row *Term) {
		had := m.refs[r]
		addRef(r)
		if !m.refs[r] {
			return
		}
		cs := x.rowCells(row, c.Select(base, r), mark)
		if !had {
			if cs != nil {
				m.cells[r] = cs
			}
		} else if old := m.cells[r]; old != nil {
			if cs == nil {
				delete(m.cells, r)
				changed = true
			}
			for i := range cs {
				if !old[i] {
					old[i], changed = true, true
				}
			}
		}
	}
	walk = func(t *Term) {
		if rs, ok := anc[t]; ok {
			for _, r := range rs {
				touch(r, c.Select(cur, r))
			}
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "store":
			walk(t.args[0])
			touch(t.args[1], t.args[2])
			return
		case "ite":
			walk(t.args[1])
			walk(t.args[2])
			return
		case "var":
			if h, ok := x.havocs[t]; ok {
				if h.m.unknown {
					if !m.unknown {
						m.unknown, changed = true, true
					}
					return
				}
				var rs []*Term
				for r := range h.m.refs {
					rs = append(rs, r)
				}
				sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
				for _, r := range rs {
					had := m.refs[r]
					addRef(r)
					if hc := h.m.cells[r]; !had && hc != nil && m.refs[r] {
						m.cells[r] = map[*Term]bool{}
						for i := range hc {
							m.cells[r][i] = true
						}
					} else if had && m.cells[r] != nil {
						for i := range hc {
							if !m.cells[r][i] {
								m.cells[r][i], changed = true, true
							}
						}
						if hc == nil {
							delete(m.cells, r)
							changed = true
						}
					}
				}
				if h.m.fresh && !m.fresh {
					m.fresh, changed = true, true
				}
				if h.m.sub && !m.sub {
					m.sub, changed = true, true
				}
				walk(h.base)
				return
			}
		}
		if !m.unknown {
			m.unknown, changed = true, true
		}
	}
	walk(cur)
	return changed
}

// rowCells lists the entries stored to on the way from row base to row cur;
// nil if that isn't known.
func (x *X) rowCells(cur, base *Term, mark int) map[*Term]bool {
	if !isArr(cur.sort) {
		return nil
	}
	out := map[*Term]bool{}
	strip := func(t *Term) *Term {
		for t.op == "store" {
			if x.bornAfter(t.args[1], mark) {
				return nil
			}
			out[t.args[1]] = true
			t = t.args[0]
		}
		return t
	}
	if b, a := strip(base), strip(cur); a == nil || a != b {
		return nil
	}
	if len(out) > 6 {
		return nil
	}
	return out
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

type havocInfo struct {
	base *Term
	m    *mods
}

// havocLoopKey makes a heap key arbitrary where the loop may have changed it.
func (x *X) havocLoopKey(hs, entry *State, key string, m *mods, entryNext *Term) {
	c := x.c
	s := x.keySort[key]
	base := entry.heapGet(key, s)
	if m.unknown || !isArr(s) || strings.HasPrefix(key, "g:") {
		v := c.Fresh("H:"+key, s)
		c.hvEpoch[v] = x.epoch
		x.havocs[v] = &havocInfo{base, &mods{unknown: true}}
		hs.heap[key] = v
		return
	}
	_, rs := arrParts(s)
	var refs []*Term
	for r := range m.refs {
		refs = append(refs, r)
	}
	sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
	if !m.fresh {
		h := base
		for _, r := range refs {
			if cs := m.cells[r]; cs != nil {
				rw := c.Select(h, r)
				_, es := arrParts(rs)
				for _, i := range sortedTerms(cs) {
					v := x.havocCell(key, es)
					rw = c.Store(rw, i, v)
				}
				h = c.Store(h, r, rw)
				continue
			}
			v := c.Fresh("H:"+key, rs)
			c.hvEpoch[v] = x.epoch
			h = c.Store(h, r, v)
		}
		hs.heap[key] = h
		return
	}
	v := c.Fresh("H:"+key, s)
	c.hvEpoch[v] = x.epoch
	hm := &mods{refs: map[*Term]bool{}, cells: map[*Term]map[*Term]bool{}, fresh: true, sub: m.sub}
	for r := range m.refs {
		hm.refs[r] = true
		if m.cells[r] != nil {
			hm.cells[r] = map[*Term]bool{}
			for i := range m.cells[r] {
				hm.cells[r][i] = true
			}
		}
	}
	x.havocs[v] = &havocInfo{base, hm}
	r := c.Bound("r", SInt)
	lt := c.Lt(r, entryNext)
	if m.sub {
		lt = c.And(lt, c.Lt(c.App("root", r), entryNext))
	}
	conds := []*Term{lt}
	for _, o := range refs {
		conds = append(conds, c.Not(c.Eq(r, o)))
		if cs := m.cells[o]; cs != nil {
			ks, _ := arrParts(rs)
			i := c.Bound("i", ks)
			var ne []*Term
			for _, k := range sortedTerms(cs) {
				ne = append(ne, c.Not(c.Eq(i, k)))
			}
			sel := c.Select(c.Select(v, o), i)
			hs.assume(c.Forall([]*Term{i}, [][]*Term{{sel}}, c.Imp(c.And(ne...), c.Eq(sel, c.Select(c.Select(base, o), i)))))
		}
	}
	hs.assume(c.Forall([]*Term{r}, [][]*Term{{c.Select(v, r)}}, c.Imp(c.And(conds...), c.Eq(c.Select(v, r), c.Select(base, r)))))
	hs.heap[key] = v
}

// frameCands are candidates saying that, of what a loop may write to, only
// what the function's contract lists differs from the state on entry.
func (x *X) frameCands(M map[string]*mods, done map[string]bool) (out []*cand) {
	c := x.c
	if x.con == nil || x.con.ModAny || x.entry == nil {
		return
	}
	for _, m := range x.con.Modifies {
		if m.op == "id" && m.s == "everything" {
			return
		}
	}
	next0 := x.entry.next()
	for _, key := range sortedKeys(M) {
		key := key
		m := M[key]
		s := x.keySort[key]
		if strings.HasPrefix(key, "g:") || strings.HasPrefix(key, "iter#") || !isArr(s) {
			continue
		}
		_, rng := arrParts(s)
		if !isArr(rng) {
			continue
		}
		ks, _ := arrParts(rng)
		add := func(id string, r *Term) {
			if done[id] {
				return
			}
			done[id] = true
			out = append(out, &cand{name: "frame " + id, f: func(fr *Frame, env *Env, st *State) *Term {
				menv := &SEnv{x: x, st: x.entry.clone(), old: x.entry.clone(), vars: x.params, pkg: x.con.Pkg}
				rr := r
				var bs []*Term
				if rr == nil {
					rr = c.Bound("fr", SInt)
					bs = append(bs, rr)
				}
				i := c.Bound("fi", ks)
				cur, base := st.heapGet(key, s), x.entry.heapGet(key, s)
				var al []*Term
				for _, mo := range x.con.Modifies {
					al = append(al, x.allowed(menv, mo, key, rr, i))
				}
				cell := c.Select(c.Select(cur, rr), i)
				al = append(al, c.Eq(cell, c.Select(c.Select(base, rr), i)), c.Le(next0, rr), c.Le(next0, c.App("root", rr)))
				return c.Forall(append(bs, i), [][]*Term{{cell}}, c.Or(al...))
			}})
		}
		if m.unknown {
			add(key, nil)
			continue
		}
		for _, r := range sortedTerms(m.refs) {
			if m.cells[r] == nil && !(c.isFr[r] && c.older(next0, r)) {
				add(fmt.Sprintf("%s@%d", key, r.id), r)
			}
		}
	}
	return
}

// rowCands are candidates saying that a loop that may write anywhere changes
// nothing that existed when it was entered.
func (x *X) rowCands(M map[string]*mods, done map[string]bool, entry *State) (out []*cand) {
	c := x.c
	next := entry.next()
	for _, key := range sortedKeys(M) {
		key := key
		s := x.keySort[key]
		if !M[key].unknown || strings.HasPrefix(key, "g:") || strings.HasPrefix(key, "iter#") || !isArr(s) || done["row "+key] {
			continue
		}
		if d, _ := arrParts(s); d != SInt {
			continue
		}
		done["row "+key] = true
		base := entry.heapGet(key, s)
		out = append(out, &cand{name: "row " + key, f: func(fr *Frame, env *Env, st *State) *Term {
			r := c.Bound("fr", SInt)
			cur := c.Select(st.heapGet(key, s), r)
			return c.Forall([]*Term{r}, [][]*Term{{cur}}, c.Or(c.Le(next, r), c.Le(next, c.App("root", r)), c.Eq(cur, c.Select(base, r))))
		}})
	}
	return
}

// havocCell is an arbitrary entry of a heap key.
func (x *X) havocCell(key string, s Sort) *Term {
	v := x.c.Fresh("H:"+key, s)
	x.c.hvEpoch[v] = x.epoch
	return v
}

// ---- candidate invariants

func (x *X) loopEnv(fr *Frame, env *Env, st *State, l *Loop) *SEnv {
	vars := map[string]*Val{}
	top := fr.parent == nil
	if top {
		for n, v := range x.params {
			if !x.reassigned(fr.fn, n) {
				vars[n] = v
			}
		}
	}
	se := &SEnv{x: x, st: st, old: x.entry, vars: vars, pkg: fr.pkg()}
	se.resolve = func(n string) *Val { return x.resolveLocal(fr, env, st, l, n) }
	return se
}

func (fr *Frame) pkg() *types.Package {
	for f := fr.fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
	}
	return nil
}

func (x *X) names(fn *ssa.Function) map[string][]ssa.Value {
	if m, ok := x.nameCache[fn]; ok {
		return m
	}
	m := map[string][]ssa.Value{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.DebugRef:
				if id, ok := in.Expr.(*ast.Ident); ok {
					m[id.Name] = append(m[id.Name], in.X)
				}
			case *ssa.Phi:
				if in.Comment != "" {
					m[in.Comment] = append(m[in.Comment], in)
				}
			case *ssa.Alloc:
				if in.Comment != "" {
					m[in.Comment] = append(m[in.Comment], in)
				}
			}
		}
	}
	if x.nameCache == nil {
		x.nameCache = map[*ssa.Function]map[string][]ssa.Value{}
	}
	x.nameCache[fn] = m
	return m
}

func (x *X) resolveLocal(fr *Frame, env *Env, st *State, l *Loop, n string) *Val {
	// loop variables first
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph.Comment == n {
			return env.m[ph]
		}
		if n == "#i" && ph.Comment == "rangeindex" {
			v := *env.m[ph]
			v.ts = []*Term{x.c.AddK(v.ts[0], 1)}
			return &v
		}
	}
	if n == "#o" {
		// the iteration of the enclosing loop
		var best *Loop
		for _, o := range x.loops(fr.fn) {
			if o != l && o.body[l.header] && (best == nil || best.body[o.header]) {
				best = o
			}
		}
		if best == nil {
			return nil
		}
		return x.resolveLocal(fr, env, st, best, "#i")
	}
	if n == "#it" {
		for b := range l.body {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					return env.m[nx.Iter]
				}
			}
		}
	}
	if n == "#range" {
		// the slice or map ranged over
		for b := range l.body {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					return env.m[nx.Iter].iter.m
				}
			}
		}
	}
	for i, p := range fr.fn.Params {
		if p.Name() == n && !x.reassigned(fr.fn, n) {
			return fr.args[i]
		}
	}
	for i, f := range fr.fn.FreeVars {
		if f.Name() == n {
			v := fr.binds[i]
			if pt, ok := v.T.Underlying().(*types.Pointer); ok {
				return st.load(v, pt.Elem())
			}
			return v
		}
	}
	var best *Val
	var bestB *ssa.BasicBlock
	for _, v := range x.names(fr.fn)[n] {
		in, ok := v.(ssa.Instruction)
		var blk *ssa.BasicBlock
		if ok {
			blk = in.Block()
			if !blk.Dominates(l.header) || blk == l.header {
				continue
			}
		}
		ev := env.m[v]
		if ev == nil {
			if cst, ok := v.(*ssa.Const); ok {
				_ = cst
			}
			continue
		}
		if best == nil || blk != nil && bestB != nil && bestB.Dominates(blk) {
			best, bestB = ev, blk
			if a, ok := v.(*ssa.Alloc); ok && a.Comment == n {
				best = st.load(ev, a.Type().Underlying().(*types.Pointer).Elem())
			}
		}
	}
	if best != nil {
		return best
	}
	for i, p := range fr.fn.Params {
		if p.Name() == n {
			return fr.args[i]
		}
	}
	return nil
}

// reassigned reports whether a parameter's name is also carried by a phi.
func (x *X) reassigned(fn *ssa.Function, n string) bool {
	for _, v := range x.names(fn)[n] {
		if _, ok := v.(*ssa.Phi); ok {
			return true
		}
	}
	return false
}

func (x *X) candidates(fr *Frame, l *Loop, phis []*ssa.Phi, entryEnv *Env, entrySt *State) []*cand {
	c := x.c
	var out []*cand
	add := func(name string, f func(fr *Frame, env *Env, st *State) *Term) {
		out = append(out, &cand{name: name, f: f})
	}
	entryNext := entrySt.next()
	var bounds []ssa.Value
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l.body[in.Block()]
	}
	// comparisons in the loop
	type cmp struct {
		a, b ssa.Value
		op   token.Token
	}
	var cmps []cmp
	for _, b := range sortedBlocks(l) {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					if t, ok := bo.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
						cmps = append(cmps, cmp{bo.X, bo.Y, bo.Op})
						if !inLoop(bo.Y) {
							bounds = append(bounds, bo.Y)
						}
						if !inLoop(bo.X) {
							bounds = append(bounds, bo.X)
						}
					}
				}
			}
		}
	}
	get := func(fr *Frame, env *Env, v ssa.Value) *Term { return x.val(fr, env, v).t() }
	var slicePhis []*ssa.Phi
	var intPhis []*ssa.Phi
	for _, ph := range phis {
		ph := ph
		switch u := ph.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				continue
			}
			intPhis = append(intPhis, ph)
			init := entryEnv.m[ph].t()
			add(ph.Comment+" >= initial", func(fr *Frame, env *Env, st *State) *Term { return c.Le(init, get(fr, env, ph)) })
			add(ph.Comment+" <= initial", func(fr *Frame, env *Env, st *State) *Term { return c.Le(get(fr, env, ph), init) })
			add(ph.Comment+" >= 0", func(fr *Frame, env *Env, st *State) *Term { return c.Le(c.Int(0), get(fr, env, ph)) })
			for _, b := range bounds {
				b := b
				if _, isPhi := b.(*ssa.Phi); isPhi && inLoop(b) {
					continue
				}
				add(ph.Comment+" <= bound", func(fr *Frame, env *Env, st *State) *Term { return c.Le(get(fr, env, ph), get(fr, env, b)) })
				add(ph.Comment+" < bound", func(fr *Frame, env *Env, st *State) *Term { return c.Lt(get(fr, env, ph), get(fr, env, b)) })
			}
		case *types.Slice:
			slicePhis = append(slicePhis, ph)
			iv := entryEnv.m[ph]
			add(ph.Comment+" same or new memory", func(fr *Frame, env *Env, st *State) *Term {
				v := env.m[ph]
				return c.Or(c.Eq(v.ts[0], iv.ts[0]), c.Le(entryNext, v.ts[0]))
			})
			add(ph.Comment+" same memory", func(fr *Frame, env *Env, st *State) *Term { return c.Eq(env.m[ph].ts[0], iv.ts[0]) })
			add(ph.Comment+" new memory", func(fr *Frame, env *Env, st *State) *Term {
				v := env.m[ph]
				return c.Or(c.Eq(v.ts[0], c.Int(0)), c.Le(entryNext, v.ts[0]))
			})
			add(ph.Comment+" same end", func(fr *Frame, env *Env, st *State) *Term {
				v := env.m[ph]
				if iv.ts[2] == c.Int(0) {
					panic(unsupported("n/a"))
				}
				return c.And(c.Eq(c.Add(v.ts[1], v.ts[2]), c.Add(iv.ts[1], iv.ts[2])), c.Le(iv.ts[1], v.ts[1]))
			})
			add(ph.Comment+" not shorter", func(fr *Frame, env *Env, st *State) *Term { return c.Le(iv.ts[2], env.m[ph].ts[2]) })
			add(ph.Comment+" same start", func(fr *Frame, env *Env, st *State) *Term { return c.Eq(env.m[ph].ts[1], iv.ts[1]) })
			add(ph.Comment+" suffix", func(fr *Frame, env *Env, st *State) *Term {
				v := env.m[ph]
				if !isByteSlice(v.T) || iv.ts[2] == c.Int(0) {
					panic(unsupported("n/a"))
				}
				return c.Eq(st.bytesOf(v), c.SubSeq(entrySt.bytesOf(iv), c.Sub(iv.ts[2], v.ts[2]), iv.ts[2]))
			})
			out = append(out, &cand{name: "measure len(" + ph.Comment + ")", decr: func(fr *Frame, env *Env, st *State) *Term { return env.m[ph].ts[2] }})
		case *types.Pointer:
			iv := entryEnv.m[ph]
			add(ph.Comment+" unchanged pointer", func(fr *Frame, env *Env, st *State) *Term { return x.eq(env.m[ph], iv) })
			add(ph.Comment+" not nil", func(fr *Frame, env *Env, st *State) *Term { return c.Not(c.Eq(env.m[ph].ts[0], c.Int(0))) })
		}
	}
	for _, ph := range intPhis {
		ph := ph
		for _, sp := range slicePhis {
			sp := sp
			add(ph.Comment+" <= len("+sp.Comment+")", func(fr *Frame, env *Env, st *State) *Term { return c.Le(get(fr, env, ph), env.m[sp].ts[2]) })
		}
		// lengths of slices and strings in scope
		for i, p := range fr.fn.Params {
			switch u := p.Type().Underlying().(type) {
			case *types.Slice:
				i := i
				add(ph.Comment+" <= len("+p.Name()+")", func(fr *Frame, env *Env, st *State) *Term { return c.Le(get(fr, env, ph), fr.args[i].ts[2]) })
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					i := i
					add(ph.Comment+" <= len("+p.Name()+")", func(fr *Frame, env *Env, st *State) *Term { return c.Le(get(fr, env, ph), c.Slen(fr.args[i].t())) })
				}
			}
		}
	}
	// termination measures from comparisons
	for _, cm := range cmps {
		a, b := cm.a, cm.b
		side := func(v ssa.Value) func(fr *Frame, env *Env) *Term {
			if !inLoop(v) {
				return func(fr *Frame, env *Env) *Term { return get(fr, env, v) }
			}
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.header {
				return func(fr *Frame, env *Env) *Term { return get(fr, env, ph) }
			}
			// phi +- constant
			if bo, ok := v.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				if ph, ok := bo.X.(*ssa.Phi); ok && ph.Block() == l.header {
					return func(fr *Frame, env *Env) *Term { return get(fr, env, ph) }
				}
			}
			return nil
		}
		fa, fb := side(a), side(b)
		if fa == nil || fb == nil {
			continue
		}
		for k := int64(0); k <= 1; k++ {
			k := k
			out = append(out, &cand{name: "measure b-a", decr: func(fr *Frame, env *Env, st *State) *Term { return c.AddK(c.Sub(fb(fr, env), fa(fr, env)), k) }})
			out = append(out, &cand{name: "measure a-b", decr: func(fr *Frame, env *Env, st *State) *Term { return c.AddK(c.Sub(fa(fr, env), fb(fr, env)), k) }})
		}
	}
	// range loops over slices: index below the length
	for _, ph := range intPhis {
		ph := ph
		if ph.Comment == "rangeindex" {
			for _, cm := range cmps {
				if bo, ok := cm.a.(*ssa.BinOp); ok && bo.X == ssa.Value(ph) && !inLoop(cm.b) {
					b := cm.b
					add("rangeindex < length", func(fr *Frame, env *Env, st *State) *Term {
						return c.Lt(get(fr, env, ph), c.Ite(c.Lt(c.Int(0), get(fr, env, b)), get(fr, env, b), c.Int(0)))
					})
				}
			}
		}
	}
	// specified invariants
	con := x.P.specs.Contracts[fr.key]
	for f := fr; con == nil && f.parent != nil; f = f.parent {
		// a helper that isn't under contract: the caller's invariants may apply
		con = x.P.specs.Contracts[f.parent.key]
	}
	if x.P.specs.Contracts[fr.key] == nil {
		// a renamed function: invariants of those that no longer exist may apply
		for _, oc := range x.P.orphans(fr.pkg()) {
			for _, cl := range oc.Invs {
				cl.Must = false
				out = append(out, x.specCands(fr, l, phis, entryEnv, entrySt, cl)...)
			}
		}
	}
	if con != nil {
		for _, cl := range con.Invs {
			out = append(out, x.specCands(fr, l, phis, entryEnv, entrySt, cl)...)
		}
		for _, cl := range con.Decr {
			cl := cl
			out = append(out, &cand{name: "decreases " + cl.Src, decr: func(fr *Frame, env *Env, st *State) *Term {
				return x.loopEnv(fr, env, st, l).eval(cl.E).t()
			}})
		}
	}
	return out
}

func sortedBlocks(l *Loop) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range l.body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}

// freeIDs lists the identifiers an expression uses.
func freeIDs(e *Expr, bound map[string]bool, out map[string]bool) {
	if e == nil {
		return
	}
	switch e.op {
	case "id":
		if !bound[e.s] {
			out[e.s] = true
		}
	case "forall", "exists", "arr":
		nb := map[string]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range e.vars {
			nb[v.name] = true
		}
		for _, a := range e.args {
			freeIDs(a, nb, out)
		}
		return
	case "let":
		freeIDs(e.args[0], bound, out)
		nb := map[string]bool{e.s: true}
		for k := range bound {
			nb[k] = true
		}
		freeIDs(e.args[1], nb, out)
		return
	}
	for _, a := range e.args {
		freeIDs(a, bound, out)
	}
}

func (x *X) specCands(fr *Frame, l *Loop, phis []*ssa.Phi, entryEnv *Env, entrySt *State, cl Clause) []*cand {
	mk := func(name string, sub map[string]func(env *Env) *Val) *cand {
		return &cand{name: name, must: cl.Must, f: func(fr *Frame, env *Env, st *State) *Term {
			se := x.loopEnv(fr, env, st, l)
			if fr.parent != nil {
				for n, v := range x.params {
					if se.resolve(n) == nil {
						se.vars[n] = v
					}
				}
			}
			ie := x.loopEnv(fr, entryEnv, entrySt.clone(), l)
			for n, v := range se.vars {
				ie.vars[n] = v
			}
			for n, g := range sub {
				se.vars[n] = g(env)
				ie.vars[n] = g(entryEnv)
			}
			se.init = ie
			t := se.boolExpr(cl.E)
			for p := ie.st.pc; p != nil && p != entrySt.pc; p = p.prev {
				st.assume(p.t)
			}
			return t
		}}
	}
	out := []*cand{mk("invariant "+cl.Src, nil)}
	// names that no longer exist: try every loop variable in that role
	ids := map[string]bool{}
	freeIDs(cl.E, map[string]bool{}, ids)
	var un []string
	for n := range ids {
		if x.params[n] != nil || x.P.specs.Ghosts[n] != nil || x.P.specs.Recs[n] != nil || n == "true" || n == "false" || n == "nil" || x.P.pkgs[n] != nil {
			continue
		}
		if p := fr.pkg(); p != nil && p.Scope().Lookup(n) != nil {
			continue
		}
		if x.resolveLocal(fr, entryEnv, entrySt.clone(), l, n) != nil {
			continue
		}
		un = append(un, n)
	}
	sort.Strings(un)
	if len(un) == 0 || len(un) > 2 {
		return out
	}
	type opt struct {
		n string
		f func(env *Env) *Val
	}
	var opts []opt
	for _, ph := range phis {
		ph := ph
		opts = append(opts, opt{ph.Comment, func(env *Env) *Val { return env.m[ph] }})
		if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			for _, k := range []int64{1, -1} {
				k := k
				opts = append(opts, opt{fmt.Sprintf("%s%+d", ph.Comment, k), func(env *Env) *Val {
					v := *env.m[ph]
					v.ts = []*Term{x.c.AddK(v.ts[0], k)}
					return &v
				}})
			}
		}
	}
	var rec func(i int, sub map[string]func(*Env) *Val, name string)
	rec = func(i int, sub map[string]func(*Env) *Val, name string) {
		if i == len(un) {
			m := map[string]func(*Env) *Val{}
			for k, v := range sub {
				m[k] = v
			}
			cd := mk("invariant "+cl.Src+" with "+name, m)
			cd.must = false
			out = append(out, cd)
			return
		}
		for _, o := range opts {
			sub[un[i]] = o.f
			rec(i+1, sub, name+" "+un[i]+"="+o.n)
		}
	}
	if len(opts) > 0 && len(opts) <= 15 {
		rec(0, map[string]func(*Env) *Val{}, "")
	}
	return out
}

// bornVars collects the generated variables of a term.
func bornVars(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "var" && strings.IndexByte(t.name, '!') >= 0 {
			out[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

func allKnown(t *Term, known map[*Term]bool) bool {
	vs := map[*Term]bool{}
	bornVars(t, vs)
	for v := range vs {
		if !known[v] {
			return false
		}
	}
	return true
}
