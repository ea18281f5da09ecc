package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *X) callee(fr *Frame, env *Env, cc *ssa.CallCommon) (*Val, []*Val) {
	var args []*Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, env, a))
	}
	if cc.IsInvoke() {
		return &Val{T: cc.Value.Type(), recv: x.val(fr, env, cc.Value), meth: cc.Method}, args
	}
	return x.val(fr, env, cc.Value), args
}

func (x *X) call(fr *Frame, st *State, cc *ssa.CallCommon, f *Val, args []*Val, pos token.Pos, k Cont) {
	sig := cc.Signature()
	if f.bi != "" {
		x.builtin(fr, st, cc, f.bi, args, pos, k)
		return
	}
	if f.meth != nil {
		x.invoke(fr, st, f, args, sig, pos, k)
		return
	}
	if f.fn == nil {
		if kn, ok := x.known[f.t()]; ok && kn.fn != nil {
			f = kn
		}
	}
	if f.fn != nil {
		x.callFn(fr, st, f.fn, args, f.binds, pos, k)
		return
	}
	x.oblige(st, x.c.Not(x.c.Eq(f.t(), x.c.Int(0))), "called function isn't nil", pos)
	// a function value that isn't known: contract of its type
	if n, ok := cc.Value.Type().(*types.Named); ok {
		key := shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
		if con := x.P.specs.Contracts["functype "+key]; con != nil {
			x.applyContract(fr, st, con, sig, append([]*Val{f}, args...), nil, pos, k)
			return
		}
	}
	if con := x.P.specs.Contracts["functype "+x.valueName(cc.Value)]; con != nil {
		x.applyContract(fr, st, con, sig, append([]*Val{f}, args...), nil, pos, k)
		return
	}
	panic(unsupported("call of unknown function value " + cc.Value.Name() + " (" + x.valueName(cc.Value) + ")"))
}

// valueName describes where a function value comes from: the field or parameter it was loaded from.
func (x *X) valueName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
			return typeKey(pt) + "." + pt.Underlying().(*types.Struct).Field(fa.Field).Name()
		}
		if g, ok := v.X.(*ssa.Global); ok {
			return globKey(g)
		}
		return x.valueName(v.X)
	case *ssa.Field:
		return typeKey(v.X.Type()) + "." + v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
	case *ssa.Parameter:
		return FuncKey(v.Parent()) + "/" + v.Name()
	case *ssa.FreeVar:
		return FuncKey(v.Parent()) + "/" + v.Name()
	case *ssa.Phi:
		return FuncKey(v.Parent()) + "/" + v.Comment
	}
	return v.Name()
}

func (x *X) invoke(fr *Frame, st *State, f *Val, args []*Val, sig *types.Signature, pos token.Pos, k Cont) {
	r := f.recv
	d := r.dyn
	if d == nil {
		if kn, ok := x.known[r.t()]; ok {
			d = kn.dyn
		}
	}
	if d != nil {
		m := x.P.ssa.LookupMethod(d.T, f.meth.Pkg(), f.meth.Name())
		if m != nil {
			x.callFn(fr, st, m, append([]*Val{d}, args...), nil, pos, k)
			return
		}
	}
	x.oblige(st, x.c.Not(x.c.Eq(r.t(), x.c.Int(0))), "no method call on nil interface", pos)
	key := MethodKey(f.T, f.meth)
	con := x.P.specs.Contracts[key]
	if con == nil {
		// a method of an embedded interface
		if rt := f.meth.Type().(*types.Signature).Recv(); rt != nil {
			con = x.P.specs.Contracts[MethodKey(rt.Type(), f.meth)]
		}
	}
	if con != nil {
		x.applyContract(fr, st, con, sig, append([]*Val{r}, args...), nil, pos, k)
		return
	}
	x.unknown(st, key, sig, pos, k)
}

func (x *X) unknown(st *State, key string, sig *types.Signature, pos token.Pos, k Cont) {
	x.trusted["no contract for "+key+": its results are arbitrary; assumed to return and not to touch the program's memory"] = true
	st.newNext()
	var res []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, st.freshVal("r", sig.Results().At(i).Type()))
	}
	k(st, res)
}

func (x *X) callFn(fr *Frame, st *State, fn *ssa.Function, args, binds []*Val, pos token.Pos, k Cont) {
	key := FuncKey(fn)
	for i, a := range args {
		if i < len(fn.Params) && a.T != nil && !types.Identical(a.T, fn.Params[i].Type()) {
			n := *a
			n.T = fn.Params[i].Type()
			args[i] = &n
		}
	}
	if h, ok := intrinsics[key]; ok {
		h(x, fr, st, args, fn.Signature, pos, k)
		return
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		k(st, nil) // another package's initialisation
		return
	}
	if len(args) > 0 && args[0].owner != nil {
		// contract for a method of this particular field (of what the lock in it protects)
		if con := x.P.specs.Contracts[key+"@"+args[0].ofld]; con != nil {
			x.applyContract(fr, st, con, fn.Signature, append([]*Val{args[0].owner}, args[1:]...), nil, pos, k)
			return
		}
	}
	con := x.P.specs.Contracts[key]
	if con != nil && !x.noMod[key] && !con.Inline {
		x.called[key] = true
		x.applyContract(fr, st, con, fn.Signature, args, x.freeNames(fn, binds), pos, k)
		return
	}
	if len(fn.Blocks) > 0 {
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				panic(unsupported("recursive call of " + key + " without contract"))
			}
		}
		if fr != nil && fr.depth > 14 {
			panic(unsupported("inlining too deep at " + key))
		}
		if fn.Synthetic == "" {
			x.inlined[key] = true
		}
		nf := x.newFrame(fn, fr, args, binds)
		x.runFunc(nf, st, k)
		return
	}
	x.unknown(st, key, fn.Signature, pos, k)
}

func (x *X) freeNames(fn *ssa.Function, binds []*Val) map[string]*Val {
	if len(binds) == 0 {
		return nil
	}
	m := map[string]*Val{}
	for i, f := range fn.FreeVars {
		m[f.Name()] = binds[i]
	}
	return m
}

// applyContract replaces a call by the callee's contract.
func (x *X) applyContract(fr *Frame, st *State, con *Contract, sig *types.Signature, args []*Val, free map[string]*Val, pos token.Pos, k Cont) {
	if con.Extern {
		x.trusted["contract of "+con.Key+" (assumed)"] = true
	}
	vars := map[string]*Val{}
	for n, v := range free {
		vars[n] = v
	}
	if len(con.Params) > len(args) {
		panic(unsupported(fmt.Sprintf("contract of %s has %d parameters, call %d", con.Key, len(con.Params), len(args))))
	}
	for i, p := range con.Params {
		vars[p] = args[i]
	}
	if recvPtr(sig) && len(args) > 0 && args[0].T != nil && !types.IsInterface(args[0].T) {
		x.checkNil(st, args[0], pos)
	}
	old := st.clone()
	env := &SEnv{x: x, st: st, old: old, vars: vars, pkg: con.Pkg}
	for _, r := range con.Requires {
		x.oblige(st, env.boolExpr(r.E), fmt.Sprintf("precondition of %s: %s", con.Key, r.Src), pos)
	}
	if con.NoReturn {
		return
	}
	old = st.clone()
	env.old = old
	st.newNext()
	for _, m := range con.Modifies {
		x.havocLoc(st, env, m)
	}
	env.st = st
	var res []*Val
	mark := st.pc
	for i := 0; i < sig.Results().Len(); i++ {
		n := "result"
		if i < len(con.Results) {
			n = con.Results[i]
		}
		v := st.freshVal(shortName(con.Key)+"."+n, sig.Results().At(i).Type())
		res = append(res, v)
		vars[n] = v
		if i == 0 {
			vars["result"] = v
		}
	}
	var posts []*Term
	for _, e := range con.Ensures {
		posts = append(posts, env.boolExpr(e.E))
	}
	var splits []*Term
	for _, e := range con.Splits {
		splits = append(splits, env.boolExpr(e.E))
	}
	x.bindResults(st, posts, splits, res, mark, func(st *State, res []*Val) {
		if len(con.Kinds) > 0 {
			for i, r := range res {
				n := "result"
				if i < len(con.Results) {
					n = con.Results[i]
				}
				vars[n] = r
			}
			env.st = st
			for _, u := range con.Kinds {
				u(x, st, env, res)
			}
		}
		k(st, res)
	})
}

// bindResults assumes the postconditions of a call, one path for each case of
// the splits; results that a postcondition determines are replaced by their value.
func (x *X) bindResults(st *State, posts, splits []*Term, res []*Val, mark *PC, k Cont) {
	c := x.c
	if len(splits) > 0 {
		cond := splits[0]
		for i, on := range []bool{true, false} {
			s := st
			if i == 0 {
				s = st.clone()
			}
			m := map[*Term]*Term{cond: c.Bool(on)}
			f := cond
			if !on {
				f = c.Not(cond)
				m[f] = c.True
				if cond.op == "=" && cond.args[0].op == "int" && cond.args[0].n.Sign() == 0 && cond.args[1].lo != nil && cond.args[1].lo.Sign() >= 0 {
					m[c.Lt(c.Int(0), cond.args[1])] = c.True
				}
			} else if cond.op == "=" && cond.args[0].op == "int" && cond.args[1].op == "var" {
				m[cond.args[1]] = cond.args[0]
			}
			np := []*Term{f}
			for _, p := range posts {
				np = append(np, c.Subst(p, m))
			}
			ns := make([]*Term, len(splits)-1)
			for j, p := range splits[1:] {
				ns[j] = c.Subst(p, m)
			}
			if f == c.False {
				continue
			}
			x.bindResults(s, np, ns, res, mark, k)
		}
		return
	}
	vars := map[*Term]bool{}
	var collect func(v *Val)
	collect = func(v *Val) {
		for _, t := range v.ts {
			if t.op == "var" {
				vars[t] = true
			}
		}
		for _, f := range v.fs {
			collect(f)
		}
	}
	for _, r := range res {
		collect(r)
	}
	// what was assumed about the results when they were made
	var made []*Term
	for p := st.pc; p != nil && p != mark; p = p.prev {
		made = append(made, p.t)
	}
	changed := false
	sub := func(m map[*Term]*Term) {
		for i := range posts {
			posts[i] = c.Subst(posts[i], m)
		}
		for i := range made {
			made[i] = c.Subst(made[i], m)
		}
		nr := make([]*Val, len(res))
		for i := range res {
			nr[i] = substVal(c, res[i], m)
		}
		res = nr
		changed = true
	}
	posts = append([]*Term(nil), posts...)
	for round := 0; round < 40; round++ {
		var m map[*Term]*Term
		for i, p := range posts {
			var fs []*Term
			if p.op == "and" {
				fs = p.args
			} else {
				fs = []*Term{p}
			}
			for _, f := range fs {
				if f.op != "=" || len(f.args) != 2 {
					continue
				}
				for d := 0; d < 2; d++ {
					v, t := f.args[d], f.args[1-d]
					if v.op == "var" && vars[v] && t != v && !occurs(t, v) && !c.freeBound(t) {
						m = map[*Term]*Term{v: t}
						delete(vars, v)
						if v.lo != nil {
							made = append(made, c.Le(c.BigInt(v.lo), t))
						}
						if v.hi != nil {
							made = append(made, c.Le(t, c.BigInt(v.hi)))
						}
						if c.progStr[v] {
							made = append(made, c.Le(c.Slen(t), c.BigInt(maxLen)))
						}
						break
					}
				}
				if m != nil {
					break
				}
			}
			_ = i
			if m != nil {
				break
			}
		}
		if m == nil {
			break
		}
		sub(m)
	}
	if changed {
		for i := len(made) - 1; i >= 0; i-- {
			st.assume(made[i])
		}
	}
	for _, p := range posts {
		st.assume(p)
	}
	if st.dead() {
		return
	}
	k(st, res)
}

func occurs(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func substVal(c *Ctx, v *Val, m map[*Term]*Term) *Val {
	n := *v
	n.ts = make([]*Term, len(v.ts))
	for i, t := range v.ts {
		n.ts[i] = c.Subst(t, m)
	}
	n.fs = make([]*Val, len(v.fs))
	for i, f := range v.fs {
		n.fs[i] = substVal(c, f, m)
	}
	return &n
}

func shortName(k string) string {
	for i := len(k) - 1; i >= 0; i-- {
		if k[i] == '.' {
			return k[i+1:]
		}
	}
	return k
}

// ---- builtins

func (x *X) builtin(fr *Frame, st *State, cc *ssa.CallCommon, name string, args []*Val, pos token.Pos, k Cont) {
	c := x.c
	one := func(T types.Type, t *Term) { k(st, []*Val{{T: T, ts: []*Term{t}}}) }
	it := types.Typ[types.Int]
	switch name {
	case "len":
		a := args[0]
		switch u := a.T.Underlying().(type) {
		case *types.Slice:
			one(it, a.ts[2])
		case *types.Basic:
			one(it, c.Slen(a.t()))
		case *types.Map:
			one(it, st.mapLen(a))
		case *types.Array:
			one(it, c.Int(u.Len()))
		case *types.Pointer:
			one(it, c.Int(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Chan:
			k(st, []*Val{st.freshVal("chlen", it)})
		}
		return
	case "cap":
		a := args[0]
		if _, ok := a.T.Underlying().(*types.Slice); ok {
			one(it, a.ts[3])
			return
		}
	case "append":
		k(st, []*Val{x.appendSlice(st, args[0], args[1])})
		return
	case "copy":
		dst, src := args[0], args[1]
		var n *Term
		if isString(src.T) {
			n = c.Slen(src.t())
		} else {
			n = src.ts[2]
		}
		dl := dst.ts[2]
		m := x.minTerm(st, dl, n)
		if isByteSlice(dst.T) {
			var s *Term
			if isString(src.T) {
				s = c.SubSeq(src.t(), c.Int(0), m)
			} else {
				s = c.View(c.Select(st.heapGet("uint8", row(SInt)), src.ts[0]), src.ts[1], m)
			}
			h := st.heapGet("uint8", row(SInt))
			st.heap["uint8"] = c.Store(h, dst.ts[0], c.ACopy(c.Select(h, dst.ts[0]), dst.ts[1], s))
		} else {
			et := elemType(dst.T)
			for _, e := range x.elemKeys(et) {
				h := st.heapGet(e.suf, row(e.sort))
				a := c.Fresh("copied", arr(SInt, e.sort))
				i := c.Bound("i", SInt)
				in := c.And(c.Le(dst.ts[1], i), c.Lt(i, c.Add(dst.ts[1], m)))
				st.assume(c.Forall([]*Term{i}, [][]*Term{{c.Select(a, i)}}, c.Eq(c.Select(a, i), c.Ite(in, c.Select(c.Select(h, src.ts[0]), c.Add(src.ts[1], c.Sub(i, dst.ts[1]))), c.Select(c.Select(h, dst.ts[0]), i)))))
				st.heap[e.suf] = c.Store(h, dst.ts[0], a)
			}
		}
		one(it, m)
		return
	case "delete":
		st.mapDel(args[0], args[1].t())
		k(st, nil)
		return
	case "panic":
		x.oblige(st, c.False, "panic is unreachable", pos)
		return
	case "print", "println":
		k(st, nil)
		return
	case "close":
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		x.checkNil(st, args[0], pos)
		k(st, []*Val{args[0]})
		return
	}
	panic(unsupported("builtin " + name))
}

// minTerm is min(a, b), decided if possible.
func (x *X) minTerm(st *State, a, b *Term) *Term {
	c := x.c
	le := c.Le(a, b)
	if x.entails(st, le, pruneTimeout) {
		return a
	}
	if x.entails(st, c.Le(b, a), pruneTimeout) {
		return b
	}
	m := c.Fresh("min", SInt)
	m.lo, m.hi = new(big.Int), maxLen
	st.assume(c.Eq(m, c.Ite(le, a, b)))
	return m
}

// appendSlice models append(a, b...): in place if there is room, otherwise
// in newly allocated memory.
func (x *X) appendSlice(st *State, a, b *Val) *Val {
	c := x.c
	var n *Term
	if isString(b.T) {
		n = c.Slen(b.t())
	} else {
		n = b.ts[2]
	}
	if n.op == "int" && n.n.Sign() == 0 {
		return a
	}
	bytes := isByteSlice(a.T)
	ref, off, ln, cp := a.ts[0], a.ts[1], a.ts[2], a.ts[3]
	// the runtime panics or runs out of memory beyond the address space
	nl := c.Add(ln, n)
	st.assume(c.Le(nl, c.BigInt(maxLen)))
	fits := c.Le(nl, cp)
	var fresh *Term
	decide := 0
	if ref.op == "int" && ref.n.Sign() == 0 {
		if x.entails(st, c.Lt(c.Int(0), n), pruneTimeout) {
			decide = 2
		}
	} else if x.entails(st, fits, pruneTimeout) {
		decide = 1
	} else if x.entails(st, c.Not(fits), pruneTimeout) {
		decide = 2
	}
	nref, noff, ncap := ref, off, cp
	if decide != 1 {
		fresh = st.alloc()
		nc := c.Fresh("cap", SInt)
		nc.lo, nc.hi = new(big.Int), maxLen
		st.assume(c.Le(nl, nc))
		if decide == 2 {
			nref, noff, ncap = fresh, c.Int(0), nc
		} else {
			nref, noff, ncap = c.Fresh("aref", SInt), c.Fresh("aoff", SInt), c.Fresh("acap", SInt)
			noff.lo, noff.hi = new(big.Int), maxLen
			ncap.lo, ncap.hi = new(big.Int), maxLen
			st.assume(c.Ite(fits, c.And(c.Eq(nref, ref), c.Eq(noff, off), c.Eq(ncap, cp)),
				c.And(c.Eq(nref, fresh), c.Eq(noff, c.Int(0)), c.Eq(ncap, nc))))
			st.assume(c.Le(nl, ncap))
			st.assume(c.Le(c.Add(noff, ncap), c.BigInt(maxLen)))
			st.assume(c.Imp(c.Eq(nref, c.Int(0)), c.Eq(nl, c.Int(0))))
			if x.entails(st, c.Le(st.x.c.Int(1), ref), 0) {
				x.c.isFr[nref] = true
			}
		}
	}
	if bytes {
		h := st.heapGet("uint8", row(SInt))
		var s *Term
		if isString(b.T) {
			s = b.t()
		} else {
			s = st.bytesOf(b)
		}
		switch decide {
		case 1:
			st.heap["uint8"] = c.Store(h, ref, c.ACopy(c.Select(h, ref), c.Add(off, ln), s))
		case 2:
			st.heap["uint8"] = c.Store(h, nref, c.App("arrof", c.Cat(st.bytesOf(a), s)))
		default:
			oldA := c.Select(h, ref)
			A := c.Fresh("arr", arr(SInt, SInt))
			st.assume(c.Imp(fits, c.Eq(A, c.ACopy(oldA, c.Add(off, ln), s))))
			st.assume(c.Eq(c.View(A, noff, nl), c.Cat(st.bytesOf(a), s)))
			st.heap["uint8"] = c.Store(h, nref, A)
		}
	} else {
		et := elemType(a.T)
		for _, e := range x.elemKeys(et) {
			h := st.heapGet(e.suf, row(e.sort))
			oldA := c.Select(h, ref)
			bs := c.Select(h, b.ts[0])
			k, single := int64(0), false
			if n.op == "int" && n.n.Int64() <= 4 {
				k, single = n.n.Int64(), true
			}
			put := func(A *Term, at *Term) *Term {
				for i := int64(0); i < k; i++ {
					A = c.Store(A, c.AddK(at, i), c.Select(bs, c.AddK(b.ts[1], i)))
				}
				return A
			}
			i := c.Bound("i", SInt)
			switch {
			case decide == 1 && single:
				st.heap[e.suf] = c.Store(h, ref, put(oldA, c.Add(off, ln)))
			default:
				base := c.Fresh("arr", arr(SInt, e.sort))
				A := base
				if single {
					A = put(base, c.Add(noff, ln))
				}
				if decide != 2 {
					if single {
						st.assume(c.Imp(fits, c.Eq(base, oldA)))
					} else {
						in := c.And(c.Le(c.Add(off, ln), i), c.Lt(i, c.Add(off, nl)))
						st.assume(c.Imp(fits, c.Forall([]*Term{i}, [][]*Term{{c.Select(A, i)}}, c.Or(in, c.Eq(c.Select(A, i), c.Select(oldA, i))))))
					}
				}
				if decide != 1 {
					g := c.Forall([]*Term{i}, [][]*Term{{c.Select(base, i)}}, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, ln)), c.Eq(c.Select(base, i), c.Select(oldA, c.Add(off, i)))))
					st.assume(c.Imp(c.Not(fits), g))
				}
				if !single {
					st.assume(c.Forall([]*Term{i}, [][]*Term{{c.Select(A, i)}}, c.Imp(c.And(c.Le(c.Add(noff, ln), i), c.Lt(i, c.Add(noff, nl))), c.Eq(c.Select(A, i), c.Select(bs, c.Add(b.ts[1], c.Sub(i, c.Add(noff, ln))))))))
				}
				st.heap[e.suf] = c.Store(h, nref, A)
			}
		}
	}
	return x.sliceVal(a.T, nref, noff, nl, ncap)
}

// ---- concurrency

func (x *X) goStmt(fr *Frame, env *Env, st *State, in *ssa.Go) {
	f, args := x.callee(fr, env, &in.Call)
	name := "function value"
	if f.fn != nil {
		name = FuncKey(f.fn)
	} else if f.meth != nil {
		name = f.meth.Name()
	}
	if f.fn != nil {
		if con := x.P.specs.Contracts[name]; con != nil && !con.Extern && len(con.Params) <= len(args) {
			// what the goroutine requires at its start, but for its own history
			vars := x.freeNames(f.fn, f.binds)
			if vars == nil {
				vars = map[string]*Val{}
			}
			for i, p := range con.Params {
				a := *args[i]
				if i < len(f.fn.Params) {
					a.T = f.fn.Params[i].Type()
				}
				vars[p] = &a
			}
			senv := &SEnv{x: x, st: st, old: st.clone(), vars: vars, pkg: con.Pkg}
			for _, r := range con.Requires {
				if x.namesGhost(r.E) {
					continue
				}
				x.oblige(st, senv.boolExpr(r.E), fmt.Sprintf("precondition of goroutine %s: %s", con.Key, r.Src), in.Pos())
			}
		}
	}
	x.trusted["goroutine "+name+" started by "+fr.key+": verified on its own, interference only through declared shared state"] = true
	if hk := x.P.specs.Ghosts["spawned:"+name]; hk != nil {
		key := "g:spawned:" + name
		st.heap[key] = x.c.AddK(st.heapGet(key, SInt), 1)
	}
}

func (x *X) chanSpec(name string) *ChanSpec {
	return x.P.specs.Chans[name]
}

func (x *X) recv(fr *Frame, st *State, name string, ch *Val, T types.Type, commaOk bool) *Val {
	st.newNext()
	v := st.freshVal("recv", T)
	if commaOk {
		x.recvHook(fr, st, name, ch, v.fs[0], v.fs[1])
	} else {
		x.recvHook(fr, st, name, ch, v, &Val{T: types.Typ[types.Bool], ts: []*Term{x.c.Fresh("ok", SBool)}})
	}
	return v
}

func (x *X) send(fr *Frame, env *Env, st *State, in *ssa.Send) {
	ch := x.val(fr, env, in.Chan)
	v := x.val(fr, env, in.X)
	x.doSend(fr, st, x.valueName(in.Chan), ch, v, in.Pos())
}

func (x *X) doSend(fr *Frame, st *State, name string, ch, v *Val, pos token.Pos) {
	cs := x.chanSpec(name)
	if cs == nil {
		x.trusted["values sent on "+name+" aren't tracked"] = true
		return
	}
	old := st.clone()
	env := &SEnv{x: x, st: st, old: old, vars: map[string]*Val{"v": v, "ch": ch}, pkg: cs.Pkg}
	for _, r := range cs.Requires {
		x.oblige(st, env.boolExpr(r.E), "sent on "+name+": "+r.Src, pos)
	}
	for _, m := range cs.Modifies {
		x.havocLoc(st, env, m)
	}
	for _, e := range cs.Ensures {
		st.assume(env.boolExpr(e.E))
	}
}

func (x *X) selectStmt(fr *Frame, env *Env, st *State, in *ssa.Select, k func(*State, *Val)) {
	// any ready case may be chosen
	tt := in.Type().(*types.Tuple)
	n := len(in.States)
	first := 0
	if !in.Blocking {
		first = -1
	}
	for i := first; i < n; i++ {
		s2 := st.clone()
		x.note(s2, "case%d", i)
		s2.newNext()
		v := &Val{T: tt}
		v.fs = append(v.fs, &Val{T: types.Typ[types.Int], ts: []*Term{x.c.Int(int64(i))}})
		v.fs = append(v.fs, s2.freshVal("recvOk", types.Typ[types.Bool]))
		r := 2
		for j, s := range in.States {
			if s.Dir != types.RecvOnly {
				if j == i {
					x.doSend(fr, s2, x.valueName(s.Chan), x.val(fr, env, s.Chan), x.val(fr, env, s.Send), in.Pos())
				}
				continue
			}
			rv := s2.freshVal("recv", tt.At(r).Type())
			v.fs = append(v.fs, rv)
			if i == j {
				x.recvHook(fr, s2, x.valueName(s.Chan), x.val(fr, env, s.Chan), rv, v.fs[1])
			}
			r++
		}
		k(s2, v)
	}
}

// recvHook records a value received from a channel in ghost state.
func (x *X) recvHook(fr *Frame, st *State, name string, ch, v, ok *Val) {
	cs := x.P.specs.Chans["recv "+name]
	if cs == nil {
		return
	}
	old := st.clone()
	env := &SEnv{x: x, st: st, old: old, vars: map[string]*Val{"v": v, "ch": ch, "ok": ok}, pkg: cs.Pkg}
	for _, m := range cs.Modifies {
		x.havocLoc(st, env, m)
	}
	for _, e := range cs.Ensures {
		st.assume(env.boolExpr(e.E))
	}
}

// lockCheck requires the guarding lock to be held where guarded fields are accessed.
func (x *X) lockCheck(st *State, p *Val, t types.Type, write bool, pos token.Pos) {
	if !x.holdChk || p.key == "" {
		return
	}
	mu := x.P.specs.Guards[p.key]
	if mu == nil {
		return
	}
	lock := x.c.App("sr", p.ts[0], p.ts[1], x.c.Int(int64(x.fieldID(p.key[:strings.LastIndexByte(p.key, '.')+1]+mu.Field))))
	held := st.get2("gf:held", SBool, lock, x.c.Int(0))
	what := "read"
	if write {
		what = "written"
	}
	x.oblige(st, held, fmt.Sprintf("%s is %s with %s held", p.key, what, mu.Field), pos)
}

// namesGhost reports whether a clause is about ghost state outside the heap.
func (x *X) namesGhost(e *Expr) bool {
	if e.op == "id" && x.P.specs.Ghosts[e.s] != nil {
		return true
	}
	for _, a := range e.args {
		if x.namesGhost(a) {
			return true
		}
	}
	return false
}
