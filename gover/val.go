package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value (or, with T == nil, a specification value).
type Val struct {
	T     types.Type
	ts    []*Term
	fs    []*Val // struct fields, tuple elements
	key   string // pointer: heap key of the cell pointed to, if not the default
	fn    *ssa.Function
	binds []*Val
	dyn   *Val // interface: value it is known to hold
	iter  *iterInfo
	bi    string // builtin name
	recv  *Val   // bound method receiver (for dynamic function values)
	meth  *types.Func
	owner *Val   // address of a struct in a struct: of the outer one
	ofld  string // and the field's name
}

type iterInfo struct {
	m   *Val
	key string // heap key of the visited set
	str bool
}

func pure(t *Term) *Val { return &Val{ts: []*Term{t}} }

func (v *Val) t() *Term {
	if len(v.ts) != 1 {
		panic(unsupported(fmt.Sprintf("value of type %v isn't a single term", v.T)))
	}
	return v.ts[0]
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

type comp struct {
	suf  string
	sort Sort
}

var (
	sliceComps = []comp{{".ref", SInt}, {".off", SInt}, {".len", SInt}, {".cap", SInt}}
	ptrComps   = []comp{{".ref", SInt}, {".idx", SInt}}
)

type State struct {
	x    *X
	heap map[string]*Term
	base int
	pc   *PC
	nb   *Term
	nk   int64
	path *Trail

	nGoal int
}

type PC struct {
	t    *Term
	prev *PC
	n    int
}

type Trail struct {
	s    string
	prev *Trail
}

func (st *State) clone() *State {
	h := make(map[string]*Term, len(st.heap)+4)
	for k, v := range st.heap {
		h[k] = v
	}
	n := *st
	n.heap = h
	return &n
}

func (st *State) assume(t *Term) {
	if t == st.x.c.True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &PC{t, st.pc, n}
}

func (st *State) dead() bool { return st.pc != nil && st.pc.t == st.x.c.False }

func (st *State) facts() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for p := st.pc; p != nil; p = p.prev {
		if !seen[p.t] {
			seen[p.t] = true
			out = append(out, p.t)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) next() *Term { return st.x.c.AddK(st.nb, st.nk) }

func (st *State) alloc() *Term {
	r := st.next()
	st.nk++
	st.x.c.isFr[r] = true
	return r
}

// newNext makes a new allocation counter, not below the present one.
func (st *State) newNext() {
	x := st.x
	nb := x.c.Fresh("next", SInt)
	x.epoch++
	x.c.nbEpoch[nb] = x.epoch
	x.c.epochNb[x.epoch] = nb
	nb.lo = big.NewInt(1000)
	x.c.isFr[nb] = true
	if st.nb != nil {
		st.assume(x.c.Le(st.next(), nb))
	}
	st.nb, st.nk = nb, 0
}

// heapGet returns the current contents of a heap key.
func (st *State) heapGet(key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		if t.sort != s {
			panic(unsupported("heap key " + key + " used with sorts " + string(t.sort) + " and " + string(s)))
		}
		return t
	}
	v := st.x.c.Var(fmt.Sprintf("H%d:%s", st.base, key), s)
	if _, ok := st.x.c.hvEpoch[v]; !ok {
		st.x.c.hvEpoch[v] = st.base
		st.x.keySort[key] = s
	}
	st.heap[key] = v
	return v
}

func (st *State) heapVar(key string) *Term {
	s := st.x.keySort[key]
	v := st.x.c.Fresh("H:"+key, s)
	st.x.c.hvEpoch[v] = st.x.epoch
	return v
}

func row(s Sort) Sort { return arr(SInt, arr(SInt, s)) }

func (st *State) get2(key string, s Sort, ref, idx *Term) *Term {
	c := st.x.c
	return c.Select(c.Select(st.heapGet(key, row(s)), ref), idx)
}

func (st *State) put2(key string, s Sort, ref, idx, v *Term) {
	c := st.x.c
	h := st.heapGet(key, row(s))
	st.x.keySort[key] = row(s)
	st.heap[key] = c.Store(h, ref, c.Store(c.Select(h, ref), idx, v))
}

// ---- types

func (x *X) foreignStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if x.P.inRepo(n.Obj().Pkg()) {
		return false
	}
	return !x.P.specs.Open[shortPkg(n.Obj().Pkg())+"."+n.Obj().Name()]
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// isLeaf reports whether values of t are kept as one heap entry per component.
func (x *X) isLeaf(t types.Type) bool {
	if x.foreignStruct(t) {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		return false
	}
	return true
}

func (x *X) comps(t types.Type) []comp {
	if x.foreignStruct(t) {
		return []comp{{"", SInt}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []comp{{"", SBool}}
		case u.Info()&types.IsString != 0:
			return []comp{{"", SSeq}}
		case u.Info()&types.IsFloat != 0:
			return []comp{{"", SFlt}}
		}
		return []comp{{"", SInt}}
	case *types.Slice:
		return sliceComps
	case *types.Pointer:
		return ptrComps
	}
	return []comp{{"", SInt}}
}

func typeKey(t types.Type) string {
	switch u := t.(type) {
	case *types.Named:
		if _, ok := u.Underlying().(*types.Struct); ok {
			return shortPkg(u.Obj().Pkg()) + "." + u.Obj().Name()
		}
		return typeKey(u.Underlying())
	case *types.Basic:
		switch u.Kind() {
		case types.UntypedInt:
			return "int"
		case types.UntypedBool:
			return "bool"
		case types.UntypedString:
			return "string"
		}
		if u.Name() == "byte" {
			return "uint8"
		}
		if u.Name() == "rune" {
			return "int32"
		}
		return u.Name()
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "func"
	case *types.Chan:
		return "chan"
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	}
	return strings.ReplaceAll(t.String(), " ", "_")
}

var (
	two    = big.NewInt(2)
	bigOne = big.NewInt(1)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

// intRange returns the value range of an integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := uint(64), b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.UntypedInt, types.UntypedRune:
		return nil, nil, false
	}
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), bigOne), true
	}
	return new(big.Int), new(big.Int).Sub(pow2(bits), bigOne), true
}

// FreshVal makes an arbitrary value of type t; its well-formedness is assumed.
func (st *State) freshVal(hint string, t types.Type) *Val {
	x := st.x
	if tu, ok := t.(*types.Tuple); ok {
		v := &Val{T: t}
		for i := 0; i < tu.Len(); i++ {
			v.fs = append(v.fs, st.freshVal(fmt.Sprintf("%s.%d", hint, i), tu.At(i).Type()))
		}
		return v
	}
	if x.isLeaf(t) {
		v := &Val{T: t}
		for _, cp := range x.comps(t) {
			v.ts = append(v.ts, x.c.Fresh(hint+cp.suf, cp.sort))
		}
		st.wellFormed(v, true)
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &Val{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fs = append(v.fs, st.freshVal(hint+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() <= 64 {
			v := &Val{T: t}
			for i := int64(0); i < u.Len(); i++ {
				v.fs = append(v.fs, st.freshVal(fmt.Sprintf("%s.%d", hint, i), u.Elem()))
			}
			return v
		}
	}
	panic(unsupported("fresh value of type " + t.String()))
}

// wellFormed assumes the facts every Go value of v's type satisfies. With
// newest, references may be anything allocated up to now.
func (st *State) wellFormed(v *Val, newest bool) {
	x := st.x
	c := x.c
	if v.T == nil {
		return
	}
	for _, t := range v.ts {
		if t.bnd {
			return
		}
	}
	refFact := func(r *Term) {
		if r.op == "int" {
			return
		}
		if k, _ := c.nextParts(r); k >= 0 {
			return
		}
		if _, ok := c.refEpoch[r]; ok && !newest {
			return
		}
		if newest {
			if st.nk == 0 {
				if r.op == "var" {
					c.refEpoch[r] = c.nbEpoch[st.nb]
				}
			}
		} else if hv := rootVar(r); hv != nil {
			if e, ok := c.hvEpoch[hv]; ok {
				c.refEpoch[r] = e
			}
		}
		st.assume(c.And(c.Lt(r, st.next()), c.Lt(c.App("root", r), st.next())))
	}
	if x.foreignStruct(v.T) {
		return
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi, ok := intRange(v.T)
			t := v.ts[0]
			if ok && t.op != "int" {
				if t.lo == nil && t.hi == nil && (t.op == "var" || t.op == "select" || t.op == "app" && strings.HasPrefix(t.name, "unbox")) {
					t.lo, t.hi = lo, hi
				} else {
					st.assume(c.Le(c.BigInt(lo), t))
					st.assume(c.Le(t, c.BigInt(hi)))
				}
			}
		case u.Info()&types.IsString != 0:
			t := v.ts[0]
			if t.op == "var" || t.op == "select" || t.op == "app" {
				c.progStr[t] = true
				if s := c.App("slen", t); t.op != "app" || t.name != "cat" {
					if s.lo == nil {
						s.lo = new(big.Int)
					}
					s.hi = maxLen
				}
			}
		}
	case *types.Slice:
		ref, off, ln, cp := v.ts[0], v.ts[1], v.ts[2], v.ts[3]
		for _, t := range []*Term{off, ln, cp} {
			if (t.op == "var" || t.op == "select" || t.op == "app") && t.lo == nil && t.hi == nil {
				t.lo, t.hi = new(big.Int), maxLen
			}
		}
		st.assume(c.Le(ln, cp))
		st.assume(c.Le(c.Add(off, cp), c.BigInt(maxLen)))
		if !c.isFr[ref] {
			st.assume(c.Imp(c.Eq(ref, c.Int(0)), c.And(c.Eq(cp, c.Int(0)), c.Eq(off, c.Int(0)))))
		}
		refFact(ref)
	case *types.Pointer:
		ref, idx := v.ts[0], v.ts[1]
		refFact(ref)
		if idx.op != "int" {
			st.assume(c.Imp(c.Eq(ref, c.Int(0)), c.Eq(idx, c.Int(0))))
			st.assume(c.Le(c.Int(0), idx))
		}
		if x.isLeaf(u.Elem()) && !x.foreignStruct(u.Elem()) {
		} else if idx.op == "var" || idx.op == "select" {
			// pointers to structs loaded from memory may be interior
		}
	case *types.Map, *types.Chan:
		refFact(v.ts[0])
		st.assume(c.Le(c.Int(0), v.ts[0]))
	case *types.Interface:
		if t := v.ts[0]; t.op != "int" && t.lo == nil {
			t.lo = new(big.Int)
		}
	case *types.Signature:
		if t := v.ts[0]; t.op != "int" && t.lo == nil {
			t.lo = new(big.Int)
		}
	}
}

func rootVar(t *Term) *Term {
	for {
		switch t.op {
		case "select":
			t = t.args[0]
		case "var":
			return t
		default:
			return nil
		}
	}
}

// zero is the zero value of a type.
func (x *X) zero(t types.Type) *Val {
	c := x.c
	if x.isLeaf(t) {
		v := &Val{T: t}
		for _, cp := range x.comps(t) {
			switch cp.sort {
			case SInt:
				if x.foreignStruct(t) {
					v.ts = append(v.ts, x.zeroOpaque(t))
				} else {
					v.ts = append(v.ts, c.Int(0))
				}
			case SBool:
				v.ts = append(v.ts, c.False)
			case SSeq:
				v.ts = append(v.ts, c.Empty())
			case SFlt:
				v.ts = append(v.ts, c.Var("f:0", SFlt))
			}
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &Val{T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fs = append(v.fs, x.zero(u.Field(i).Type()))
		}
		return v
	case *types.Tuple:
		v := &Val{T: t}
		for i := 0; i < u.Len(); i++ {
			v.fs = append(v.fs, x.zero(u.At(i).Type()))
		}
		return v
	case *types.Array:
		// only used to initialise memory, see zeroMem
		return &Val{T: t}
	}
	panic(unsupported("zero value of " + t.String()))
}

func (x *X) zeroOpaque(t types.Type) *Term {
	if isTime(t) {
		return x.c.Var("zeroTime", SInt)
	}
	return x.c.Int(0)
}

// ---- memory access

func (x *X) leafKey(t types.Type) string { return typeKey(t) }

func (x *X) ptrKey(p *Val, elem types.Type) string {
	if p.key != "" {
		return p.key
	}
	return x.leafKey(elem)
}

func (x *X) fieldAddr(p *Val, i int) *Val {
	st := p.T.Underlying().(*types.Pointer).Elem()
	s := st.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	pt := types.NewPointer(ft)
	if x.isLeaf(ft) && (!x.foreignStruct(ft) || isTime(ft)) {
		return &Val{T: pt, ts: []*Term{p.ts[0], p.ts[1]}, key: typeKey(st) + "." + s.Field(i).Name()}
	}
	fid := x.fieldID(typeKey(st) + "." + s.Field(i).Name())
	return &Val{T: pt, ts: []*Term{x.c.App("sr", p.ts[0], p.ts[1], x.c.Int(int64(fid))), x.c.Int(0)}, owner: p, ofld: typeKey(st) + "." + s.Field(i).Name()}
}

func (x *X) fieldID(n string) int {
	if x.fids[n] == 0 {
		// stable across functions
		h := 0
		for _, b := range []byte(n) {
			h = (h*31 + int(b)) % 1000003
		}
		for {
			if o, ok := x.fidOwner[h]; !ok || o == n {
				break
			}
			h++
		}
		x.fidOwner[h] = n
		x.fids[n] = h + 1
	}
	return x.fids[n]
}

func (st *State) load(p *Val, t types.Type) *Val {
	x := st.x
	if x.isLeaf(t) {
		v := &Val{T: t}
		k := x.ptrKey(p, t)
		for _, cp := range x.comps(t) {
			v.ts = append(v.ts, st.get2(k+cp.suf, cp.sort, p.ts[0], p.ts[1]))
		}
		st.wellFormed(v, false)
		if m, ok := x.known[v.ts[0]]; ok {
			v.dyn, v.fn, v.binds = m.dyn, m.fn, m.binds
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := &Val{T: t}
		pp := *p
		pp.T = types.NewPointer(t)
		for i := 0; i < u.NumFields(); i++ {
			v.fs = append(v.fs, st.load(x.fieldAddr(&pp, i), u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return &Val{T: t, ts: []*Term{p.ts[0], p.ts[1]}} // snapshot not taken: only for reading at once
	}
	panic(unsupported("load of " + t.String()))
}

func (st *State) store(p *Val, t types.Type, v *Val) {
	x := st.x
	if x.isLeaf(t) {
		k := x.ptrKey(p, t)
		for i, cp := range x.comps(t) {
			st.put2(k+cp.suf, cp.sort, p.ts[0], p.ts[1], v.ts[i])
		}
		if v.dyn != nil || v.fn != nil {
			x.known[v.ts[0]] = v
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		pp := *p
		pp.T = types.NewPointer(t)
		for i := 0; i < u.NumFields(); i++ {
			st.store(x.fieldAddr(&pp, i), u.Field(i).Type(), v.fs[i])
		}
		return
	case *types.Array:
		if v.fs != nil {
			for i := range v.fs {
				st.store(&Val{T: types.NewPointer(u.Elem()), ts: []*Term{p.ts[0], x.c.AddK(p.ts[1], int64(i))}}, u.Elem(), v.fs[i])
			}
			return
		}
		if v.ts == nil { // zero value
			for i := int64(0); i < u.Len() && i < 64; i++ {
				st.store(&Val{T: types.NewPointer(u.Elem()), ts: []*Term{p.ts[0], x.c.AddK(p.ts[1], i)}}, u.Elem(), x.zero(u.Elem()))
			}
			return
		}
	}
	panic(unsupported("store of " + t.String()))
}

// zeroMem initialises newly allocated memory for a value of type t.
func (st *State) zeroMem(p *Val, t types.Type) { st.store(p, t, st.x.zero(t)) }

// ---- slices

func (x *X) sliceVal(t types.Type, ref, off, ln, cp *Term) *Val {
	return &Val{T: t, ts: []*Term{ref, off, ln, cp}}
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	case *types.Map:
		return u.Elem()
	}
	panic(unsupported("element of " + t.String()))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// bytesOf is the contents of a byte slice (or string) as a sequence.
func (st *State) bytesOf(v *Val) *Term {
	c := st.x.c
	if v.T == nil || isString(v.T) {
		return v.t()
	}
	if !isByteSlice(v.T) {
		panic(unsupported("contents of " + v.T.String()))
	}
	return c.View(c.Select(st.heapGet("uint8", row(SInt)), v.ts[0]), v.ts[1], v.ts[2])
}

// newBytes allocates a byte slice with the given contents.
func (st *State) newBytes(t types.Type, s *Term) *Val {
	c := st.x.c
	r := st.alloc()
	h := st.heapGet("uint8", row(SInt))
	st.heap["uint8"] = c.Store(h, r, c.App("arrof", s))
	n := c.Slen(s)
	cp := c.Fresh("cap", SInt)
	cp.lo, cp.hi = new(big.Int), maxLen
	st.assume(c.Le(n, cp))
	return st.x.sliceVal(t, r, c.Int(0), n, cp)
}

// elemKeys lists the heap keys (with sorts) that hold elements of type t.
func (x *X) elemKeys(t types.Type) (out []comp) {
	if x.isLeaf(t) {
		for _, cp := range x.comps(t) {
			out = append(out, comp{x.leafKey(t) + cp.suf, cp.sort})
		}
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if !x.isLeaf(ft) || x.foreignStruct(ft) && !isTime(ft) {
				continue // nested: addressed through sr
			}
			for _, cp := range x.comps(ft) {
				out = append(out, comp{typeKey(t) + "." + s.Field(i).Name() + cp.suf, cp.sort})
			}
		}
		return
	}
	panic(unsupported("elements of type " + t.String()))
}

// ---- maps

func (x *X) mapKeys(t types.Type) (dom string, ks Sort, vals []comp) {
	m := t.Underlying().(*types.Map)
	kc := x.comps(m.Key())
	if len(kc) != 1 {
		panic(unsupported("map key type " + m.Key().String()))
	}
	b := typeKey(t)
	dom = b + "#dom"
	ks = kc[0].sort
	if x.isLeaf(m.Elem()) {
		for _, cp := range x.comps(m.Elem()) {
			vals = append(vals, comp{b + "#val" + cp.suf, cp.sort})
		}
	} else if st, ok := m.Elem().Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			for _, cp := range x.comps(st.Field(i).Type()) {
				vals = append(vals, comp{b + "#val." + st.Field(i).Name() + cp.suf, cp.sort})
			}
		}
	} else {
		panic(unsupported("map value type " + m.Elem().String()))
	}
	return
}

func mapSort(k, v Sort) Sort { return arr(SInt, arr(k, v)) }

// flat returns the component terms of a value in the order mapKeys lists them.
func flat(v *Val) []*Term {
	if len(v.fs) == 0 {
		return v.ts
	}
	var out []*Term
	for _, f := range v.fs {
		out = append(out, flat(f)...)
	}
	return out
}

func (x *X) unflat(t types.Type, ts []*Term) (*Val, []*Term) {
	if x.isLeaf(t) {
		n := len(x.comps(t))
		return &Val{T: t, ts: ts[:n:n]}, ts[n:]
	}
	v := &Val{T: t}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			var f *Val
			f, ts = x.unflat(u.Field(i).Type(), ts)
			v.fs = append(v.fs, f)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			var f *Val
			f, ts = x.unflat(u.At(i).Type(), ts)
			v.fs = append(v.fs, f)
		}
	default:
		panic(unsupported("unflat " + t.String()))
	}
	return v, ts
}

func (st *State) mapHas(m *Val, k *Term) *Term {
	c := st.x.c
	dom, ks, _ := st.x.mapKeys(m.T)
	return c.And(c.Not(c.Eq(m.t(), c.Int(0))), c.Select(c.Select(st.heapGet(dom, mapSort(ks, SBool)), m.t()), k))
}

func (st *State) mapGet(m *Val, k *Term) *Val {
	c := st.x.c
	_, ks, vals := st.x.mapKeys(m.T)
	var ts []*Term
	for _, v := range vals {
		ts = append(ts, c.Select(c.Select(st.heapGet(v.suf, mapSort(ks, v.sort)), m.t()), k))
	}
	v, _ := st.x.unflat(m.T.Underlying().(*types.Map).Elem(), ts)
	st.wfDeep(v)
	return v
}

func (st *State) wfDeep(v *Val) {
	if len(v.fs) > 0 {
		for _, f := range v.fs {
			st.wfDeep(f)
		}
		return
	}
	st.wellFormed(v, false)
}

func (st *State) mapPut(m *Val, k *Term, v *Val) {
	c := st.x.c
	dom, ks, vals := st.x.mapKeys(m.T)
	ts := flat(v)
	for i, vc := range vals {
		h := st.heapGet(vc.suf, mapSort(ks, vc.sort))
		st.heap[vc.suf] = c.Store(h, m.t(), c.Store(c.Select(h, m.t()), k, ts[i]))
	}
	h := st.heapGet(dom, mapSort(ks, SBool))
	ck := st.cardKey(m)
	ch := st.heapGet(ck, arr(SInt, SInt))
	n := c.Select(ch, m.t())
	st.heap[ck] = c.Store(ch, m.t(), c.Ite(c.Select(c.Select(h, m.t()), k), n, c.AddK(n, 1)))
	st.heap[dom] = c.Store(h, m.t(), c.Store(c.Select(h, m.t()), k, c.True))
}

// mapCard keeps the number of entries of a map.
func (st *State) cardKey(m *Val) string { return typeKey(m.T) + "#card" }

func (st *State) mapLen(m *Val) *Term {
	c := st.x.c
	n := c.Select(st.heapGet(st.cardKey(m), arr(SInt, SInt)), m.t())
	if n.op == "select" && n.lo == nil {
		n.lo, n.hi = new(big.Int), maxLen
	}
	return c.Ite(c.Eq(m.t(), c.Int(0)), c.Int(0), n)
}

func (st *State) mapDel(m *Val, k *Term) {
	c := st.x.c
	dom, ks, _ := st.x.mapKeys(m.T)
	h := st.heapGet(dom, mapSort(ks, SBool))
	ck := st.cardKey(m)
	ch := st.heapGet(ck, arr(SInt, SInt))
	n := c.Select(ch, m.t())
	st.heap[ck] = c.Store(ch, m.t(), c.Ite(c.Select(c.Select(h, m.t()), k), c.AddK(n, -1), n))
	st.heap[dom] = c.Store(h, m.t(), c.Store(c.Select(h, m.t()), k, c.False))
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (t *Trail) String() string {
	var b strings.Builder
	for ; t != nil; t = t.prev {
		b.WriteString(t.s)
		b.WriteByte(' ')
	}
	return b.String()
}
