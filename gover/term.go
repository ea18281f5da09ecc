package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed, many-sorted SMT terms. Integer sums are kept in a
// linear normal form so that equal index expressions are the same term.

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SSeq  Sort = "S" // byte sequence
	SFlt  Sort = "F" // floating point number (uninterpreted)
)

func arr(dom, rng Sort) Sort { return Sort("(Array " + string(dom) + " " + string(rng) + ")") }

// arrParts splits an array sort.
func arrParts(s Sort) (Sort, Sort) {
	str := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i, c := range str {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("not an array sort: " + string(s))
}

func isArr(s Sort) bool { return strings.HasPrefix(string(s), "(Array ") }

type Term struct {
	id    int
	op    string // var int true false lit + * div mod = < <= and or not ite select store app forall exists bound
	name  string // var, app, bound, lit
	n     *big.Int
	args  []*Term
	sort  Sort
	bnd   bool // contains bound variables
	lo    *big.Int
	hi    *big.Int
	qvars []*Term
	trigs [][]*Term
}

type Ctx struct {
	table map[string]*Term
	next  int
	fresh int
	True  *Term
	False *Term
	lits  map[string]*Term
	funs  map[string]FunDecl // declared functions used by app
	isFr  map[*Term]bool     // references known to be allocated (never nil)

	heapAx   map[[2]int]*Term
	progStr  map[*Term]bool // byte strings that exist in the program's memory
	hvEpoch  map[*Term]int  // heap variables: epoch in which they were made
	nbEpoch  map[*Term]int  // allocation counters
	epochNb  map[int]*Term
	refEpoch map[*Term]int // references known to be below the counter of that epoch
}

type FunDecl struct {
	args []Sort
	res  Sort
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, lits: map[string]*Term{}, funs: map[string]FunDecl{}, isFr: map[*Term]bool{},
		heapAx: map[[2]int]*Term{}, progStr: map[*Term]bool{}, hvEpoch: map[*Term]int{}, nbEpoch: map[*Term]int{}, epochNb: map[int]*Term{}, refEpoch: map[*Term]int{}}
	c.True = c.mk("true", "", nil, SBool)
	c.False = c.mk("false", "", nil, SBool)
	for k, v := range builtinFuns {
		c.funs[k] = v
	}
	return c
}

var builtinFuns = map[string]FunDecl{
	"slen":   {[]Sort{SSeq}, SInt},
	"nth":    {[]Sort{SSeq, SInt}, SInt},
	"cat":    {[]Sort{SSeq, SSeq}, SSeq},
	"sub":    {[]Sort{SSeq, SInt, SInt}, SSeq},
	"unit":   {[]Sort{SInt}, SSeq},
	"view":   {[]Sort{arr(SInt, SInt), SInt, SInt}, SSeq},
	"acopy":  {[]Sort{arr(SInt, SInt), SInt, SSeq}, arr(SInt, SInt)},
	"arrof":  {[]Sort{SSeq}, arr(SInt, SInt)},
	"eqs":    {[]Sort{SSeq, SSeq}, SBool},
	"sr":     {[]Sort{SInt, SInt, SInt}, SInt},
	"root":   {[]Sort{SInt}, SInt},
	"ity":    {[]Sort{SInt}, SInt},
	"itoa":   {[]Sort{SInt}, SSeq},
	"sltlex": {[]Sort{SSeq, SSeq}, SBool},
}

func (c *Ctx) mk(op, name string, args []*Term, s Sort) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	for _, a := range args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	if op == "var" || op == "bound" || op == "app" || op == "constarr" {
		sb.WriteString(string(s))
	}
	k := sb.String()
	if t, ok := c.table[k]; ok {
		return t
	}
	t := &Term{id: c.next, op: op, name: name, args: args, sort: s}
	c.next++
	if op == "bound" {
		t.bnd = true
	}
	for _, a := range args {
		if a.bnd {
			t.bnd = true
		}
	}
	c.table[k] = t
	return t
}

func (c *Ctx) Var(name string, s Sort) *Term { return c.mk("var", name, nil, s) }

func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), s)
}

func (c *Ctx) FreshBounded(hint string, lo, hi *big.Int) *Term {
	t := c.Fresh(hint, SInt)
	t.lo, t.hi = lo, hi
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (c *Ctx) Int(n int64) *Term { return c.BigInt(big.NewInt(n)) }

func (c *Ctx) BigInt(n *big.Int) *Term {
	t := c.mk("int", n.String(), nil, SInt)
	if t.n == nil {
		t.n = new(big.Int).Set(n)
		t.lo, t.hi = t.n, t.n
	}
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// ---- linear arithmetic normal form

type linform struct {
	coef map[*Term]*big.Int
	k    *big.Int
}

func (c *Ctx) lin(t *Term) *linform {
	l := &linform{coef: map[*Term]*big.Int{}, k: new(big.Int)}
	l.add(t, big.NewInt(1))
	return l
}

func (l *linform) add(t *Term, m *big.Int) {
	switch t.op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(m, t.n))
		return
	case "+":
		for _, a := range t.args {
			l.add(a, m)
		}
		return
	case "*":
		if t.args[0].op == "int" {
			l.add(t.args[1], new(big.Int).Mul(m, t.args[0].n))
			return
		}
	}
	v := l.coef[t]
	if v == nil {
		v = new(big.Int)
		l.coef[t] = v
	}
	v.Add(v, m)
	if v.Sign() == 0 {
		delete(l.coef, t)
	}
}

func (c *Ctx) unlin(l *linform) *Term {
	if len(l.coef) == 0 {
		return c.BigInt(l.k)
	}
	ks := make([]*Term, 0, len(l.coef))
	for t := range l.coef {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, t := range ks {
		m := l.coef[t]
		if m.IsInt64() && m.Int64() == 1 {
			args = append(args, t)
		} else {
			p := c.mk("*", "", []*Term{c.BigInt(m), t}, SInt)
			c.setBounds(p)
			args = append(args, p)
		}
	}
	if l.k.Sign() != 0 {
		args = append(args, c.BigInt(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	t := c.mk("+", "", args, SInt)
	c.setBounds(t)
	return t
}

func (c *Ctx) setBounds(t *Term) {
	if t.lo != nil || t.hi != nil {
		return
	}
	switch t.op {
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.args {
			if lo != nil {
				if a.lo == nil {
					lo = nil
				} else {
					lo.Add(lo, a.lo)
				}
			}
			if hi != nil {
				if a.hi == nil {
					hi = nil
				} else {
					hi.Add(hi, a.hi)
				}
			}
		}
		t.lo, t.hi = lo, hi
	case "*":
		a, b := t.args[0], t.args[1]
		if a.op == "int" {
			lo, hi := b.lo, b.hi
			if a.n.Sign() < 0 {
				lo, hi = hi, lo
			}
			if lo != nil {
				t.lo = new(big.Int).Mul(a.n, lo)
			}
			if hi != nil {
				t.hi = new(big.Int).Mul(a.n, hi)
			}
		} else if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
			var mn, mx *big.Int
			for _, x := range []*big.Int{a.lo, a.hi} {
				for _, y := range []*big.Int{b.lo, b.hi} {
					p := new(big.Int).Mul(x, y)
					if mn == nil || p.Cmp(mn) < 0 {
						mn = p
					}
					if mx == nil || p.Cmp(mx) > 0 {
						mx = p
					}
				}
			}
			t.lo, t.hi = mn, mx
		}
	}
}

func (c *Ctx) Add(ts ...*Term) *Term {
	l := &linform{coef: map[*Term]*big.Int{}, k: new(big.Int)}
	for _, t := range ts {
		l.add(t, big.NewInt(1))
	}
	return c.unlin(l)
}

func (c *Ctx) AddK(t *Term, k int64) *Term { return c.Add(t, c.Int(k)) }

func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.lin(a)
	l.add(b, big.NewInt(-1))
	return c.unlin(l)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" || b.op == "int" {
		if b.op == "int" {
			a, b = b, a
		}
		l := &linform{coef: map[*Term]*big.Int{}, k: new(big.Int)}
		l.add(b, a.n)
		return c.unlin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := c.mk("*", "", []*Term{a, b}, SInt)
	c.setBounds(t)
	return t
}

// Div and Mod are SMT-LIB's (Euclidean) division and remainder.
func (c *Ctx) Div(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.n.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		return c.BigInt(q)
	}
	if b.op == "int" && b.n.IsInt64() && b.n.Int64() == 1 {
		return a
	}
	t := c.mk("div", "", []*Term{a, b}, SInt)
	if t.lo == nil && t.hi == nil && b.op == "int" && b.n.Sign() > 0 {
		if a.lo != nil {
			t.lo, _ = new(big.Int).DivMod(a.lo, b.n, new(big.Int))
		}
		if a.hi != nil {
			t.hi, _ = new(big.Int).DivMod(a.hi, b.n, new(big.Int))
		}
	}
	return t
}

func (c *Ctx) Mod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.n.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		return c.BigInt(m)
	}
	t := c.mk("mod", "", []*Term{a, b}, SInt)
	if t.lo == nil && b.op == "int" && b.n.Sign() > 0 {
		t.lo = new(big.Int)
		t.hi = new(big.Int).Sub(b.n, big.NewInt(1))
	}
	return t
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	if a.sort != SBool {
		panic(unsupported("negation of a term of sort " + string(a.sort)))
	}
	switch a.op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.args[0]
	case "<=":
		return c.Lt(a.args[1], a.args[0])
	case "<":
		return c.Le(a.args[1], a.args[0])
	}
	return c.mk("not", "", []*Term{a}, SBool)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == c.True || seen[t] {
			return true
		}
		if t == c.False {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", out, SBool)
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == c.True {
			return c.True
		}
		if t == c.False || seen[t] {
			continue
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if seen[c.Not(t)] {
			return c.True
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", out, SBool)
}

func (c *Ctx) Imp(a, b *Term) *Term {
	if a == c.True {
		return b
	}
	if a == c.False || b == c.True || a == b {
		return c.True
	}
	if b == c.False {
		return c.Not(a)
	}
	return c.mk("=>", "", []*Term{a, b}, SBool)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True || a == b {
		return a
	}
	if cond == c.False {
		return b
	}
	if a.sort == SBool {
		if a == c.True && b == c.False {
			return cond
		}
		if a == c.False && b == c.True {
			return c.Not(cond)
		}
	}
	t := c.mk("ite", "", []*Term{cond, a, b}, a.sort)
	if a.sort == SInt && t.lo == nil && t.hi == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = minBig(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxBig(a.hi, b.hi)
		}
	}
	return t
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch: %s:%s = %s:%s", c.Show(a), a.sort, c.Show(b), b.sort))
	}
	if a.sort == SBool {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if a.sort == SInt {
		d := c.Sub(a, b)
		if d.op == "int" {
			return c.Bool(d.n.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return c.False
		}
		if c.older(a, b) || c.older(b, a) {
			return c.False
		}
		if a.op == "int" && a.n.Sign() == 0 && c.isFr[b] || b.op == "int" && b.n.Sign() == 0 && c.isFr[a] {
			return c.False
		}
	}
	if a.sort == SSeq {
		if a.op == "lit" && b.op == "lit" {
			return c.False // distinct literals
		}
		// length mismatch of literal and unit
		if a.op == "lit" && b.op == "app" && b.name == "unit" && len(a.name) != 1 {
			return c.False
		}
		if b.op == "lit" && a.op == "app" && a.name == "unit" && len(b.name) != 1 {
			return c.False
		}
		if a.op == "lit" && a.name == "" {
			return c.Eq(c.Slen(b), c.Int(0))
		}
		if b.op == "lit" && b.name == "" {
			return c.Eq(c.Slen(a), c.Int(0))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", []*Term{a, b}, SBool)
}

// older reports whether b is an allocation made after reference a came into existence.
func (c *Ctx) older(a, b *Term) bool {
	f, m := c.nextParts(b)
	if f < 0 {
		return false
	}
	if a.op == "int" && a.n.IsInt64() && a.n.Int64() < 1000 {
		return true
	}
	if e, ok := c.refEpoch[a]; ok && f >= e && m >= 0 {
		return true
	}
	if e, _ := c.nextParts(a); e >= 0 && e < f {
		return true
	}
	if a.op == "app" && a.name == "sr" {
		return true
	}
	return false
}

// nextParts recognises allocation counter plus constant.
func (c *Ctx) nextParts(b *Term) (int, int64) {
	if e, ok := c.nbEpoch[b]; ok {
		return e, 0
	}
	if b.op == "+" && len(b.args) == 2 && b.args[1].op == "int" {
		if e, ok := c.nbEpoch[b.args[0]]; ok {
			return e, b.args[1].n.Int64()
		}
	}
	return -1, 0
}

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.op == "int" {
		return c.Bool(d.n.Sign() >= 0)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return c.True
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return c.False
	}
	return c.mk("<=", "", []*Term{a, b}, SBool)
}

func (c *Ctx) Lt(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.op == "int" {
		return c.Bool(d.n.Sign() > 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return c.True
	}
	if d.hi != nil && d.hi.Sign() <= 0 {
		return c.False
	}
	return c.mk("<", "", []*Term{a, b}, SBool)
}

// ---- arrays

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if c.distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "app":
			if a.name == "arrof" {
				return c.Nth(a.args[0], i)
			}
			if a.name == "acopy" {
				// outside of the copied range
				at, s := a.args[1], a.args[2]
				if c.Lt(i, at) == c.True || c.Le(c.Add(at, c.Slen(s)), i) == c.True {
					a = a.args[0]
					continue
				}
				if c.Le(at, i) == c.True && c.Lt(i, c.Add(at, c.Slen(s))) == c.True {
					return c.Nth(s, c.Sub(i, at))
				}
			}
		}
		break
	}
	_, rng := arrParts(a.sort)
	return c.mk("select", "", []*Term{a, i}, rng)
}

// distinct reports whether a and b are syntactically known to differ.
func (c *Ctx) distinct(a, b *Term) bool {
	if a.sort == SInt {
		return c.Eq(a, b) == c.False
	}
	if a.sort == SSeq {
		return a.op == "lit" && b.op == "lit" && a != b
	}
	return false
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if c.Select(a, i) == v {
		return a
	}
	return c.mk("store", "", []*Term{a, i, v}, a.sort)
}

func (c *Ctx) ConstArr(v *Term, dom Sort) *Term {
	return c.mk("constarr", "", []*Term{v}, arr(dom, v.sort))
}

// ---- function applications

func (c *Ctx) App(name string, args ...*Term) *Term {
	d, ok := c.funs[name]
	if !ok {
		panic("unknown function " + name)
	}
	if len(args) != len(d.args) {
		panic(fmt.Sprintf("%s: %d arguments, want %d", name, len(args), len(d.args)))
	}
	for i, a := range args {
		if a.sort != d.args[i] {
			panic(fmt.Sprintf("%s: argument %d has sort %s, want %s", name, i, a.sort, d.args[i]))
		}
	}
	if name == "itoa" && args[0].op == "int" {
		return c.Lit(args[0].n.String())
	}
	return c.mk("app", name, args, d.res)
}

func (c *Ctx) DeclFun(name string, args []Sort, res Sort) {
	c.funs[name] = FunDecl{args, res}
}

func (c *Ctx) Forall(vars []*Term, trigs [][]*Term, body *Term) *Term {
	return c.quant("forall", vars, trigs, body)
}

func (c *Ctx) Exists(vars []*Term, trigs [][]*Term, body *Term) *Term {
	return c.quant("exists", vars, trigs, body)
}

func (c *Ctx) quant(op string, vars []*Term, trigs [][]*Term, body *Term) *Term {
	if body == c.True || body == c.False {
		return body
	}
	name := ""
	for _, v := range vars {
		name += strconv.Itoa(v.id) + ","
	}
	for _, tr := range trigs {
		name += "/"
		for _, t := range tr {
			name += strconv.Itoa(t.id) + ","
		}
	}
	t := c.mk(op, name, []*Term{body}, SBool)
	t.qvars, t.trigs = vars, trigs
	// closed unless the body mentions other bound variables
	t.bnd = c.freeBound(t)
	return t
}

func (c *Ctx) freeBound(t *Term) bool {
	free := map[*Term]bool{}
	c.collectBound(t, map[*Term]bool{}, free)
	return len(free) > 0
}

func (c *Ctx) collectBound(t *Term, bound map[*Term]bool, out map[*Term]bool) {
	if t.op == "bound" {
		if !bound[t] {
			out[t] = true
		}
		return
	}
	if t.op == "forall" || t.op == "exists" {
		nb := map[*Term]bool{}
		for k := range bound {
			nb[k] = true
		}
		for _, v := range t.qvars {
			nb[v] = true
		}
		for _, a := range t.args {
			c.collectBound(a, nb, out)
		}
		return
	}
	if !t.bnd {
		return
	}
	for _, a := range t.args {
		c.collectBound(a, bound, out)
	}
}

func (c *Ctx) Bound(name string, s Sort) *Term {
	c.fresh++
	return c.mk("bound", fmt.Sprintf("%s?%d", sanitize(name), c.fresh), nil, s)
}

// Subst replaces terms (bound or free variables) in t.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		var trigs [][]*Term
		if t.op == "forall" || t.op == "exists" {
			for _, tr := range t.trigs {
				var ntr []*Term
				for _, x := range tr {
					y := rec(x)
					if y != x {
						ch = true
					}
					ntr = append(ntr, y)
				}
				trigs = append(trigs, ntr)
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args, trigs)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term, trigs [][]*Term) *Term {
	switch t.op {
	case "+":
		return c.Add(a...)
	case "*":
		return c.Mul(a[0], a[1])
	case "div":
		return c.Div(a[0], a[1])
	case "mod":
		return c.Mod(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "<":
		return c.Lt(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "not":
		return c.Not(a[0])
	case "=>":
		return c.Imp(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "constarr":
		d, _ := arrParts(t.sort)
		return c.ConstArr(a[0], d)
	case "app":
		switch t.name {
		case "slen":
			return c.Slen(a[0])
		case "nth":
			return c.Nth(a[0], a[1])
		case "cat":
			return c.Cat(a...)
		case "sub":
			return c.SubSeq(a[0], a[1], a[2])
		case "unit":
			return c.Unit(a[0])
		case "view":
			return c.View(a[0], a[1], a[2])
		case "acopy":
			return c.ACopy(a[0], a[1], a[2])
		}
		return c.App(t.name, a...)
	case "forall", "exists":
		return c.quant(t.op, t.qvars, trigs, a[0])
	}
	panic("rebuild " + t.op)
}

// ---- byte sequences

func (c *Ctx) Lit(s string) *Term {
	if len(s) == 1 {
		return c.Unit(c.Int(int64(s[0])))
	}
	if t, ok := c.lits[s]; ok {
		return t
	}
	t := c.mk("lit", s, nil, SSeq)
	c.lits[s] = t
	return t
}

func (c *Ctx) Empty() *Term { return c.Lit("") }

func (c *Ctx) Unit(b *Term) *Term { return c.App("unit", b) }

func (c *Ctx) litValue(t *Term) (string, bool) {
	if t.op == "lit" {
		return t.name, true
	}
	if t.op == "app" && t.name == "unit" && t.args[0].op == "int" {
		return string([]byte{byte(t.args[0].n.Int64())}), true
	}
	return "", false
}

func (c *Ctx) Slen(s *Term) *Term {
	switch {
	case s.op == "lit":
		return c.Int(int64(len(s.name)))
	case s.op == "app" && s.name == "unit":
		return c.Int(1)
	case s.op == "app" && s.name == "cat":
		return c.Add(c.Slen(s.args[0]), c.Slen(s.args[1]))
	case s.op == "app" && s.name == "view" && s.args[2].lo != nil && s.args[2].lo.Sign() >= 0:
		return s.args[2]
	}
	t := c.App("slen", s)
	if t.lo == nil {
		t.lo = new(big.Int)
	}
	if t.hi == nil && c.progStr[s] {
		t.hi = maxLen
	}
	return t
}

// isBytes reports whether every element of s is known to be a byte.
func (c *Ctx) isBytes(s *Term) bool {
	switch s.op {
	case "lit":
		return true
	case "app":
		switch s.name {
		case "cat":
			return c.isBytes(s.args[0]) && c.isBytes(s.args[1])
		case "sub":
			return c.isBytes(s.args[0])
		case "unit":
			a := s.args[0]
			return a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(big255) <= 0
		case "view":
			return !s.bnd
		}
	case "ite":
		return c.isBytes(s.args[1]) && c.isBytes(s.args[2])
	}
	return c.progStr[s]
}

var big255 = big.NewInt(255)

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

func (c *Ctx) Nth(s, i *Term) *Term {
	if v, ok := c.litValue(s); ok && i.op == "int" && i.n.IsInt64() && i.n.Int64() >= 0 && i.n.Int64() < int64(len(v)) {
		return c.Int(int64(v[i.n.Int64()]))
	}
	if s.op == "app" && s.name == "unit" && i.op == "int" && i.n.Sign() == 0 {
		return s.args[0]
	}
	t := c.App("nth", s, i)
	if t.lo == nil && c.isBytes(s) {
		t.lo, t.hi = new(big.Int), big255
	}
	return t
}

// Cat concatenates, right associated, with adjacent literals merged.
func (c *Ctx) Cat(ts ...*Term) *Term {
	var parts []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op == "app" && t.name == "cat" {
			rec(t.args[0])
			rec(t.args[1])
			return
		}
		if v, ok := c.litValue(t); ok {
			if v == "" {
				return
			}
			if len(parts) > 0 {
				if w, ok := c.litValue(parts[len(parts)-1]); ok {
					parts[len(parts)-1] = c.Lit(w + v)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	for _, t := range ts {
		rec(t)
	}
	if len(parts) == 0 {
		return c.Empty()
	}
	r := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		r = c.App("cat", parts[i], r)
	}
	return r
}

func (c *Ctx) SubSeq(s, i, j *Term) *Term {
	if i.op == "int" && i.n.Sign() == 0 && j == c.Slen(s) {
		return s
	}
	if i == j {
		return c.Empty()
	}
	if v, ok := c.litValue(s); ok && i.op == "int" && j.op == "int" {
		a, b := i.n.Int64(), j.n.Int64()
		if a >= 0 && a <= b && b <= int64(len(v)) {
			return c.Lit(v[a:b])
		}
	}
	return c.App("sub", s, i, j)
}

func (c *Ctx) View(a, o, n *Term) *Term {
	if n.op == "int" && n.n.Sign() == 0 {
		return c.Empty()
	}
	if a.op == "app" && a.name == "arrof" && o.op == "int" && o.n.Sign() == 0 && n == c.Slen(a.args[0]) {
		return a.args[0]
	}
	for {
		if a.op == "store" {
			k := a.args[1]
			if c.Lt(k, o) == c.True || c.Le(c.Add(o, n), k) == c.True {
				a = a.args[0]
				continue
			}
		}
		if a.op == "app" && a.name == "acopy" {
			at, s := a.args[1], a.args[2]
			if c.Le(c.Add(o, n), at) == c.True || c.Le(c.Add(at, c.Slen(s)), o) == c.True {
				a = a.args[0]
				continue
			}
			if at == o && c.Slen(s) == n {
				return s
			}
			// append at the end
			if c.Add(at, c.Slen(s)) == c.Add(o, n) && c.Le(o, at) == c.True {
				return c.Cat(c.View(a.args[0], o, c.Sub(at, o)), s)
			}
		}
		break
	}
	return c.App("view", a, o, n)
}

func (c *Ctx) ACopy(a, at, s *Term) *Term {
	if s.op == "lit" && s.name == "" {
		return a
	}
	return c.App("acopy", a, at, s)
}

// ---- printing

func (c *Ctx) Show(t *Term) string {
	s := c.show(t, 0)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (c *Ctx) show(t *Term, d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "var", "bound":
		return t.name
	case "int":
		return t.name
	case "true", "false":
		return t.op
	case "lit":
		return strconv.Quote(t.name)
	case "forall", "exists":
		vs := ""
		for _, v := range t.qvars {
			vs += v.name + " "
		}
		return "(" + t.op + " " + vs + ":: " + c.show(t.args[0], d+1) + ")"
	}
	n := t.op
	if t.op == "app" {
		n = t.name
	}
	var as []string
	for _, a := range t.args {
		as = append(as, c.show(a, d+1))
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}
