package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const prelude = `
(declare-sort S 0)
(declare-sort F 0)
(declare-fun slen (S) Int)
(declare-fun nth (S Int) Int)
(declare-fun cat (S S) S)
(declare-fun sub (S Int Int) S)
(declare-fun subd (S Int Int) S)
(declare-fun unit (Int) S)
(declare-fun view ((Array Int Int) Int Int) S)
(declare-fun viewd ((Array Int Int) Int Int) S)
(declare-fun acopy ((Array Int Int) Int S) (Array Int Int))
(declare-fun arrof (S) (Array Int Int))
(declare-fun eqs (S S) Bool)
(declare-fun eqsk (S S) Int)
(declare-fun sr (Int Int Int) Int)
(declare-fun srr (Int) Int)
(declare-fun sri (Int) Int)
(declare-fun srf (Int) Int)
(declare-fun root (Int) Int)
(declare-fun ity (Int) Int)
(declare-fun itoa (Int) S)
(declare-fun atoi (S) Int)
(declare-fun sltlex (S S) Bool)
(declare-const lit_ S)
(assert (= (slen lit_) 0))
(assert (forall ((s S)) (! (>= (slen s) 0) :pattern ((slen s)))))
(assert (forall ((s S)) (! (=> (= (slen s) 0) (= s lit_)) :pattern ((slen s)))))
(assert (forall ((a S) (b S)) (! (= (slen (cat a b)) (+ (slen a) (slen b))) :pattern ((cat a b)))))
(assert (forall ((a S) (b S)) (! (=> (= (slen a) 0) (= (cat a b) b)) :pattern ((cat a b)))))
(assert (forall ((a S) (b S)) (! (=> (= (slen b) 0) (= (cat a b) a)) :pattern ((cat a b)))))
(assert (forall ((a S) (b S) (i Int)) (! (= (nth (cat a b) i) (ite (< i (slen a)) (nth a i) (nth b (- i (slen a))))) :pattern ((nth (cat a b) i)))))
(assert (forall ((a S) (b S) (c S)) (! (= (cat (cat a b) c) (cat a (cat b c))) :pattern ((cat (cat a b) c)))))
(assert (forall ((s S) (i Int) (j Int)) (! (= (subd s i j) (sub s i j)) :pattern ((sub s i j)))))
(assert (forall ((s S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (subd s i j)) (- j i))) :pattern ((subd s i j)))))
(assert (forall ((s S) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (nth (subd s i j) k) (nth s (+ i k)))) :pattern ((nth (subd s i j) k)))))
(assert (forall ((s S) (j Int)) (! (=> (= j (slen s)) (= (subd s 0 j) s)) :pattern ((subd s 0 j)))))
(assert (forall ((i Int) (j Int)) (! (= (sub lit_ i j) lit_) :pattern ((sub lit_ i j)))))
(assert (forall ((s S) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (<= 0 i) (<= j (slen s)) (<= 0 k) (<= k l) (<= l (- j i))) (= (sub (sub s i j) k l) (subd s (+ i k) (+ i l)))) :pattern ((sub (sub s i j) k l)))))
(assert (forall ((a S) (b S) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (+ (slen a) (slen b)))) (= (sub (cat a b) i j) (ite (<= (slen a) i) (subd b (- i (slen a)) (- j (slen a))) (ite (<= j (slen a)) (subd a i j) (cat (subd a i (slen a)) (subd b 0 (- j (slen a)))))))) :pattern ((sub (cat a b) i j)))))
(assert (forall ((s S) (i Int) (j Int) (j2 Int) (k Int)) (! (=> (and (= j j2) (<= 0 i) (<= i j) (<= j k) (<= k (slen s))) (= (cat (subd s i j) (subd s j2 k)) (subd s i k))) :pattern ((cat (subd s i j) (subd s j2 k))))))
(assert (forall ((s S) (t S) (i Int) (j Int) (j2 Int) (k Int)) (! (=> (and (= j j2) (<= 0 i) (<= i j) (<= j k) (<= k (slen s))) (= (cat (subd s i j) (cat (subd s j2 k) t)) (cat (subd s i k) t))) :pattern ((cat (subd s i j) (cat (subd s j2 k) t))))))
(assert (forall ((b Int)) (! (and (= (slen (unit b)) 1) (= (nth (unit b) 0) b)) :pattern ((unit b)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (= (viewd a o n) (view a o n)) :pattern ((view a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (and (=> (>= n 0) (= (slen (viewd a o n)) n)) (=> (< n 0) (= (slen (viewd a o n)) 0))) :pattern ((viewd a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (nth (viewd a o n) k) (select a (+ o k)))) :pattern ((nth (viewd a o n) k)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j n)) (= (subd (view a o n) i j) (viewd a (+ o i) (- j i)))) :pattern ((subd (view a o n) i j)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (p Int) (m Int)) (! (=> (and (> n 0) (> m 0) (= p (+ o n))) (= (cat (viewd a o n) (viewd a p m)) (viewd a o (+ n m)))) :pattern ((cat (viewd a o n) (viewd a p m))))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (p Int) (m Int) (t S)) (! (=> (and (> n 0) (> m 0) (= p (+ o n))) (= (cat (viewd a o n) (cat (viewd a p m) t)) (cat (viewd a o (+ n m)) t))) :pattern ((cat (viewd a o n) (cat (viewd a p m) t))))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (b Int)) (! (=> (and (>= n 0) (= (select a (+ o n)) b)) (= (cat (viewd a o n) (unit b)) (viewd a o (+ n 1)))) :pattern ((cat (viewd a o n) (unit b))))))
(assert (forall ((a (Array Int Int)) (k Int) (v Int) (o Int) (n Int)) (! (=> (or (< k o) (>= k (+ o n))) (= (view (store a k v) o n) (view a o n))) :pattern ((view (store a k v) o n)))))
(assert (forall ((a (Array Int Int)) (k Int) (v Int) (o Int) (n Int)) (! (=> (and (<= o k) (< k (+ o n))) (= (view (store a k v) o n) (cat (view a o (- k o)) (cat (unit v) (view a (+ k 1) (- (+ o n) (+ k 1))))))) :pattern ((view (store a k v) o n)))))
(assert (forall ((a (Array Int Int)) (at Int) (s S)) (! (=> (= (slen s) 0) (= (acopy a at s) a)) :pattern ((acopy a at s)))))
(assert (forall ((a (Array Int Int)) (at Int) (s S) (k Int)) (! (= (select (acopy a at s) k) (ite (and (<= at k) (< k (+ at (slen s)))) (nth s (- k at)) (select a k))) :pattern ((select (acopy a at s) k)))))
(assert (forall ((a (Array Int Int)) (at Int) (s S) (o Int) (n Int)) (! (=> (or (<= (+ at (slen s)) o) (>= at (+ o n))) (= (view (acopy a at s) o n) (view a o n))) :pattern ((view (acopy a at s) o n)))))
(assert (forall ((a (Array Int Int)) (at Int) (s S) (o Int) (n Int)) (! (=> (and (<= o at) (<= (+ at (slen s)) (+ o n))) (= (view (acopy a at s) o n) (cat (view a o (- at o)) (cat s (view a (+ at (slen s)) (- (+ o n) (+ at (slen s)))))))) :pattern ((view (acopy a at s) o n)))))
(assert (forall ((a (Array Int Int)) (at Int) (s S) (o Int) (n Int)) (! (=> (and (<= at o) (>= n 0) (<= (+ o n) (+ at (slen s)))) (= (view (acopy a at s) o n) (sub s (- o at) (- (+ o n) at)))) :pattern ((view (acopy a at s) o n)))))
(assert (forall ((s S) (k Int)) (! (=> (and (<= 0 k) (< k (slen s))) (= (select (arrof s) k) (nth s k))) :pattern ((select (arrof s) k)))))
(assert (forall ((s S) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (slen s))) (= (view (arrof s) o n) (sub s o (+ o n)))) :pattern ((view (arrof s) o n)))))
(assert (forall ((a S) (b S)) (! (and (=> (eqs a b) (= a b)) (or (eqs a b) (not (= (slen a) (slen b))) (and (<= 0 (eqsk a b)) (< (eqsk a b) (slen a)) (not (= (nth a (eqsk a b)) (nth b (eqsk a b))))))) :pattern ((eqs a b)))))
(assert (forall ((r Int)) (! (=> (>= r 0) (= (root r) r)) :pattern ((root r)))))
(assert (forall ((r Int) (i Int) (f Int)) (! (and (< (sr r i f) 0) (= (root (sr r i f)) (root r)) (= (srr (sr r i f)) r) (= (sri (sr r i f)) i) (= (srf (sr r i f)) f)) :pattern ((sr r i f)))))
(assert (forall ((n Int)) (! (and (= (atoi (itoa n)) n) (> (slen (itoa n)) 0)) :pattern ((itoa n)))))
(assert (forall ((a S) (b S)) (! (=> (sltlex a b) (not (sltlex b a))) :pattern ((sltlex a b)))))
(assert (forall ((a S)) (! (not (sltlex a a)) :pattern ((sltlex a a)))))
(assert (forall ((a S) (b S)) (! (or (sltlex a b) (sltlex b a) (= a b)) :pattern ((sltlex a b)))))
(assert (forall ((a S) (b S) (c S)) (! (=> (and (sltlex a b) (sltlex b c)) (sltlex a c)) :pattern ((sltlex a b) (sltlex b c)))))
(assert (forall ((a S) (b S) (c S)) (! (=> (and (not (sltlex b a)) (not (sltlex c b))) (not (sltlex c a))) :pattern ((sltlex b a) (sltlex c b)))))
`

// preludeFuns are the functions the prelude declares.
var preludeFuns = map[string]bool{"slen": true, "nth": true, "cat": true, "sub": true, "subd": true, "unit": true, "view": true, "viewd": true, "acopy": true, "arrof": true, "eqs": true,
	"sr": true, "root": true, "ity": true, "itoa": true, "atoi": true, "sltlex": true}

// realFuns are the floating point operations, taken as exact. A query with any
// of them has the floating point numbers as reals.
var realFuns = map[string]string{
	"fadd": "(define-fun fadd ((a F) (b F)) F (+ a b))\n",
	"fsub": "(define-fun fsub ((a F) (b F)) F (- a b))\n",
	"fmul": "(define-fun fmul ((a F) (b F)) F (* a b))\n",
	"fdiv": "(define-fun fdiv ((a F) (b F)) F (/ a b))\n",
	"fneg": "(define-fun fneg ((a F)) F (- a))\n",
	"flt":  "(define-fun flt ((a F) (b F)) Bool (< a b))\n",
	"fle":  "(define-fun fle ((a F) (b F)) Bool (<= a b))\n",
	"fgt":  "(define-fun fgt ((a F) (b F)) Bool (> a b))\n",
	"fge":  "(define-fun fge ((a F) (b F)) Bool (>= a b))\n",
	"i2f":  "(define-fun i2f ((a Int)) F (to_real a))\n",
}

// Printer turns a set of terms into an SMT-LIB script.
type Printer struct {
	real  bool
	c     *Ctx
	out   bytes.Buffer
	named map[*Term]string
	decl  map[string]bool
	refs  map[*Term]int
	litN  map[string]string
	varN  map[string]string
	tn    int
}

func NewPrinter(c *Ctx) *Printer {
	return &Printer{c: c, named: map[*Term]string{}, decl: map[string]bool{}, refs: map[*Term]int{}, litN: map[string]string{}, varN: map[string]string{}}
}

func (p *Printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, tr := range t.trigs {
		for _, x := range tr {
			p.count(x)
		}
	}
}

// sym is the name used for a variable: numbered in order of appearance, so that
// queries which only differ in the names of variables are the same.
func (p *Printer) sym(s string) string {
	i := strings.LastIndexAny(s, "!?")
	if i < 0 {
		return quoteSym(s)
	}
	n, ok := p.varN[s]
	if !ok {
		n = quoteSym(s[:i+1] + strconv.Itoa(len(p.varN)))
		p.varN[s] = n
	}
	return n
}

func quoteSym(s string) string { return "|" + s + "|" }

func (p *Printer) lit(s string) string {
	if s == "" {
		return "lit_"
	}
	if n, ok := p.litN[s]; ok {
		return n
	}
	n := "lit" + strconv.Itoa(len(p.litN))
	p.litN[s] = n
	fmt.Fprintf(&p.out, "(declare-const %s S)\n(assert (= (slen %s) %d))\n", n, n, len(s))
	if len(s) <= 40 {
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&p.out, "(assert (= (nth %s %d) %d))\n", n, i, s[i])
		}
	}
	return n
}

func bigStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + n.String()[1:] + ")"
	}
	return n.String()
}

func intStr(t *Term) string {
	if t.n.Sign() < 0 {
		return "(- " + t.name[1:] + ")"
	}
	return t.name
}

// define makes sure that everything t needs is declared, and gives shared closed terms a name.
func (p *Printer) define(t *Term, done map[*Term]bool) {
	if done[t] {
		return
	}
	done[t] = true
	for _, a := range t.args {
		p.define(a, done)
	}
	for _, tr := range t.trigs {
		for _, x := range tr {
			p.define(x, done)
		}
	}
	switch t.op {
	case "var":
		if !p.decl[t.name] {
			p.decl[t.name] = true
			fmt.Fprintf(&p.out, "(declare-const %s %s)\n", p.sym(t.name), t.sort)
		}
	case "lit":
		p.lit(t.name)
	case "app":
		if !preludeFuns[t.name] && !p.decl["f:"+t.name] {
			p.decl["f:"+t.name] = true
			d := p.c.funs[t.name]
			as := make([]string, len(d.args))
			for i, s := range d.args {
				as[i] = string(s)
			}
			if def := realFuns[t.name]; def != "" {
				p.real = true
				p.out.WriteString(def)
			} else {
				fmt.Fprintf(&p.out, "(declare-fun %s (%s) %s)\n", quoteSym(t.name), strings.Join(as, " "), d.res)
			}
		}
	}
	if !t.bnd && len(t.args) > 0 && (p.refs[t] > 1 || t.op == "ite" && t.sort != SBool) {
		s := p.expr(t)
		p.tn++
		n := "t" + strconv.Itoa(p.tn)
		if t.op == "ite" && t.sort != SBool {
			// a constant, as triggers can't contain an ite
			fmt.Fprintf(&p.out, "(declare-const %s %s)\n(assert (= %s %s))\n", n, t.sort, n, s)
		} else {
			fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", n, t.sort, s)
		}
		p.named[t] = n
	}
	if !t.bnd && t.sort == SInt && (t.lo != nil || t.hi != nil) && (t.op == "var" || t.op == "select" || t.op == "app") {
		s := p.expr(t)
		if t.lo != nil && !(t.name == "slen" && t.lo.Sign() == 0) {
			fmt.Fprintf(&p.out, "(assert (<= %s %s))\n", bigStr(t.lo), s)
		}
		if t.hi != nil {
			fmt.Fprintf(&p.out, "(assert (<= %s %s))\n", s, bigStr(t.hi))
		}
	}
}

// okTrig reports whether t can be part of a trigger.
func (p *Printer) okTrig(t *Term) bool {
	if _, ok := p.named[t]; ok && (t.op == "ite" && t.sort != SBool) {
		return true
	}
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<=", "<", "forall", "exists":
		return false
	}
	for _, a := range t.args {
		if !p.okTrig(a) {
			return false
		}
	}
	return true
}

func (p *Printer) expr(t *Term) string {
	if n, ok := p.named[t]; ok {
		return n
	}
	switch t.op {
	case "var", "bound":
		return p.sym(t.name)
	case "int":
		return intStr(t)
	case "true", "false":
		return t.op
	case "lit":
		return p.lit(t.name)
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.sort, p.expr(t.args[0]))
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.qvars {
			fmt.Fprintf(&sb, "(%s %s)", p.sym(v.name), v.sort)
		}
		sb.WriteString(") ")
		var trigs [][]*Term
		for _, tr := range t.trigs {
			ok := true
			for _, x := range tr {
				ok = ok && p.okTrig(x)
			}
			if ok {
				trigs = append(trigs, tr)
			}
		}
		if len(trigs) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.expr(t.args[0]))
		if len(trigs) > 0 {
			for _, tr := range trigs {
				sb.WriteString(" :pattern (")
				for i, x := range tr {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.expr(x))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	n := t.op
	if t.op == "app" {
		n = t.name
		if !preludeFuns[n] {
			n = quoteSym(n)
		}
	}
	if len(t.args) == 0 {
		return n
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(n)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.expr(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// heapAxiom says that what a heap variable holds is well formed.
func (c *Ctx) heapAxiom(v *Term) *Term {
	k := [2]int{v.id, c.hvEpoch[v]}
	if a, ok := c.heapAx[k]; ok {
		return a
	}
	a := c.makeHeapAxiom(v)
	c.heapAx[k] = a
	return a
}

func (c *Ctx) makeHeapAxiom(v *Term) *Term {
	n := v.name
	if i := strings.LastIndexByte(n, '!'); i >= 0 {
		n = n[:i]
	}
	isRef := strings.HasSuffix(n, ".ref")
	if !isRef && !strings.HasSuffix(n, ".len") && !strings.HasSuffix(n, ".off") && !strings.HasSuffix(n, ".cap") {
		return nil
	}
	var bs []*Term
	sel := v
	for isArr(sel.sort) {
		d, _ := arrParts(sel.sort)
		b := c.Bound("h", d)
		bs = append(bs, b)
		sel = c.Select(sel, b)
	}
	if len(bs) == 0 || sel.sort != SInt {
		return nil
	}
	if isRef {
		nb := c.epochNb[c.hvEpoch[v]]
		if nb == nil {
			return nil
		}
		if bs[0].sort != SInt {
			return c.Forall(bs, [][]*Term{{sel}}, c.And(c.Lt(sel, nb), c.Lt(c.App("root", sel), nb)))
		}
		// memory allocated later may be described by the same variable
		return c.Forall(bs, [][]*Term{{sel}}, c.Imp(c.And(c.Lt(bs[0], nb), c.Lt(c.App("root", bs[0]), nb)), c.And(c.Lt(sel, nb), c.Lt(c.App("root", sel), nb))))
	}
	return c.Forall(bs, [][]*Term{{sel}}, c.Le(c.Int(0), sel))
}

// Script builds a query: unsat iff goal follows from assumptions.
func (c *Ctx) Script(assume []*Term, goal *Term) string {
	p := NewPrinter(c)
	neg := c.Not(goal)
	for _, t := range assume {
		p.count(t)
	}
	p.count(neg)
	done := map[*Term]bool{}
	// what is stored anywhere is well formed
	quant := false
	var hvs []*Term
	for t := range p.refs {
		if t.op == "forall" || t.op == "exists" {
			quant = true
		}
		if t.op == "var" {
			if _, ok := c.hvEpoch[t]; ok {
				hvs = append(hvs, t)
			}
		}
	}
	if quant {
		sort.Slice(hvs, func(i, j int) bool { return hvs[i].id < hvs[j].id })
		for _, v := range hvs {
			if a := c.heapAxiom(v); a != nil {
				p.count(a)
				p.define(a, done)
				fmt.Fprintf(&p.out, "(assert %s)\n", p.expr(a))
			}
		}
	}
	for _, t := range assume {
		p.define(t, done)
		fmt.Fprintf(&p.out, "(assert %s)\n", p.expr(t))
	}
	p.define(neg, done)
	fmt.Fprintf(&p.out, "(assert %s)\n", p.expr(neg))
	// literals are pairwise distinct
	var ls []string
	byLen := map[int][]string{}
	for s := range p.litN {
		byLen[len(s)] = append(byLen[len(s)], s)
	}
	for _, g := range byLen {
		if len(g) > 1 {
			sort.Strings(g)
			var ns []string
			for _, s := range g {
				ns = append(ns, p.litN[s])
			}
			ls = append(ls, "(assert (distinct "+strings.Join(ns, " ")+"))\n")
		}
	}
	sort.Strings(ls)
	pre := prelude
	if p.real {
		pre = strings.Replace(pre, "(declare-sort F 0)", "(define-sort F () Real)", 1)
	}
	return pre + p.out.String() + strings.Join(ls, "")
}

// ---- solving

type SolveStats struct {
	mu      sync.Mutex
	byName  map[string]int
	seconds float64
	queries int
}

var stats = SolveStats{byName: map[string]int{}}

type solverCfg struct {
	name string
	args []string
	pre  string
}

func z3cfg(bin, name string, extra string) solverCfg {
	return solverCfg{name: name, args: []string{bin, "-in", "-smt2"}, pre: "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n" + extra}
}

// z3's elimination of equations turns frame axioms into array definitions, which multiplies index terms
const z3opts = "(set-option :smt.solve_eqs false)\n(set-option :smt.elim_unconstrained false)\n"

var primary = z3cfg("z3-new", "z3-5", z3opts+"(set-option :smt.array.extensional false)\n")
var portfolio = []solverCfg{
	z3cfg("z3-new", "z3-5/seed7", z3opts+"(set-option :smt.random_seed 7)\n(set-option :smt.case_split 3)\n"),
	z3cfg("z3", "z3-4.8", ""),
	z3cfg("z3", "z3-4.8/arith2", "(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 3)\n"),
	{name: "cvc5", args: []string{"cvc5", "--lang=smt2", "-q"}, pre: "(set-logic ALL)\n"},
	{name: "z3-5/mbqi", args: []string{"z3-new", "-in", "-smt2"}, pre: ""},
}

var sem = make(chan struct{}, 8)

func runSolver(ctx context.Context, cfg solverCfg, script string, timeout time.Duration) string {
	select {
	case sem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled"
	}
	defer func() { <-sem }()
	t0 := time.Now()
	cctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	cmd := exec.CommandContext(cctx, cfg.args[0], cfg.args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(cfg.pre + script + "(check-sat)\n(exit)\n")
	out, _ := cmd.Output()
	stats.mu.Lock()
	stats.seconds += time.Since(t0).Seconds()
	stats.queries++
	stats.mu.Unlock()
	s := string(out)
	switch {
	case strings.HasPrefix(s, "unsat"):
		return "unsat"
	case strings.HasPrefix(s, "sat"):
		return "sat"
	case strings.HasPrefix(s, "unknown"):
		return "unknown"
	case cctx.Err() != nil:
		return "timeout"
	}
	if strings.Contains(s, "error") {
		return "error: " + strings.SplitN(s, "\n", 2)[0]
	}
	return "unknown"
}

var (
	cacheMu sync.Mutex
	cache   = map[[32]byte]tried{}
	dumpN   int64
)

type tried struct {
	by          string
	quick, slow time.Duration
}

// devCache is a directory of proved queries, used during development only.
var devCache = os.Getenv("GOVER_CACHE")

// Prove returns whether the goal is proved, with the name of the back end.
func Prove(script string, quick, slow time.Duration) (bool, string) {
	h := sha256.Sum256([]byte(script))
	cacheMu.Lock()
	t, ok := cache[h]
	cacheMu.Unlock()
	if !ok && devCache != "" {
		if b, err := os.ReadFile(filepath.Join(devCache, fmt.Sprintf("%x", h))); err == nil {
			t, ok = tried{by: string(b)}, true
		}
	}
	if ok && (t.by != "" || quick <= t.quick && slow <= t.slow) {
		return t.by != "", t.by
	}
	res := func(r string) (bool, string) {
		cacheMu.Lock()
		cache[h] = tried{r, quick, slow}
		cacheMu.Unlock()
		if r != "" && devCache != "" {
			os.WriteFile(filepath.Join(devCache, fmt.Sprintf("%x", h)), []byte(r), 0o644)
		}
		if r != "" {
			stats.mu.Lock()
			stats.byName[r]++
			stats.mu.Unlock()
		}
		return r != "", r
	}
	r := runSolver(context.Background(), primary, script, quick)
	if strings.HasPrefix(r, "error") {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("/tmp/gover-err-%d.smt2", n), []byte(primary.pre+script+"(check-sat)\n"), 0o644)
		fmt.Fprintln(os.Stderr, "solver error:", r, "see /tmp/gover-err-"+strconv.FormatInt(n, 10)+".smt2")
	}
	if r == "unsat" {
		return res(primary.name)
	}
	if slow == 0 {
		return res("")
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct{ r, n string }
	ch := make(chan ans, len(portfolio))
	for _, cfg := range portfolio {
		go func(cfg solverCfg) { ch <- ans{runSolver(ctx, cfg, script, slow), cfg.name} }(cfg)
	}
	for range portfolio {
		a := <-ch
		if a.r == "unsat" {
			return res(a.n)
		}
	}
	return res("")
}
