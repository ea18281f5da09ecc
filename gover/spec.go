package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Specification language: see DESIGN.md.

type Expr struct {
	op   string // num str char id call idx sub field un bin forall exists if let deref old
	s    string
	args []*Expr
	vars []SVar
	trig [][]*Expr
}

type SVar struct {
	name, typ string
	of        string // ghost fields: the type whose new variables have the zero value
}

type Clause struct {
	E   *Expr
	Src string
	// must: an invariant that is itself an obligation
	Must bool
	Tag  string
}

type Contract struct {
	Key      string
	Kind     string
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Modifies []*Expr
	ModAny   bool
	Invs     []Clause
	Each     []Clause
	Decr     []Clause
	Asserts  []Clause
	Uses     []string
	Splits   []Clause
	Hides    []string // definitions and lemmas not to be used
	Inline   bool
	Extern   bool
	NoReturn bool
	Diverges bool
	LockChk  bool
	NoMod    []string
	Pkg      *types.Package
	pkgName  string
	Kinds    []func(*X, *State, *SEnv, []*Val)
	Where    string
	UseExprs []Clause
	Auto     bool
	Limit    int
	Sets     []Clause // ghost assignments at return, Tag is the ghost variable
	Captures []Clause // what holds of the captured variables of a closure
}

type RecFun struct {
	Name   string
	Params []SVar
	Res    string
	Reads  []string
	Body   *Expr
	Pkg    string
	Opaque bool
	Def    bool // macro
	ord    int
}

type Lemma struct {
	Name     string
	Params   []SVar
	Reads    []string
	Requires []Clause
	Ensures  []Clause
	Decr     *Expr
	Uses     []*Expr
	Asserts  []Clause
	Trig     [][]*Expr
	Auto     bool // available wherever its symbols occur
	Axiom    bool
	Names    []string
	Hides    []string
	Pkg      string
	ord      int
	Where    string
	Cases    []*Expr
}

type ChanSpec struct {
	Requires, Ensures []Clause
	Modifies          []*Expr
	Pkg               *types.Package
}

type Guard struct{ Field string }

type GlobalInv struct {
	Pkg string
	C   Clause
}

type PropSpec struct {
	ID      string
	Funcs   []string
	Lemmas  []string
	Bounded []string
	Globals []string
	Notes   []string
	Replay  []string
}

type Specs struct {
	Contracts map[string]*Contract
	Recs      map[string]*RecFun
	Lemmas    map[string]*Lemma
	LemmaList []*Lemma
	Ghosts    map[string]*SVar
	GFields   map[string]*SVar
	Guards    map[string]*Guard
	Chans     map[string]*ChanSpec
	Open      map[string]bool
	Globals   []GlobalInv
	Props     map[string]*PropSpec
	Files     []string
	ord       int
}

// ---- lexer

type tok struct {
	k string // id num str char op eof
	s string
}

func lexExpr(s string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "...", "..", "::", "&&", "||", "==", "!=", "<=", ">=", ":=", "+", "-", "*", "/", "%", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "=", "&"}
outer:
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '_') {
				j++
			}
			out = append(out, tok{"num", strings.ReplaceAll(s[i:j], "_", "")})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", u})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"num", strconv.Itoa(int(r))})
			i = j + 1
		case c == '_' || c == '#' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '#' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					continue outer
				}
			}
			return nil, fmt.Errorf("bad character %q in %q", c, s)
		}
	}
	return append(out, tok{"eof", ""}), nil
}

// ---- expression parser

type eparser struct {
	ts []tok
	i  int
}

func (p *eparser) peek() tok { return p.ts[p.i] }
func (p *eparser) isOp(s string) bool {
	t := p.ts[p.i]
	return t.k == "op" && t.s == s
}
func (p *eparser) isID(s string) bool {
	t := p.ts[p.i]
	return t.k == "id" && t.s == s
}
func (p *eparser) acc(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}

type perr string

func (p *eparser) exp(s string) {
	if !p.acc(s) {
		panic(perr(fmt.Sprintf("expected %q, found %q", s, p.peek().s)))
	}
}

func (p *eparser) ident() string {
	t := p.peek()
	if t.k != "id" {
		panic(perr("identifier expected, found " + t.s))
	}
	p.i++
	return t.s
}

func parseExpr(s string) (e *Expr, err error) {
	ts, err := lexExpr(s)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				e, err = nil, fmt.Errorf("%s in %q", string(pe), s)
				return
			}
			panic(r)
		}
	}()
	p := &eparser{ts: ts}
	e = p.expr()
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("unexpected %q in %q", p.peek().s, s)
	}
	return e, nil
}

func parseExprs(s string) ([]*Expr, error) {
	ts, err := lexExpr(s)
	if err != nil {
		return nil, err
	}
	var out []*Expr
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(perr); ok {
					err = fmt.Errorf("%s in %q", string(pe), s)
					return
				}
				panic(r)
			}
		}()
		p := &eparser{ts: ts}
		for {
			out = append(out, p.expr())
			if !p.acc(",") {
				break
			}
		}
		if p.peek().k != "eof" {
			panic(perr("unexpected " + p.peek().s))
		}
	}()
	return out, err
}

func bin(op string, a, b *Expr) *Expr { return &Expr{op: "bin", s: op, args: []*Expr{a, b}} }

func (p *eparser) expr() *Expr { return p.iff() }

func (p *eparser) iff() *Expr {
	a := p.imp()
	for p.acc("<==>") {
		a = bin("<==>", a, p.imp())
	}
	return a
}

func (p *eparser) imp() *Expr {
	a := p.or()
	if p.acc("==>") {
		return bin("==>", a, p.imp())
	}
	return a
}

func (p *eparser) or() *Expr {
	a := p.and()
	for p.acc("||") {
		a = bin("||", a, p.and())
	}
	return a
}

func (p *eparser) and() *Expr {
	a := p.cmp()
	for p.acc("&&") {
		a = bin("&&", a, p.cmp())
	}
	return a
}

func (p *eparser) cmp() *Expr {
	a := p.sum()
	var out *Expr
	for {
		t := p.peek()
		if t.k != "op" || !(t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			break
		}
		p.i++
		b := p.sum()
		c := bin(t.s, a, b)
		if out == nil {
			out = c
		} else {
			out = bin("&&", out, c)
		}
		a = b
	}
	if out == nil {
		return a
	}
	return out
}

func (p *eparser) sum() *Expr {
	a := p.prod()
	for {
		if p.acc("+") {
			a = bin("+", a, p.prod())
		} else if p.acc("-") {
			a = bin("-", a, p.prod())
		} else {
			return a
		}
	}
}

func (p *eparser) prod() *Expr {
	a := p.unary()
	for {
		if p.acc("*") {
			a = bin("*", a, p.unary())
		} else if p.acc("/") {
			a = bin("/", a, p.unary())
		} else if p.acc("%") {
			a = bin("%", a, p.unary())
		} else {
			return a
		}
	}
}

func (p *eparser) unary() *Expr {
	if p.acc("!") {
		return &Expr{op: "un", s: "!", args: []*Expr{p.unary()}}
	}
	if p.acc("-") {
		return &Expr{op: "un", s: "-", args: []*Expr{p.unary()}}
	}
	if p.acc("*") {
		return &Expr{op: "deref", args: []*Expr{p.unary()}}
	}
	if p.acc("&") {
		return &Expr{op: "addr", args: []*Expr{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *eparser) postfix(a *Expr) *Expr {
	for {
		switch {
		case p.acc("."):
			a = &Expr{op: "field", s: p.ident(), args: []*Expr{a}}
		case p.acc("["):
			if p.acc("..") {
				var j *Expr
				if !p.isOp("]") {
					j = p.expr()
				}
				p.exp("]")
				a = &Expr{op: "sub", args: []*Expr{a, nil, j}}
				continue
			}
			i := p.expr()
			if p.acc("..") {
				var j *Expr
				if !p.isOp("]") {
					j = p.expr()
				}
				p.exp("]")
				a = &Expr{op: "sub", args: []*Expr{a, i, j}}
				continue
			}
			p.exp("]")
			a = &Expr{op: "idx", args: []*Expr{a, i}}
		case p.isOp("("):
			p.i++
			var as []*Expr
			for !p.isOp(")") {
				as = append(as, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.exp(")")
			n := ""
			if a.op == "id" {
				n = a.s
			} else if a.op == "field" && a.args[0].op == "id" {
				n = a.args[0].s + "." + a.s
			} else {
				panic(perr("call of expression"))
			}
			a = &Expr{op: "call", s: n, args: as}
		default:
			return a
		}
	}
}

// typ parses a type as raw text.
func (p *eparser) typ() string {
	s := ""
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]" || t.s == ".") {
			s += t.s
			p.i++
			continue
		}
		if t.k == "id" {
			s += t.s
			p.i++
			if p.isOp(".") || strings.HasSuffix(s, "[") || strings.HasSuffix(s, "map") && p.isOp("[") {
				continue
			}
			if p.isOp("]") {
				continue
			}
			return s
		}
		panic(perr("type expected, found " + t.s))
	}
}

func (p *eparser) primary() *Expr {
	t := p.peek()
	switch {
	case t.k == "num":
		p.i++
		return &Expr{op: "num", s: t.s}
	case t.k == "str":
		p.i++
		return &Expr{op: "str", s: t.s}
	case t.k == "op" && t.s == "(":
		p.i++
		e := p.expr()
		p.exp(")")
		return e
	case t.k == "id" && (t.s == "forall" || t.s == "exists" || t.s == "arr"):
		p.i++
		e := &Expr{op: t.s}
		for {
			n := p.ident()
			ty := "Int"
			if p.acc(":") {
				ty = p.typ()
			}
			e.vars = append(e.vars, SVar{name: n, typ: ty})
			if !p.acc(",") {
				break
			}
		}
		p.exp("::")
		for p.acc("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.exp("}")
			e.trig = append(e.trig, tr)
		}
		e.args = []*Expr{p.expr()}
		return e
	case t.k == "id" && t.s == "if":
		p.i++
		c := p.expr()
		if !p.isID("then") {
			panic(perr("then expected"))
		}
		p.i++
		a := p.expr()
		if !p.isID("else") {
			panic(perr("else expected"))
		}
		p.i++
		b := p.expr()
		return &Expr{op: "if", args: []*Expr{c, a, b}}
	case t.k == "id" && t.s == "let":
		p.i++
		n := p.ident()
		p.exp("=")
		v := p.expr()
		if !p.isID("in") {
			panic(perr("in expected"))
		}
		p.i++
		return &Expr{op: "let", s: n, args: []*Expr{v, p.expr()}}
	case t.k == "id":
		p.i++
		return &Expr{op: "id", s: t.s}
	}
	panic(perr("unexpected " + t.s))
}

// ---- file parser

var clauseWords = map[string]bool{"requires": true, "ensures": true, "modifies": true, "invariant": true, "invariant!": true, "each": true, "decreases": true,
	"uses": true, "hides": true, "split": true, "inline": true, "diverges": true, "noreturn": true, "lockcheck": true, "use": true, "trigger": true, "assert": true, "nomod": true, "set": true, "captures": true, "reads": true, "auto": true, "functions": true, "lemmas": true, "bounded": true, "globals": true, "note": true, "replay": true, "limit": true, "case": true}
var topWords = map[string]bool{"package": true, "ghost": true, "ghostfield": true, "def": true, "rec": true, "lemma": true, "axiom": true, "contract": true, "extern": true, "functype": true,
	"global": true, "guarded": true, "chan": true, "recv": true, "open": true, "property": true, "declare": true}

func LoadSpecs(dir string, P *Program) (*Specs, error) {
	sp := &Specs{Contracts: map[string]*Contract{}, Recs: map[string]*RecFun{}, Lemmas: map[string]*Lemma{}, Ghosts: map[string]*SVar{}, GFields: map[string]*SVar{},
		Guards: map[string]*Guard{}, Chans: map[string]*ChanSpec{}, Open: map[string]bool{}, Props: map[string]*PropSpec{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		sp.Files = append(sp.Files, f)
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parseFile(filepath.Base(f), string(b), P); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

type item struct {
	word, rest string
	line       int
}

func (sp *Specs) parseFile(file, text string, P *Program) (err error) {
	// join continuation lines into items
	var items []item
	for n, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" || t[0] == '#' {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		indented := l[0] == ' ' || l[0] == '\t'
		if !indented && topWords[w] || indented && clauseWords[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), n + 1})
			continue
		}
		if len(items) == 0 || !indented {
			return fmt.Errorf("%s:%d: unexpected %q", file, n+1, t)
		}
		items[len(items)-1].rest += " " + t
	}
	pkg := ""
	var con *Contract
	var lem *Lemma
	var ch *ChanSpec
	var prop *PropSpec
	for _, it := range items {
		where := fmt.Sprintf("%s:%d", file, it.line)
		fail := func(e error) error { return fmt.Errorf("%s: %v", where, e) }
		clause := func() (Clause, error) {
			s := it.rest
			tag := ""
			if strings.HasPrefix(s, "@") {
				i := strings.IndexByte(s, ' ')
				tag, s = s[1:i], strings.TrimSpace(s[i:])
			}
			e, err := parseExpr(s)
			return Clause{E: e, Src: s, Tag: tag}, err
		}
		sp.ord++
		ord := sp.ord
		if topWords[it.word] {
			con, lem, ch, prop = nil, nil, nil, nil
		}
		switch it.word {
		case "package":
			pkg = it.rest
		case "ghost", "ghostfield":
			i := strings.IndexByte(it.rest, ':')
			v := &SVar{name: strings.TrimSpace(it.rest[:i]), typ: strings.TrimSpace(it.rest[i+1:])}
			if j := strings.Index(v.typ, " of "); j > 0 {
				v.typ, v.of = v.typ[:j], strings.TrimSpace(v.typ[j+4:])
			}
			if it.word == "ghost" {
				sp.Ghosts[v.name] = v
			} else {
				sp.GFields[v.name] = v
			}
		case "open":
			sp.Open[it.rest] = true
		case "guarded":
			f := strings.Fields(it.rest)
			sp.Guards[f[0]] = &Guard{f[2]}
		case "global":
			e, err := parseExpr(it.rest)
			if err != nil {
				return fail(err)
			}
			sp.Globals = append(sp.Globals, GlobalInv{pkg, Clause{E: e, Src: it.rest}})
		case "def", "rec", "declare":
			r, err := parseRec(it.rest, it.word == "declare")
			if err != nil {
				return fail(err)
			}
			r.Def, r.Pkg, r.ord = it.word == "def", pkg, ord
			if sp.Recs[r.Name] != nil {
				return fail(fmt.Errorf("%s defined twice", r.Name))
			}
			sp.Recs[r.Name] = r
		case "lemma", "axiom":
			n, ps, reads, _, err := parseHead(it.rest)
			if err != nil {
				return fail(err)
			}
			lem = &Lemma{Name: n, Params: ps, Reads: reads, Pkg: pkg, ord: ord, Axiom: it.word == "axiom", Where: where}
			sp.Lemmas[n] = lem
			sp.LemmaList = append(sp.LemmaList, lem)
		case "contract", "extern", "functype":
			con, err = parseConHead(it.rest)
			if err != nil {
				return fail(err)
			}
			con.Kind, con.pkgName, con.Where = it.word, pkg, where
			con.Extern = it.word != "contract"
			con.Pkg = P.pkgs[pkg]
			key := con.Key
			if it.word == "functype" {
				key = "functype " + key
			}
			if sp.Contracts[key] != nil {
				return fail(fmt.Errorf("second contract for %s", key))
			}
			sp.Contracts[key] = con
		case "chan", "recv":
			ch = &ChanSpec{Pkg: P.pkgs[pkg]}
			k := it.rest
			if it.word == "recv" {
				k = "recv " + k
			}
			sp.Chans[k] = ch
		case "property":
			prop = &PropSpec{ID: it.rest}
			if o := sp.Props[it.rest]; o != nil {
				prop = o
			}
			sp.Props[it.rest] = prop
		case "functions", "lemmas", "bounded", "globals", "note", "replay":
			if prop == nil {
				return fail(fmt.Errorf("%s outside of property", it.word))
			}
			f := strings.Fields(it.rest)
			switch it.word {
			case "functions":
				prop.Funcs = append(prop.Funcs, f...)
			case "lemmas":
				prop.Lemmas = append(prop.Lemmas, f...)
			case "bounded":
				prop.Bounded = append(prop.Bounded, it.rest)
			case "globals":
				prop.Globals = append(prop.Globals, f...)
			case "note":
				prop.Notes = append(prop.Notes, it.rest)
			case "replay":
				prop.Replay = append(prop.Replay, f...)
			}
		case "inline", "diverges", "noreturn", "lockcheck":
			switch it.word {
			case "inline":
				con.Inline = true
			case "diverges":
				con.Diverges = true
			case "noreturn":
				con.NoReturn = true
			case "lockcheck":
				con.LockChk = true
			}
		case "set":
			i := strings.IndexByte(it.rest, '=')
			name := strings.TrimSpace(it.rest[:i])
			e, err := parseExpr(it.rest[i+1:])
			if err != nil {
				return fail(err)
			}
			eq, err := parseExpr(name + " == (" + it.rest[i+1:] + ")")
			if err != nil {
				return fail(err)
			}
			id, _ := parseExpr(name)
			con.Sets = append(con.Sets, Clause{E: e, Src: it.rest, Tag: name})
			con.Ensures = append(con.Ensures, Clause{E: eq, Src: it.rest})
			con.Modifies = append(con.Modifies, id)
		case "captures":
			e, err := parseExpr(it.rest)
			if err != nil {
				return fail(err)
			}
			con.Captures = append(con.Captures, Clause{E: e, Src: it.rest})
		case "limit":
			con.Limit, _ = strconv.Atoi(it.rest)
		case "auto":
			lem.Auto = true
		case "hides":
			if con != nil {
				con.Hides = append(con.Hides, strings.Fields(it.rest)...)
			} else {
				lem.Hides = append(lem.Hides, strings.Fields(it.rest)...)
			}
		case "uses":
			if con != nil {
				con.Uses = append(con.Uses, strings.Fields(it.rest)...)
			} else {
				lem.Names = append(lem.Names, strings.Fields(it.rest)...)
			}
		case "nomod":
			con.NoMod = append(con.NoMod, strings.Fields(it.rest)...)
		case "case":
			e, err := parseExpr(it.rest)
			if err != nil {
				return fail(err)
			}
			lem.Cases = append(lem.Cases, e)
		case "use":
			e, err := parseExpr(it.rest)
			if err != nil {
				return fail(err)
			}
			if lem != nil {
				lem.Uses = append(lem.Uses, e)
			} else {
				con.UseExprs = append(con.UseExprs, Clause{E: e, Src: it.rest})
			}
		case "trigger":
			es, err := parseExprs(it.rest)
			if err != nil {
				return fail(err)
			}
			lem.Trig = append(lem.Trig, es)
		case "reads":
			lem.Reads = append(lem.Reads, strings.Fields(it.rest)...)
		case "modifies":
			if it.rest == "nothing" {
				break
			}
			es, err := parseExprs(it.rest)
			if err != nil {
				return fail(err)
			}
			if con != nil {
				con.Modifies = append(con.Modifies, es...)
			} else {
				ch.Modifies = append(ch.Modifies, es...)
			}
		default:
			cl, err := clause()
			if err != nil {
				return fail(err)
			}
			switch {
			case lem != nil:
				switch it.word {
				case "requires":
					lem.Requires = append(lem.Requires, cl)
				case "ensures":
					lem.Ensures = append(lem.Ensures, cl)
				case "decreases":
					lem.Decr = cl.E
				case "assert":
					lem.Asserts = append(lem.Asserts, cl)
				default:
					return fail(fmt.Errorf("%s in lemma", it.word))
				}
			case ch != nil:
				switch it.word {
				case "requires":
					ch.Requires = append(ch.Requires, cl)
				case "ensures":
					ch.Ensures = append(ch.Ensures, cl)
				}
			case con != nil:
				switch it.word {
				case "requires":
					con.Requires = append(con.Requires, cl)
				case "ensures":
					con.Ensures = append(con.Ensures, cl)
				case "invariant":
					con.Invs = append(con.Invs, cl)
				case "invariant!":
					cl.Must = true
					con.Invs = append(con.Invs, cl)
				case "each":
					con.Each = append(con.Each, cl)
				case "decreases":
					con.Decr = append(con.Decr, cl)
				case "assert":
					con.Asserts = append(con.Asserts, cl)
				case "split":
					con.Splits = append(con.Splits, cl)
				}
			default:
				return fail(fmt.Errorf("clause %s outside of an item", it.word))
			}
		}
	}
	return nil
}

func parseHead(s string) (name string, ps []SVar, reads []string, rest string, err error) {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return "", nil, nil, "", fmt.Errorf("parameters expected in %q", s)
	}
	name = strings.TrimSpace(s[:i])
	depth, j := 0, i
	for ; j < len(s); j++ {
		if s[j] == '(' {
			depth++
		}
		if s[j] == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	for _, p := range strings.Split(s[i+1:j], ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		f := strings.SplitN(p, ":", 2)
		v := SVar{name: strings.TrimSpace(f[0]), typ: ""}
		if len(f) == 2 {
			v.typ = strings.TrimSpace(f[1])
		}
		ps = append(ps, v)
	}
	return name, ps, nil, strings.TrimSpace(s[j+1:]), nil
}

func parseRec(s string, declare bool) (*RecFun, error) {
	name, ps, _, rest, err := parseHead(s)
	if err != nil {
		return nil, err
	}
	r := &RecFun{Name: name, Params: ps}
	if strings.HasPrefix(rest, ":") {
		rest = strings.TrimSpace(rest[1:])
		j := strings.IndexAny(rest, " =")
		if j < 0 {
			j = len(rest)
		}
		r.Res = rest[:j]
		rest = strings.TrimSpace(rest[j:])
	}
	if strings.HasPrefix(rest, "reads ") {
		j := strings.IndexByte(rest, '=')
		if j < 0 {
			j = len(rest)
		}
		for _, k := range strings.Split(rest[6:j], ",") {
			r.Reads = append(r.Reads, strings.TrimSpace(k))
		}
		rest = rest[j:]
	}
	if declare {
		r.Opaque = true
		return r, nil
	}
	if !strings.HasPrefix(rest, "=") {
		return nil, fmt.Errorf("= expected at %q", rest)
	}
	r.Body, err = parseExpr(rest[1:])
	return r, err
}

func parseConHead(s string) (*Contract, error) {
	// pkg.(*T).M(params) (results)
	i := strings.LastIndexByte(s, '(')
	res := ""
	// find the parameter list: the first '(' after the name that isn't "(*"
	j := 0
	for j < len(s) {
		if s[j] == '(' && !(j+1 < len(s) && s[j+1] == '*' && j > 0 && s[j-1] == '.') {
			break
		}
		if s[j] == '(' {
			for s[j] != ')' {
				j++
			}
		}
		j++
	}
	_ = i
	if j >= len(s) {
		return nil, fmt.Errorf("parameters expected in %q", s)
	}
	key := strings.TrimSpace(s[:j])
	e := strings.IndexByte(s[j:], ')') + j
	con := &Contract{Key: key}
	for _, p := range strings.Split(s[j+1:e], ",") {
		if p = strings.TrimSpace(p); p != "" {
			con.Params = append(con.Params, p)
		}
	}
	res = strings.TrimSpace(s[e+1:])
	if strings.HasPrefix(res, "(") {
		for _, p := range strings.Split(strings.Trim(res, "()"), ",") {
			if p = strings.TrimSpace(p); p != "" {
				con.Results = append(con.Results, p)
			}
		}
	}
	return con, nil
}

func (e *Expr) String() string {
	if e == nil {
		return "_"
	}
	s := "(" + e.op + " " + e.s
	for _, a := range e.args {
		s += " " + a.String()
	}
	return s + ")"
}
