package main

// Contract language: lexer, parser and AST.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---- spec-only types -------------------------------------------------------

// MapValT is the type of mathematical map values.
type MapValT struct{ m *types.Map }

func (t *MapValT) Underlying() types.Type { return t }
func (t *MapValT) String() string         { return "mapv" + strings.TrimPrefix(typeName(t.m), "map") }

// ZT is the type of mathematical integers.
type ZT struct{}

func (t *ZT) Underlying() types.Type { return t }
func (t *ZT) String() string         { return "Z" }

// SortT wraps a bare sort (fields of library objects, etc).
var zT = &ZT{}

// SpecStruct is a structure declared in a contract file.
type SpecStruct struct {
	name   string
	fields []SpecField
	sort   *Sort
}
type SpecField struct {
	name string
	ty   types.Type
}

func (t *SpecStruct) Underlying() types.Type { return t }
func (t *SpecStruct) String() string         { return t.name }

var specStructs = map[string]*SpecStruct{}

// ---- AST ---------------------------------------------------------------------

type Expr struct {
	op   string // int str name meta call index field bin un forall exists if let lit old ...
	name string
	args []*Expr
	strs []string // field names, binder names
	typs []string // binder types
	trig [][]*Expr
	pos  string
}

type Clause struct {
	kind  string // requires ensures onok onfail okiff inv decreases modifies let ghostset
	label string
	e     *Expr
	name  string
	depth int
	props []string
	text  string
}

type Contract struct {
	key      string
	params   []string
	results  []string
	clauses  []*Clause
	props    []string
	seq      int
	merge    bool // join paths
	called   bool // the result is a function; the clauses speak about what a call of it returns
	helper   bool // of an unexported function: used if it verifies, the function is inlined if not
	trusted  bool // body not verified (listed as assumption)
	file     string
	nilable  map[string]bool
	noterm   bool
	fresh    []string
	fn       any
	unfold   int
	noinline bool
}

type FunDecl struct {
	eval   bool // computed where the last argument is a literal
	name   string
	params []string
	ptypes []types.Type
	res    types.Type
	body   *Expr
}

type GhostDecl struct {
	name string
	key  types.Type // nil for scalar
	val  types.Type
}

type OrderDecl struct {
	name string
	a, b string
	ty   types.Type
	body *Expr
	ast  *Expr
}

var (
	contracts = map[string]*Contract{}
	macros    = map[string]*FunDecl{}
	specFuns  = map[string]*FunDecl{}
	ghosts    = map[string]*GhostDecl{}
	orders    = map[string]*OrderDecl{}
	lemmas    []*Lemma
	trustedAx []string
)

type Lemma struct {
	name   string
	params []string
	ptypes []types.Type
	ind    string // induction variable
	hyp    *Expr
	concl  *Expr
	trig   *Expr
	props  []string
	trigs  [][]*Expr
	ground bool // instances for the terms of a query are added to it before definitions are unfolded
	axiom  *Axiom
	uses   map[string]bool // lemmas its proof was offered
	ob     *Oblig
}

// ---- lexer ---------------------------------------------------------------------

type tok struct {
	k    string // id num str op eof
	s    string
	line int
}

type parser struct {
	toks []tok
	p    int
	file string
}

func lex(file, src string) []tok {
	var ts []tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '\'') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f') {
				j++
			}
			ts = append(ts, tok{"num", src[i:j], line})
			i = j
		case c == '\'' && i+2 < len(src):
			r, w := utf8.DecodeRuneInString(src[i+1:])
			if src[i+1+w] != '\'' {
				panic(specErr("%s:%d: bad character", file, line))
			}
			ts = append(ts, tok{"num", strconv.Itoa(int(r)), line})
			i += w + 2
		case c == '"':
			j := i + 1
			var b strings.Builder
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'e':
						b.WriteByte(033)
					default:
						b.WriteByte(src[j])
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			ts = append(ts, tok{"str", b.String(), line})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", ":=", "==", "!=", "<=", ">=", "&&", "||", "->", "++"}
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, line})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				ts = append(ts, tok{"op", string(c), line})
				i++
			}
		}
	}
	ts = append(ts, tok{"eof", "", line})
	return ts
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) fail(f string, a ...any) {
	panic(specErr("%s:%d: %s (at %q)", p.file, p.peek().line, fmt.Sprintf(f, a...), p.peek().s))
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}

// typ reads a type as text.
func (p *parser) typ() string {
	switch {
	case p.accept("["):
		p.expect("]")
		return "[]" + p.typ()
	case p.accept("*"):
		return "*" + p.typ()
	}
	n := p.ident()
	if (n == "map" || n == "mapv") && p.accept("[") {
		k := p.typ()
		p.expect("]")
		return n + "[" + k + "]" + p.typ()
	}
	for p.is(".") {
		p.next()
		n += "." + p.ident()
	}
	return n
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "onok": true, "onfail": true, "okiff": true, "inv": true, "inv1": true, "inv2": true, "inv3": true,
	"decreases": true, "modifies": true, "let": true, "ghostset": true, "prop": true, "trusted": true, "nilable": true, "noterm": true, "fresh": true, "unfold": true, "noinline": true, "assume": true, "helper": true, "merge": true, "called": true}

var itemKw = map[string]bool{"ufun": true, "rec": true, "def": true, "fold": true, "axiom": true, "lemma": true, "struct": true, "ghost": true, "immutable": true, "order": true, "func": true}

// ---- expressions -----------------------------------------------------------------

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr() *Expr { return p.bin(1) }

func (p *parser) mkE(op, name string, args ...*Expr) *Expr {
	return &Expr{op: op, name: name, args: args, pos: fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line)}
}

func (p *parser) bin(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = p.mkE("bin", t.s, l, r)
	}
}

func (p *parser) unary() *Expr {
	if p.accept("!") {
		return p.mkE("un", "!", p.unary())
	}
	if p.accept("-") {
		return p.mkE("un", "-", p.unary())
	}
	return p.postfix()
}

func (p *parser) binders() (ns, ts []string) {
	for {
		n := p.ident()
		t := p.typ()
		ns = append(ns, n)
		ts = append(ts, t)
		if !p.accept(",") {
			return
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.peek()
	switch {
	case t.k == "num":
		p.next()
		return p.mkE("int", t.s)
	case t.k == "str":
		p.next()
		return p.mkE("str", t.s)
	case p.accept("("):
		e := p.expr()
		p.expect(")")
		return e
	case p.accept("?"):
		n := p.ident()
		e := p.mkE("meta", n)
		if p.accept(":") {
			e.typs = []string{p.typ()}
		}
		return e
	case t.s == "[" || t.s == "*" || t.s == "map" || t.s == "mapv":
		// type operand, only valid as call argument
		save := p.p
		ty := p.typ()
		if p.is(",") || p.is(")") {
			return p.mkE("type", ty)
		}
		p.p = save
		p.fail("expression expected")
	case p.accept("forall"), p.is("exists") && p.accept("exists"):
		op := t.s
		ns, ts := p.binders()
		e := p.mkE(op, "")
		e.strs, e.typs = ns, ts
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trig = append(e.trig, tr)
		}
		p.expect(":")
		e.args = []*Expr{p.expr()}
		return e
	case p.accept("if"):
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return p.mkE("if", "", c, a, b)
	case p.is("let") && p.toks[p.p+2].s == "=":
		p.next()
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		return p.mkE("let", n, v, b)
	}
	n := p.ident()
	if (clauseKw[n] || itemKw[n]) && !(n == "fresh" && p.is("(")) {
		p.p--
		p.fail("unexpected keyword")
	}
	return p.mkE("name", n)
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.is("(") && e.op == "name":
			p.next()
			c := p.mkE("call", e.name)
			if !p.accept(")") {
				for {
					c.args = append(c.args, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
			e = c
		case p.is("{") && (e.op == "name" && (unicode.IsUpper(rune(e.name[0]))) || e.op == "field" && e.args[0].op == "name" && pkgByName[e.args[0].name] != nil):
			// struct literal T{f: e, ...}
			n := e.name
			if e.op == "field" {
				n = e.args[0].name + "." + e.name
			}
			p.next()
			l := p.mkE("lit", n)
			for !p.accept("}") {
				l.strs = append(l.strs, p.ident())
				p.expect(":")
				l.args = append(l.args, p.expr())
				if !p.accept(",") {
					p.expect("}")
					break
				}
			}
			e = l
		case p.accept("."):
			e = p.mkE("field", p.ident(), e)
		case p.is("["):
			p.next()
			if p.accept(":") {
				b := p.expr()
				p.expect("]")
				e = p.mkE("slice", "", e, p.mkE("int", "0"), b)
				continue
			}
			a := p.expr()
			if p.accept(":") {
				if p.accept("]") {
					e = p.mkE("slice", "", e, a)
					continue
				}
				b := p.expr()
				p.expect("]")
				e = p.mkE("slice", "", e, a, b)
				continue
			}
			p.expect("]")
			e = p.mkE("index", "", e, a)
		default:
			return e
		}
	}
}

// ---- items ----------------------------------------------------------------------

func (p *parser) params() (ns []string, ts []types.Type) {
	p.expect("(")
	if p.accept(")") {
		return
	}
	for {
		ns = append(ns, p.ident())
		ts = append(ts, parseType(p.typ()))
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return
}

func (p *parser) names() (ns []string) {
	p.expect("(")
	if p.accept(")") {
		return
	}
	for {
		ns = append(ns, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return
}

func (p *parser) funcKey() string {
	// pkg.(*T).M | pkg.T.M | pkg.F | F$1
	s := p.ident()
	for p.accept(".") {
		s += "."
		if p.accept("(") {
			p.expect("*")
			s += "(*" + p.ident() + ")"
			p.expect(")")
		} else {
			s += p.ident()
		}
	}
	for p.accept("$") {
		s += "$" + p.next().s
	}
	return s
}

func (p *parser) propList() (r []string) {
	for p.peek().k == "id" && len(p.peek().s) == 3 && p.peek().s[0] == 'C' {
		r = append(r, p.ident())
		p.accept(",")
	}
	return
}

func (p *parser) file_() {
	for p.peek().k != "eof" {
		switch kw := p.ident(); kw {
		case "immutable":
			p.typ()
		case "struct":
			n := p.ident()
			p.expect("{")
			for !p.accept("}") {
				p.ident()
				p.typ()
				p.accept(",")
			}
			_ = n
		case "ufun":
			d := &FunDecl{name: p.ident()}
			d.params, d.ptypes = p.params()
			d.res = parseType(p.typ())
			specFuns[d.name] = d
		case "rec":
			d := &FunDecl{name: p.ident()}
			if d.name == "eval" && !p.is("(") {
				d.name, d.eval = p.ident(), true
			}
			d.params, d.ptypes = p.params()
			d.res = parseType(p.typ())
			p.expect("=")
			d.body = p.expr()
			specFuns[d.name] = d
		case "def":
			d := &FunDecl{name: p.ident()}
			d.params = p.names()
			p.expect("=")
			d.body = p.expr()
			macros[d.name] = d
		case "fold":
			p.fold()
		case "ghost":
			g := &GhostDecl{name: p.ident()}
			p.expect(":")
			t := parseType(p.typ())
			if p.accept("->") {
				g.key = t
				g.val = parseType(p.typ())
			} else {
				g.val = t
			}
			ghosts[g.name] = g
		case "order":
			o := &OrderDecl{name: p.ident()}
			p.expect("(")
			o.a = p.ident()
			p.expect(",")
			o.b = p.ident()
			o.ty = parseType(p.typ())
			p.expect(")")
			p.expect("=")
			o.ast = p.expr()
			orders[o.name] = o
		case "axiom":
			n := p.ident()
			p.expect(":")
			e := p.expr()
			pendingAxioms = append(pendingAxioms, pendingAxiom{n, e})
		case "lemma":
			l := &Lemma{name: p.ident()}
			l.params, l.ptypes = p.params()
			if p.is("by") {
				p.next()
				l.ind = p.ident()
			}
			l.props = p.propList()
			if p.is("ground") {
				p.next()
				l.ground = true
			}
			for p.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				l.trigs = append(l.trigs, tr)
			}
			p.expect(":")
			l.concl = p.expr()
			lemmas = append(lemmas, l)
		case "func":
			p.fn()
		default:
			p.p--
			p.fail("item expected")
		}
	}
}

type pendingAxiom struct {
	name string
	e    *Expr
}

var pendingAxioms []pendingAxiom

type FoldDecl struct {
	name     string
	params   []string
	ptypes   []types.Type
	res      types.Type
	initE    *Expr
	acc, x   string
	step     *Expr
	comm     bool
	lenPres  bool // result is a sequence of the same length
	elemType types.Type
}

var folds = map[string]*FoldDecl{}

// fold name(s []T, extra U) R init e step(acc, x) e [comm]
func (p *parser) fold() {
	d := &FoldDecl{name: p.ident()}
	d.params, d.ptypes = p.params()
	d.res = parseType(p.typ())
	if p.ident() != "init" {
		p.fail("init expected")
	}
	d.initE = p.expr()
	if p.ident() != "step" {
		p.fail("step expected")
	}
	p.expect("(")
	d.acc = p.ident()
	p.expect(",")
	d.x = p.ident()
	p.expect(")")
	d.step = p.expr()
	for {
		if p.is("comm") {
			p.next()
			d.comm = true
		} else if p.is("samelen") {
			p.next()
			d.lenPres = true
		} else {
			break
		}
	}
	folds[d.name] = d
}

func (p *parser) fn() {
	c := &Contract{nilable: map[string]bool{}, file: p.file}
	c.key = p.funcKey()
	c.params = p.names()
	if p.is("(") {
		c.results = p.names()
	}
	p.expect("{")
	for !p.accept("}") {
		kw := p.ident()
		if !clauseKw[kw] {
			p.p--
			p.fail("clause expected")
		}
		start := p.p
		cl := &Clause{kind: kw}
		switch kw {
		case "prop":
			c.props = append(c.props, p.propList()...)
			continue
		case "trusted":
			c.trusted = true
			continue
		case "merge":
			c.merge = true
			continue
		case "called":
			c.called = true
			continue
		case "helper":
			c.helper = true
			continue
		case "noterm":
			c.noterm = true
			continue
		case "noinline":
			c.noinline = true
			continue
		case "unfold":
			fmt.Sscan(p.next().s, &c.unfold)
			continue
		case "nilable":
			c.nilable[p.ident()] = true
			continue
		case "fresh":
			c.fresh = append(c.fresh, p.ident())
			continue
		case "inv1", "inv2", "inv3":
			cl.kind = "inv"
			cl.depth = int(kw[3] - '0')
			cl.e = p.expr()
		case "let":
			cl.name = p.ident()
			p.expect("=")
			cl.e = p.expr()
		case "ghostset":
			cl.args(p)
		case "modifies":
			for {
				x := &Clause{kind: "modifies", e: p.expr()}
				c.clauses = append(c.clauses, x)
				if !p.accept(",") {
					break
				}
			}
			continue
		default:
			if p.accept("[") {
				cl.props = p.propList()
				if p.peek().k == "id" {
					cl.label = p.ident()
				}
				p.expect("]")
			}
			cl.e = p.expr()
		}
		cl.text = p.text(start, p.p)
		c.clauses = append(c.clauses, cl)
	}
	if _, dup := contracts[c.key]; dup {
		p.fail("duplicate contract %s", c.key)
	}
	c.seq = len(contracts)
	contracts[c.key] = c
}

func (cl *Clause) args(p *parser) {
	cl.e = p.expr()
	p.expect(":=")
	r := p.expr()
	cl.e = p.mkE("set", "", cl.e, r)
}

func (p *parser) text(a, b int) string {
	var s strings.Builder
	for i := a; i < b; i++ {
		t := p.toks[i]
		if t.k == "str" {
			fmt.Fprintf(&s, "%q", t.s)
		} else {
			if i > a && (t.k == "id" || t.k == "num") && (p.toks[i-1].k == "id" || p.toks[i-1].k == "num") || binPrec[t.s] > 0 && t.k == "op" || i > a && binPrec[p.toks[i-1].s] > 0 && p.toks[i-1].k == "op" {
				s.WriteByte(' ')
			}
			s.WriteString(t.s)
		}
	}
	return s.String()
}

func loadContracts(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gov"))
	sort.Strings(fs)
	var ps []*parser
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		ps = append(ps, &parser{file: f, toks: lex(f, string(b))})
	}
	// types first: immutable and struct declarations anywhere
	for _, p := range ps {
		for i, t := range p.toks {
			if t.k == "id" && t.s == "immutable" && (i == 0 || p.toks[i-1].s != ".") {
				q := &parser{file: p.file, toks: p.toks, p: i + 1}
				immutable[q.typ()] = true
			}
		}
	}
	for _, p := range ps {
		for i, t := range p.toks {
			if t.k == "id" && t.s == "struct" && p.toks[i+2].s == "{" {
				specStructs[p.toks[i+1].s] = &SpecStruct{name: p.toks[i+1].s}
			}
		}
	}
	for _, p := range ps {
		for i, t := range p.toks {
			if t.k == "id" && t.s == "struct" && p.toks[i+2].s == "{" {
				st := specStructs[p.toks[i+1].s]
				q := &parser{file: p.file, toks: p.toks, p: i + 3}
				for !q.accept("}") {
					n := q.ident()
					st.fields = append(st.fields, SpecField{n, parseType(q.typ())})
					q.accept(",")
				}
			}
		}
	}
	for _, p := range ps {
		p.file_()
	}
}
