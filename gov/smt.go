package main

// SMT-LIB generation for one obligation: declarations, axioms, bounded unfolding of
// recursive specification functions, range facts.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// UFun is a specification function. Recursive ones have a definition that is unfolded on
// the ground applications of a query; the others are uninterpreted.
type UFun struct {
	Name   string
	Params []*Term // bvars
	Res    *Sort
	Body   *Term // definition for rec functions
	SMT    bool  // emit the definition as a quantified axiom as well
}

var ufuns = map[string]*UFun{}

// Axiom is a quantified fact about specification or library functions. It is included when
// all functions in `Needs` occur in the query.
type Axiom struct {
	Name   string
	Body   *Term
	Needs  []string
	ground bool
}

var axioms []*Axiom

// usedAx names the axioms that entered a query since it was last reset.
var usedAx = map[string]bool{}

type query struct {
	real bool // floating point numbers are reals
	sorts   map[string]*Sort
	order   []*Sort
	funs    map[string]*Term // representative app
	vars    map[*Term]bool
	strlits map[string]*Term
	boxes   map[string]*Sort
	ops     map[string]bool // op.sort of sequence and map operations
	b       strings.Builder
	names   map[*Term]string
	refc    map[*Term]int
	defs    strings.Builder
}

func collectGround(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		out = append(out, t)
	}
	for _, t := range ts {
		rec(t)
	}
	return out
}

// unfold returns definitional equations for ground applications of recursive functions.
func unfold(ts []*Term, depth int) []*Term {
	var facts []*Term
	done := map[*Term]bool{}
	cur := ts
	for d := 0; d < depth; d++ {
		var next []*Term
		work := cur
		for n := 0; len(work) > 0 && n < 12; n++ {
			var same []*Term
			for _, t := range collectGround(work) {
				if t.Op != "app" || done[t] {
					continue
				}
				if t.bound {
					if commFolds[t.Name] && len(t.Args) > 1 && !t.Args[0].bound {
						done[t] = true
						if f := wholeFold(t); f != nil && !done[f] {
							done[f] = true
							facts = append(facts, f)
						}
					}
					continue
				}
				if fn := unfoldFn[t.Name]; fn != nil {
					if n > 0 {
						continue
					}
					done[t] = true
					for _, f := range fn(t) {
						if f != True {
							facts = append(facts, f)
							next = append(next, f)
						}
					}
					continue
				}
				f := ufuns[t.Name]
				if f == nil || f.Body == nil || strings.HasPrefix(t.Name, "be") && !unfoldBE {
					continue
				}
				if n > 0 && recursive(t.Name) {
					continue
				}
				done[t] = true
				m := map[*Term]*Term{}
				for i, p := range f.Params {
					m[p] = t.Args[i]
				}
				body := Subst(f.Body, m)
				eq := Eq(t, body)
				if eq != True {
					facts = append(facts, eq)
					next = append(next, eq)
					if !recursive(t.Name) {
						same = append(same, eq)
					}
				}
			}
			work = same
		}
		if len(next) == 0 {
			break
		}
		cur = next
	}
	return facts
}

// wholeFold relates a fold over a whole prefix to the fold over the sequence, for all
// other arguments.
func wholeFold(t *Term) *Term {
	x := t.Args[0]
	if x.Op != "sub" || x.Args[1] != Zero {
		return nil
	}
	as, bs := []*Term{x}, []*Term{x.Args[0]}
	var vs []*Term
	for i, a := range t.Args[1:] {
		v := BVar(fmt.Sprintf("wf!%s!%d", t.Name, i), a.Sort)
		vs = append(vs, v)
		as, bs = append(as, v), append(bs, v)
	}
	l := App(t.Name, t.Sort, as...)
	return Forall(vs, [][]*Term{{l}}, Imp(Eq(x.Args[2], SeqLen(x.Args[0])), Eq(l, App(t.Name, t.Sort, bs...))))
}

var recMemo = map[string]bool{}
var recMu sync.Mutex

// recursive reports whether a specification function refers to itself.
func recursive(name string) bool {
	recMu.Lock()
	defer recMu.Unlock()
	if r, ok := recMemo[name]; ok {
		return r
	}
	r := false
	if f := ufuns[name]; f != nil && f.Body != nil {
		memo := map[*Term]bool{}
		seen := map[string]bool{}
		var walk func(t *Term) bool
		walk = func(t *Term) bool {
			if memo[t] {
				return false
			}
			memo[t] = true
			if t.Op == "app" && reaches(t.Name, name, seen) {
				return true
			}
			for _, a := range t.Args {
				if walk(a) {
					return true
				}
			}
			return false
		}
		r = walk(f.Body)
	}
	recMemo[name] = r
	return r
}

func reaches(n, target string, seen map[string]bool) bool {
	if n == target {
		return true
	}
	if seen[n] {
		return false
	}
	seen[n] = true
	f := ufuns[n]
	if f == nil || f.Body == nil {
		return false
	}
	memo := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if memo[t] {
			return false
		}
		memo[t] = true
		if t.Op == "app" && reaches(t.Name, target, seen) {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(f.Body)
}

func (q *query) sort(s *Sort) {
	if s == nil {
		return
	}
	if s.Kind == SInt || s.Kind == SBool {
		return
	}
	if s.Kind == SArr {
		q.sort(s.Key)
		q.sort(s.Elem)
		return
	}
	if _, ok := q.sorts[s.Name]; ok {
		return
	}
	q.sorts[s.Name] = s
	q.sort(s.Elem)
	q.sort(s.Key)
	for _, f := range s.Fields {
		q.sort(f.Sort)
	}
	q.order = append(q.order, s)
}

func (q *query) scan(ts []*Term) {
	for _, t := range collectGround(ts) {
		q.sort(t.Sort)
		switch t.Op {
		case "snoc", "cat", "sub", "supd", "zeros", "emp", "mapput", "mapemp":
			q.ops[t.Op+"."+t.Sort.Name] = true
			if t.Op == "snoc" || t.Op == "cat" {
				q.ops["seqlen."+t.Sort.Name] = true
			}
		case "seqlen", "seqat", "maphas", "mapget", "mapcard":
			q.ops[t.Op+"."+t.Args[0].Sort.Name] = true
		case "var":
			q.vars[t] = true
		case "bvar":
		case "app":
			q.funs[t.Name] = t
		case "strlit":
			q.strlits[t.Name] = t
		case "box":
			q.boxes[t.Name] = boxSort[t.Name]
			q.sort(boxSort[t.Name])
		case "is", "unbox":
			q.boxes[t.Name] = boxSort[t.Name]
			q.sort(boxSort[t.Name])
		}
		for _, v := range t.Vars {
			q.sort(v.Sort)
		}
	}
}

// names of constructors and selectors; cvc5 does not accept quoted ones in testers
func bsym(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "!%x", r)
		}
	}
	return b.String()
}

func sym(s string) string {
	ok := true
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$", r)) {
			ok = false
		}
	}
	if ok {
		return s
	}
	return "|" + s + "|"
}

func sname(s *Sort) string {
	if s.Kind == SArr {
		return "(Array " + sname(s.Key) + " " + sname(s.Elem) + ")"
	}
	return sym(s.Name)
}

func numeral(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (q *query) pr(t *Term) string {
	if n, ok := q.names[t]; ok {
		return n
	}
	s := q.pr0(t)
	if !t.bound && q.refc[t] > 1 && len(t.Args) > 0 && t.Op != "forall" {
		n := fmt.Sprintf("$%d", t.id)
		fmt.Fprintf(&q.defs, "(define-fun %s () %s %s)\n", n, sname(t.Sort), s)
		q.names[t] = n
		return n
	}
	return s
}

func (q *query) prs(op string, as []*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range as {
		b.WriteByte(' ')
		b.WriteString(q.pr(a))
	}
	b.WriteString(")")
	return b.String()
}

func (q *query) pr0(t *Term) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		return numeral(t.N)
	case "var", "bvar":
		return sym(t.Name)
	case "lin":
		var b strings.Builder
		b.WriteString("(+")
		for i, a := range t.Args {
			b.WriteByte(' ')
			if t.Co[i].Cmp(big.NewInt(1)) == 0 {
				b.WriteString(q.pr(a))
			} else {
				b.WriteString("(* " + numeral(t.Co[i]) + " " + q.pr(a) + ")")
			}
		}
		b.WriteString(" " + numeral(t.N) + ")")
		return b.String()
	case "mul":
		return q.prs("*", t.Args)
	case "div", "mod", "not", "and", "or", "ite", "select", "store":
		return q.prs(t.Op, t.Args)
	case "eq":
		return q.prs("=", t.Args)
	case "le":
		return q.prs("<=", t.Args)
	case "mk":
		if len(t.Args) == 0 {
			return sym("mk." + t.Sort.Name)
		}
		return q.prs(sym("mk."+t.Sort.Name), t.Args)
	case "field":
		return q.prs(sym(t.Name), t.Args)
	case "app":
		if q.real {
			if r := q.realOp(t); r != "" {
				return r
			}
		}
		if len(t.Args) == 0 {
			return sym(t.Name)
		}
		return q.prs(sym(t.Name), t.Args)
	case "constarr":
		return "((as const " + sname(t.Sort) + ") " + q.pr(t.Args[0]) + ")"
	case "anynil":
		return "anynil"
	case "box":
		return q.prs(bsym("box."+t.Name), t.Args)
	case "is":
		return "((_ is " + bsym("box."+t.Name) + ") " + q.pr(t.Args[0]) + ")"
	case "unbox":
		return q.prs(bsym("unbox."+t.Name), t.Args)
	case "optnil":
		return sym("nil." + t.Sort.Name)
	case "optsome":
		return q.prs(sym("some."+t.Sort.Name), t.Args)
	case "optval":
		return q.prs(sym("val."+t.Args[0].Sort.Name), t.Args)
	case "emp":
		return sym("emp." + t.Sort.Name)
	case "snoc", "cat", "seqlen", "seqat", "sub", "supd":
		return q.prs(sym(t.Op+"."+t.Args[0].Sort.Name), t.Args)
	case "zeros":
		return q.prs(sym("zeros."+t.Sort.Name), t.Args)
	case "mapemp":
		return sym("mapemp." + t.Sort.Name)
	case "maphas", "mapget", "mapput", "mapcard":
		return q.prs(sym(t.Op+"."+t.Args[0].Sort.Name), t.Args)
	case "strlit":
		return sym("lit:" + litName(t.Name))
	case "forall":
		var b strings.Builder
		b.WriteString("(forall (")
		for _, v := range t.Vars {
			fmt.Fprintf(&b, "(%s %s) ", sym(v.Name), sname(v.Sort))
		}
		b.WriteString(") ")
		if len(t.Trig) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(q.pr(t.Args[0]))
		for _, ts := range t.Trig {
			b.WriteString(" :pattern (")
			for i, x := range ts {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(q.pr(x))
			}
			b.WriteString(")")
		}
		if len(t.Trig) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return b.String()
	}
	panic("pr " + t.Op)
}

var litIDs = map[string]int{}

func litName(s string) string {
	if len(s) < 40 && sanit(s) == s {
		return s
	}
	if _, ok := litIDs[s]; !ok {
		litIDs[s] = len(litIDs)
	}
	return fmt.Sprintf("#%d", litIDs[s])
}

var unfoldBE bool

// SMT renders "hyps |- goal" as a script that is unsat iff the obligation holds.
// solveEqs eliminates integer variables that an equation among the hypotheses determines.
func solveEqs(as []*Term) []*Term {
	for n := 0; n < 20; n++ {
		done := true
	scan:
		for i, h := range as {
			if h.Op != "eq" || h.Args[0].Sort.Kind != SInt {
				continue
			}
			ps, k := linParts(Sub(h.Args[0], h.Args[1]))
			var best *Term
			for v, c := range ps {
				if v.Op != "var" || c.CmpAbs(One.N) != 0 {
					continue
				}
				occ := false
				for u := range ps {
					occ = occ || u != v && occurs(u, v, map[*Term]bool{})
				}
				if !occ && (best == nil || v.id > best.id) {
					best = v
				}
			}
			if best == nil {
				continue
			}
			rhs := BigInt(k)
			for u, c := range ps {
				if u != best {
					rhs = Add(rhs, Mul(BigInt(c), u))
				}
			}
			if ps[best].Sign() > 0 {
				rhs = Neg(rhs)
			}
			m := map[*Term]*Term{best: rhs}
			var out []*Term
			for j, x := range as {
				if j != i {
					if y := Subst(x, m); y != True {
						out = append(out, y)
					}
				}
			}
			if best.declLo != nil {
				out = append(out, Le(BigInt(best.declLo), rhs))
			}
			if best.declHi != nil {
				out = append(out, Le(rhs, BigInt(best.declHi)))
			}
			as = out
			done = false
			break scan
		}
		if done {
			break
		}
	}
	return as
}

// skolem replaces the universally quantified variables of a goal by constants.
func skolem(g *Term) *Term {
	n := 0
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		switch t.Op {
		case "forall":
			m := map[*Term]*Term{}
			for _, v := range t.Vars {
				n++
				m[v] = mk(&Term{Op: "var", Name: fmt.Sprintf("sk!%d!%s", n, v.Name), Sort: v.Sort, declLo: v.declLo, declHi: v.declHi})
			}
			return rec(Subst(t.Args[0], m))
		case "and", "or":
			as := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				as[i] = rec(a)
			}
			if t.Op == "and" {
				return And(as...)
			}
			return Or(as...)
		}
		return t
	}
	return rec(g)
}

func SMT(hyps []*Term, goal *Term, wantModel bool, depth int) string {
	q := &query{sorts: map[string]*Sort{}, funs: map[string]*Term{}, vars: map[*Term]bool{}, strlits: map[string]*Term{},
		boxes: map[string]*Sort{}, names: map[*Term]string{}, refc: map[*Term]int{}, ops: map[string]bool{}}
	as := append([]*Term{}, hyps...)
	as = append(as, Not(skolem(goal)))
	as = solveEqs(as)
	as = append(as, groundInst(as)...)
	as = append(as, unfold(as, depth)...)
	// axioms by need, to fixpoint
	used := map[*Axiom]bool{}
	for {
		q.scan(as)
		n := len(used)
		for _, ax := range axioms {
			if used[ax] {
				continue
			}
			ok := true
			for _, f := range ax.Needs {
				if q.funs[f] == nil {
					ok = false
				}
			}
			if ok {
				used[ax] = true
				usedAx[ax.Name] = true
				as = append(as, ax.Body)
			}
		}
		if len(used) == n {
			break
		}
	}
	// instances for string literals
	var lits []string
	for l := range q.strlits {
		lits = append(lits, l)
	}
	sort.Strings(lits)
	for _, f := range litFacts {
		as = append(as, f(q, lits)...)
	}
	q.scan(as)
	// range facts
	ground := collectGround(as)
	var ranges []*Term
	for _, t := range ground {
		if t.bound || t.Sort.Kind != SInt {
			continue
		}
		switch t.Op {
		case "var", "field", "seqat", "select", "mapget", "unbox", "optval", "app":
			if t.declLo != nil {
				ranges = append(ranges, mk(&Term{Op: "le", Sort: BoolS, Args: []*Term{BigInt(t.declLo), t}}))
			}
			if t.declHi != nil {
				ranges = append(ranges, mk(&Term{Op: "le", Sort: BoolS, Args: []*Term{t, BigInt(t.declHi)}}))
			}
			if t.Op == "app" && t.Name == "strlen" && t.declHi == nil {
				ranges = append(ranges, mk(&Term{Op: "le", Sort: BoolS, Args: []*Term{Zero, t}}), mk(&Term{Op: "le", Sort: BoolS, Args: []*Term{t, BigInt(maxLen)}}))
			}
		case "seqlen":
			ranges = append(ranges, mk(&Term{Op: "le", Sort: BoolS, Args: []*Term{t, BigInt(maxLen)}}))
		}
	}
	as = append(as, ranges...)
	for _, t := range ground {
		for _, a := range t.Args {
			q.refc[a]++
		}
	}
	for _, t := range as {
		q.refc[t]++
	}
	for f := range q.funs {
		q.real = q.real || realOps[f] != "" || f == "fneg" || strings.HasPrefix(f, "f2i:")
	}
	var hd strings.Builder
	if wantModel {
		hd.WriteString("(set-option :produce-models true)\n")
	}
	hd.WriteString("(set-logic ALL)\n")
	// opaque sorts and sequences and maps
	var dts []*Sort
	anyUsed := false
	for _, s := range q.order {
		switch s.Kind {
		case SOpaque, SSeq, SMapV:
			if s == FloatS && q.real {
				fmt.Fprintf(&hd, "(define-sort %s () Real)\n", sym(s.Name))
				continue
			}
			fmt.Fprintf(&hd, "(declare-sort %s 0)\n", sym(s.Name))
		case SStruct, SOpt:
			dts = append(dts, s)
		case SAny:
			anyUsed = true
		}
	}
	if len(dts) > 0 || anyUsed {
		var ns, cs strings.Builder
		for _, s := range dts {
			fmt.Fprintf(&ns, "(%s 0) ", sym(s.Name))
			if s.Kind == SOpt {
				fmt.Fprintf(&cs, "((%s) (%s (%s %s)))\n", sym("nil."+s.Name), sym("some."+s.Name), sym("val."+s.Name), sname(s.Elem))
				continue
			}
			fmt.Fprintf(&cs, "((%s", sym("mk."+s.Name))
			for _, f := range s.Fields {
				fmt.Fprintf(&cs, " (%s %s)", sym(s.Name+"."+f.Name), sname(f.Sort))
			}
			cs.WriteString("))\n")
		}
		if anyUsed {
			ns.WriteString("(Any 0)")
			cs.WriteString("((anynil) (anyother (anyotherid Int))")
			var bs []string
			for b := range q.boxes {
				bs = append(bs, b)
			}
			sort.Strings(bs)
			for _, b := range bs {
				fmt.Fprintf(&cs, " (%s (%s %s))", bsym("box."+b), bsym("unbox."+b), sname(q.boxes[b]))
			}
			cs.WriteString(")\n")
		}
		fmt.Fprintf(&hd, "(declare-datatypes (%s) (\n%s))\n", ns.String(), cs.String())
	}
	for _, s := range q.order {
		switch s.Kind {
		case SSeq:
			q.seqDecls(&hd, s)
		case SMapV:
			q.mapDecls(&hd, s)
		}
	}
	for _, l := range lits {
		fmt.Fprintf(&hd, "(declare-const %s Str) ; %q\n", sym("lit:"+litName(l)), l)
	}
	if len(lits) > 1 {
		hd.WriteString("(assert (distinct")
		for _, l := range lits {
			hd.WriteString(" " + sym("lit:"+litName(l)))
		}
		hd.WriteString("))\n")
	}
	var vs []*Term
	for v := range q.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		fmt.Fprintf(&hd, "(declare-const %s %s)\n", sym(v.Name), sname(v.Sort))
	}
	var fs []string
	for f := range q.funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		t := q.funs[f]
		if q.real && (realOps[f] != "" || strings.HasPrefix(f, "flt:") || f == "fneg") {
			continue
		}
		fmt.Fprintf(&hd, "(declare-fun %s (", sym(f))
		for _, a := range t.Args {
			hd.WriteString(sname(a.Sort) + " ")
		}
		fmt.Fprintf(&hd, ") %s)\n", sname(t.Sort))
	}
	var body strings.Builder
	for _, a := range as {
		p := q.pr(a)
		if q.defs.Len() > 0 {
			body.WriteString(q.defs.String())
			q.defs.Reset()
		}
		fmt.Fprintf(&body, "(assert %s)\n", p)
	}
	return hd.String() + body.String() + "(check-sat)\n"
}

var litFacts []func(q *query, lits []string) []*Term

func (q *query) seqDecls(b *strings.Builder, s *Sort) {
	n := func(op string) string { return sym(op + "." + s.Name) }
	S, E := sym(s.Name), sname(s.Elem)
	fmt.Fprintf(b, "(declare-const %s %s)\n(declare-fun %s (%s) Int)\n(declare-fun %s (%s Int) %s)\n", n("emp"), S, n("seqlen"), S, n("seqat"), S, E)
	fmt.Fprintf(b, "(declare-fun %s (%s %s) %s)\n(declare-fun %s (%s %s) %s)\n(declare-fun %s (%s Int Int) %s)\n(declare-fun %s (%s Int %s) %s)\n(declare-fun %s (Int %s) %s)\n",
		n("snoc"), S, E, S, n("cat"), S, S, S, n("sub"), S, S, n("supd"), S, E, S, n("zeros"), E, S)
	r := strings.NewReplacer("LEN", n("seqlen"), "AT", n("seqat"), "SNOC", n("snoc"), "CAT", n("cat"), "SUB", n("sub"), "SUPD", n("supd"), "EMP", n("emp"), "ZEROS", n("zeros"), "SEQ", S, "ELEM", E)
	// elements of ranged sequences are within their range, so the axioms for constructors
	// speak about arguments within it only
	rg := "true"
	if s.Elem.Lo != nil {
		rg = "(and (<= " + numeral(s.Elem.Lo) + " x) (<= x " + numeral(s.Elem.Hi) + "))"
	}
	b.WriteString(q.keep(s, strings.ReplaceAll(r.Replace(`emp seqlen|(assert (= (LEN EMP) 0))
seqlen|(assert (forall ((s SEQ)) (! (>= (LEN s) 0) :pattern ((LEN s)))))
seqlen|(assert (forall ((s SEQ)) (! (=> (= (LEN s) 0) (= s EMP)) :pattern ((LEN s)))))
snoc seqlen|(assert (forall ((s SEQ) (x ELEM)) (! (= (LEN (SNOC s x)) (+ (LEN s) 1)) :pattern ((SNOC s x)))))
snoc|(assert (forall ((s SEQ) (x ELEM)) (! (=> RG (= (AT (SNOC s x) (LEN s)) x)) :pattern ((SNOC s x)))))
snoc seqat|(assert (forall ((s SEQ) (x ELEM) (i Int)) (! (=> (not (= i (LEN s))) (= (AT (SNOC s x) i) (AT s i))) :pattern ((AT (SNOC s x) i)))))
cat seqlen|(assert (forall ((s SEQ) (t SEQ)) (! (= (LEN (CAT s t)) (+ (LEN s) (LEN t))) :pattern ((CAT s t)))))
cat seqat|(assert (forall ((s SEQ) (t SEQ) (i Int)) (! (= (AT (CAT s t) i) (ite (< i (LEN s)) (AT s i) (AT t (- i (LEN s))))) :pattern ((AT (CAT s t) i)))))
sub seqlen|(assert (forall ((s SEQ) (a Int) (b Int)) (! (=> (<= a b) (= (LEN (SUB s a b)) (- b a))) :pattern ((SUB s a b)))))
sub seqat|(assert (forall ((s SEQ) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 i) (< i (- b a))) (= (AT (SUB s a b) i) (AT s (+ a i)))) :pattern ((AT (SUB s a b) i)))))
supd seqlen|(assert (forall ((s SEQ) (k Int) (x ELEM)) (! (= (LEN (SUPD s k x)) (LEN s)) :pattern ((SUPD s k x)))))
supd seqat|(assert (forall ((s SEQ) (k Int) (x ELEM) (i Int)) (! (=> (and RG (<= 0 k) (< k (LEN s))) (= (AT (SUPD s k x) i) (ite (= i k) x (AT s i)))) :pattern ((AT (SUPD s k x) i)))))
zeros seqlen|(assert (forall ((k Int) (x ELEM)) (! (=> (>= k 0) (= (LEN (ZEROS k x)) k)) :pattern ((ZEROS k x)))))
zeros seqat|(assert (forall ((k Int) (x ELEM) (i Int)) (! (=> (and RG (<= 0 i) (< i k)) (= (AT (ZEROS k x) i) x)) :pattern ((AT (ZEROS k x) i)))))
`), "RG", rg)))
	if s.Elem.Lo != nil {
		fmt.Fprintf(b, "(assert (forall ((s %s) (i Int)) (! (and (<= %s (%s s i)) (<= (%s s i) %s)) :pattern ((%s s i)))))\n", S, numeral(s.Elem.Lo), n("seqat"), n("seqat"), numeral(s.Elem.Hi), n("seqat"))
	}
}

// keep leaves out the axioms about constructors and observers which the query does not
// mention: each line is "op op...|axiom".
func (q *query) keep(s *Sort, text string) string {
	var b strings.Builder
lines:
	for _, l := range strings.Split(text, "\n") {
		ops, ax, ok := strings.Cut(l, "|")
		if !ok {
			continue
		}
		for _, o := range strings.Fields(ops) {
			if !q.ops[o+"."+s.Name] {
				continue lines
			}
		}
		b.WriteString(ax + "\n")
	}
	return b.String()
}

func (q *query) mapDecls(b *strings.Builder, s *Sort) {
	n := func(op string) string { return sym(op + "." + s.Name) }
	r := strings.NewReplacer("MEMP", n("mapemp"), "HAS", n("maphas"), "GET", n("mapget"), "PUT", n("mapput"), "CARD", n("mapcard"), "MAP", sym(s.Name), "KEY", sname(s.Key), "VAL", sname(s.Elem))
	b.WriteString(r.Replace(`(declare-const MEMP MAP)
(declare-fun HAS (MAP KEY) Bool)
(declare-fun GET (MAP KEY) VAL)
(declare-fun PUT (MAP KEY VAL) MAP)
(declare-fun CARD (MAP) Int)
`))
	b.WriteString(q.keep(s, r.Replace(`mapemp maphas|(assert (forall ((k KEY)) (! (not (HAS MEMP k)) :pattern ((HAS MEMP k)))))
mapemp mapcard|(assert (= (CARD MEMP) 0))
mapcard|(assert (forall ((m MAP)) (! (>= (CARD m) 0) :pattern ((CARD m)))))
mapput maphas|(assert (forall ((m MAP) (k KEY) (v VAL) (j KEY)) (! (= (HAS (PUT m k v) j) (or (= j k) (HAS m j))) :pattern ((HAS (PUT m k v) j)))))
mapput mapget|(assert (forall ((m MAP) (k KEY) (v VAL) (j KEY)) (! (= (GET (PUT m k v) j) (ite (= j k) v (GET m j))) :pattern ((GET (PUT m k v) j)))))
mapput mapcard|(assert (forall ((m MAP) (k KEY) (v VAL)) (! (= (CARD (PUT m k v)) (+ (CARD m) (ite (HAS m k) 0 1))) :pattern ((PUT m k v)))))
`)))
}

// groundInst returns the instances of lemmas marked for it that the terms of a query call for,
// so that the definitions of what they mention are unfolded too.
func groundInst(as []*Term) []*Term {
	var out []*Term
	var ground []*Term
	for _, ax := range axioms {
		if !ax.ground || ax.Body.Op != "forall" {
			continue
		}
		if ground == nil {
			for _, t := range collectGround(as) {
				if !t.bound && (t.Op == "app" || t.Op == "seqat") {
					ground = append(ground, t)
				}
			}
		}
		isVar := map[*Term]bool{}
		for _, v := range ax.Body.Vars {
			isVar[v] = true
		}
		done := map[*Term]bool{}
		for _, pats := range ax.Body.Trig {
			var rec func(i int, m map[*Term]*Term)
			rec = func(i int, m map[*Term]*Term) {
				if len(done) > 100 {
					return
				}
				if i == len(pats) {
					if len(m) != len(isVar) {
						return
					}
					if f := Subst(ax.Body.Args[0], m); f != True && !done[f] {
						done[f] = true
						usedAx[ax.Name] = true
						out = append(out, f)
					}
					return
				}
				for _, t := range ground {
					n := cpm(m)
					if matchTerm(pats[i], t, isVar, n) {
						rec(i+1, n)
					}
				}
			}
			rec(0, map[*Term]*Term{})
		}
	}
	return out
}

func matchTerm(p, t *Term, isVar map[*Term]bool, m map[*Term]*Term) bool {
	if p == t {
		return true
	}
	if isVar[p] {
		if b, ok := m[p]; ok {
			return b == t
		}
		if p.Sort != t.Sort {
			return false
		}
		m[p] = t
		return true
	}
	if p.Op != t.Op || p.Name != t.Name || p.Sort != t.Sort || len(p.Args) != len(t.Args) || len(p.Args) == 0 {
		return false
	}
	for i := range p.Args {
		if !matchTerm(p.Args[i], t.Args[i], isVar, m) {
			return false
		}
	}
	return true
}

// Floating point arithmetic is taken as arithmetic on real numbers in the queries which use it.
var realOps = map[string]string{"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/", "flt": "<", "fle": "<=", "fgt": ">", "fge": ">=", "i2f": "to_real"}

func (q *query) realOp(t *Term) string {
	switch {
	case realOps[t.Name] != "":
		return q.prs(realOps[t.Name], t.Args)
	case t.Name == "fneg":
		return q.prs("-", t.Args)
	case strings.HasPrefix(t.Name, "flt:"):
		r, ok := new(big.Rat).SetString(t.Name[4:])
		if !ok {
			return ""
		}
		s := "(/ " + new(big.Int).Abs(r.Num()).String() + ".0 " + r.Denom().String() + ".0)"
		if r.Sign() < 0 {
			s = "(- " + s + ")"
		}
		return s
	case strings.HasPrefix(t.Name, "f2i:"):
		// towards zero; not specified out of range
		x := q.pr(t.Args[0])
		lo, hi := t.declLo, t.declHi
		if lo == nil || hi == nil {
			return ""
		}
		tr := "(ite (<= 0.0 " + x + ") (to_int " + x + ") (- (to_int (- " + x + "))))"
		return "(ite (and (<= " + numeral(lo) + " " + tr + ") (<= " + tr + " " + numeral(hi) + ")) " + tr + " (" + sym(t.Name) + " " + x + "))"
	}
	return ""
}
