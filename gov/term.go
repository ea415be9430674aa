package main

// Hash-consed terms with a strong simplifier, interval analysis and SMT-LIB printing.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type SortKind int

const (
	SInt SortKind = iota
	SBool
	SOpaque // uninterpreted sort (Str, Float, ...)
	SSeq
	SStruct // datatype with one constructor
	SAny    // boxed interface values
	SMapV   // map value: dom, val, card
	SOpt    // immutable optional pointer: nil | some(T)
	SArr    // SMT array, used for heaps and ghost state
)

type Sort struct {
	Kind   SortKind
	Name   string // SMT name
	Elem   *Sort  // Seq, Opt, Arr value, MapV value
	Key    *Sort  // MapV key, Arr key
	Fields []Fld  // Struct
	Tag    string // distinguishes ranged integer sorts in names of compound sorts
	Lo, Hi *big.Int
}

func (s *Sort) tag() string {
	if s.Tag != "" {
		return s.Tag
	}
	n := s.Name
	for _, c := range []string{"(", ")", " "} {
		n = strings.ReplaceAll(n, c, "_")
	}
	return n
}

// base normalises ranged integer sorts to Int.
func base(s *Sort) *Sort {
	if s.Kind == SInt {
		return IntS
	}
	return s
}

var rangedInts = map[string]*Sort{}

// RInt is the sort of a machine integer type.
func RInt(bits uint, signed bool) *Sort {
	tag := fmt.Sprintf("u%d", bits)
	lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1))
	if signed {
		tag = fmt.Sprintf("i%d", bits)
		lo, hi = new(big.Int).Neg(pow2(bits-1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	}
	if s, ok := rangedInts[tag]; ok {
		return s
	}
	s := &Sort{Kind: SInt, Name: "Int", Tag: tag, Lo: lo, Hi: hi}
	rangedInts[tag] = s
	return s
}

// sel builds an opaque selector-like term whose declared sort may carry a range.
func sel(t *Term, declared *Sort) *Term {
	t.Sort = base(declared)
	t = mk(t)
	if declared.Lo != nil && t.declLo == nil {
		t.declLo, t.declHi = declared.Lo, declared.Hi
		t.rdone = false
	}
	return t
}

type Fld struct {
	Name string
	Sort *Sort
}

var (
	IntS   = &Sort{Kind: SInt, Name: "Int"}
	BoolS  = &Sort{Kind: SBool, Name: "Bool"}
	StrS   = &Sort{Kind: SOpaque, Name: "Str"}
	FloatS = &Sort{Kind: SOpaque, Name: "Flt"}
	AnyS   = &Sort{Kind: SAny, Name: "Any"}
	seqs   = map[*Sort]*Sort{}
	opts   = map[*Sort]*Sort{}
	arrs   = map[[2]*Sort]*Sort{}
	maps   = map[[2]*Sort]*Sort{}
)

func SeqOf(e *Sort) *Sort {
	if s, ok := seqs[e]; ok {
		return s
	}
	s := &Sort{Kind: SSeq, Name: "Seq_" + e.tag(), Elem: e}
	seqs[e] = s
	return s
}
func ArrOf(k, v *Sort) *Sort {
	if s, ok := arrs[[2]*Sort{k, v}]; ok {
		return s
	}
	s := &Sort{Kind: SArr, Name: "(Array " + k.Name + " " + v.Name + ")", Key: k, Elem: v}
	arrs[[2]*Sort{k, v}] = s
	return s
}
func MapOf(k, v *Sort) *Sort {
	if s, ok := maps[[2]*Sort{k, v}]; ok {
		return s
	}
	s := &Sort{Kind: SMapV, Name: "Map_" + k.tag() + "_" + v.tag(), Key: k, Elem: v}
	maps[[2]*Sort{k, v}] = s
	return s
}

type Term struct {
	Op     string
	Args   []*Term
	Sort   *Sort
	N      *big.Int   // int literal; constant part of lin
	Co     []*big.Int // lin coefficients
	Name   string     // var / function / field / literal name
	Vars   []*Term    // quantifier bound variables
	Trig   [][]*Term
	id     int
	bound  bool // contains bound variables
	lo, hi *big.Int
	declLo *big.Int
	declHi *big.Int
	rdone  bool
	idx    int // struct field index
}

var table = map[string]*Term{}
var termCount int

func mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	if t.Sort != nil {
		b.WriteString(t.Sort.Name)
	}
	if t.N != nil {
		b.WriteByte('#')
		b.WriteString(t.N.String())
	}
	for i, a := range t.Args {
		b.WriteByte(',')
		if t.Co != nil {
			b.WriteString(t.Co[i].String())
			b.WriteByte('*')
		}
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.Vars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	if t.Op == "field" || t.Op == "is" {
		fmt.Fprintf(&b, "@%d", t.idx)
	}
	k := b.String()
	if x, ok := table[k]; ok {
		return x
	}
	termCount++
	t.id = termCount
	t.bound = t.Op == "bvar"
	for _, a := range t.Args {
		t.bound = t.bound || a.bound
	}
	if t.Op == "forall" || t.Op == "exists" {
		// closed if all free bound vars are ours
		t.bound = hasFreeBound(t)
	}
	table[k] = t
	return t
}

func hasFreeBound(q *Term) bool {
	own := map[*Term]bool{}
	for _, v := range q.Vars {
		own[v] = true
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "bvar" {
			return !own[t]
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(q.Args[0])
}

var (
	True  *Term
	False *Term
	Zero  *Term
	One   *Term
	Nil   *Term // any nil
)

func init() {
	True = mk(&Term{Op: "true", Sort: BoolS})
	False = mk(&Term{Op: "false", Sort: BoolS})
	Zero = Int(0)
	One = Int(1)
	Nil = mk(&Term{Op: "anynil", Sort: AnyS})
}

func Int(n int64) *Term       { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term { return mk(&Term{Op: "int", Sort: IntS, N: n}) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Var(name string, s *Sort) *Term { return sel(&Term{Op: "var", Name: name}, s) }
func BVar(name string, s *Sort) *Term {
	return sel(&Term{Op: "bvar", Name: name}, s)
}

var freshN = map[string]int{}

func sanit(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}
func Fresh(hint string, s *Sort) *Term {
	hint = sanit(hint)
	freshN[hint]++
	return Var(fmt.Sprintf("%s!%d", hint, freshN[hint]), s)
}

// ---- ranges -------------------------------------------------------------

func SetRange(t *Term, lo, hi *big.Int) *Term {
	t.declLo, t.declHi = lo, hi
	t.rdone = false
	return t
}

func Rng(t *Term) (lo, hi *big.Int) {
	if t.Sort.Kind != SInt {
		return nil, nil
	}
	if t.rdone {
		return t.lo, t.hi
	}
	t.rdone = true
	switch t.Op {
	case "int":
		t.lo, t.hi = t.N, t.N
	case "var", "bvar", "field", "seqat", "select", "mapget", "unbox", "optval":
		t.lo, t.hi = t.declLo, t.declHi
	case "app":
		t.lo, t.hi = t.declLo, t.declHi
	case "seqlen", "mapcard":
		t.lo = big.NewInt(0)
		t.hi = maxLen
	case "lin":
		lo, hi := new(big.Int).Set(t.N), new(big.Int).Set(t.N)
		lok, hok := true, true
		for i, a := range t.Args {
			al, ah := Rng(a)
			if t.Co[i].Sign() < 0 {
				al, ah = ah, al
			}
			if al == nil {
				lok = false
			} else {
				lo.Add(lo, new(big.Int).Mul(t.Co[i], al))
			}
			if ah == nil {
				hok = false
			} else {
				hi.Add(hi, new(big.Int).Mul(t.Co[i], ah))
			}
		}
		if lok {
			t.lo = lo
		}
		if hok {
			t.hi = hi
		}
	case "mul":
		al, ah := Rng(t.Args[0])
		bl, bh := Rng(t.Args[1])
		if al != nil && ah != nil && bl != nil && bh != nil {
			ps := []*big.Int{new(big.Int).Mul(al, bl), new(big.Int).Mul(al, bh), new(big.Int).Mul(ah, bl), new(big.Int).Mul(ah, bh)}
			t.lo, t.hi = ps[0], ps[0]
			for _, p := range ps {
				if p.Cmp(t.lo) < 0 {
					t.lo = p
				}
				if p.Cmp(t.hi) > 0 {
					t.hi = p
				}
			}
		}
	case "mod":
		if t.Args[1].Op == "int" && t.Args[1].N.Sign() > 0 {
			t.lo = big.NewInt(0)
			t.hi = new(big.Int).Sub(t.Args[1].N, big.NewInt(1))
		}
	case "div":
		if t.Args[1].Op == "int" && t.Args[1].N.Sign() > 0 {
			al, ah := Rng(t.Args[0])
			if al != nil {
				t.lo = fdiv(al, t.Args[1].N)
			}
			if ah != nil {
				t.hi = fdiv(ah, t.Args[1].N)
			}
		}
	case "ite":
		al, ah := Rng(t.Args[1])
		bl, bh := Rng(t.Args[2])
		if al != nil && bl != nil {
			t.lo = al
			if bl.Cmp(al) < 0 {
				t.lo = bl
			}
		}
		if ah != nil && bh != nil {
			t.hi = ah
			if bh.Cmp(ah) > 0 {
				t.hi = bh
			}
		}
	}
	return t.lo, t.hi
}

func fdiv(a, b *big.Int) *big.Int { // floor division, b>0
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// slices and strings are bounded by the address space; assumed, see DESIGN.md
var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)
var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

// ---- arithmetic ----------------------------------------------------------

func linParts(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	switch t.Op {
	case "int":
		return m, t.N
	case "lin":
		for i, a := range t.Args {
			m[a] = t.Co[i]
		}
		return m, t.N
	}
	m[t] = big.NewInt(1)
	return m, big.NewInt(0)
}

func mkLin(m map[*Term]*big.Int, k *big.Int) *Term {
	var ks []*Term
	for a, c := range m {
		if c.Sign() != 0 {
			ks = append(ks, a)
		}
	}
	if len(ks) == 0 {
		return BigInt(k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if len(ks) == 1 && k.Sign() == 0 && m[ks[0]].Cmp(big.NewInt(1)) == 0 {
		return ks[0]
	}
	co := make([]*big.Int, len(ks))
	for i, a := range ks {
		co[i] = m[a]
	}
	return mk(&Term{Op: "lin", Sort: IntS, Args: ks, Co: co, N: k})
}

func addScaled(a *Term, c *big.Int, b *Term) *Term {
	m1, k1 := linParts(a)
	m2, k2 := linParts(b)
	m := map[*Term]*big.Int{}
	for t, x := range m1 {
		m[t] = x
	}
	for t, x := range m2 {
		v := new(big.Int).Mul(c, x)
		if o, ok := m[t]; ok {
			v.Add(v, o)
		}
		m[t] = v
	}
	return mkLin(m, new(big.Int).Add(k1, new(big.Int).Mul(c, k2)))
}

func Add(a, b *Term) *Term { return addScaled(a, big.NewInt(1), b) }
func Sub(a, b *Term) *Term { return addScaled(a, big.NewInt(-1), b) }
func Neg(a *Term) *Term    { return addScaled(Zero, big.NewInt(-1), a) }
func Mul(a, b *Term) *Term {
	if a.Op == "int" {
		return addScaled(Zero, a.N, b)
	}
	if b.Op == "int" {
		return addScaled(Zero, b.N, a)
	}
	// distribute over ite of constants to stay linear
	if a.Op == "ite" && a.Args[1].Op == "int" && a.Args[2].Op == "int" {
		return Ite(a.Args[0], Mul(a.Args[1], b), Mul(a.Args[2], b))
	}
	if b.Op == "ite" && b.Args[1].Op == "int" && b.Args[2].Op == "int" {
		return Ite(b.Args[0], Mul(a, b.Args[1]), Mul(a, b.Args[2]))
	}
	// pull constant factors / distribute sums
	if a.Op == "lin" {
		r := Mul(BigInt(a.N), b)
		for i, x := range a.Args {
			r = addScaled(r, a.Co[i], Mul(x, b))
		}
		return r
	}
	if b.Op == "lin" {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: "mul", Sort: IntS, Args: []*Term{a, b}})
}

// Div and Mod are SMT-LIB (floor for positive divisor) division.
func Div(a, b *Term) *Term {
	if b.Op == "int" && b.N.Sign() > 0 {
		if a.Op == "int" {
			return BigInt(fdiv(a.N, b.N))
		}
		if b.N.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		// a = b*x + r with r in range
		if a.Op == "lin" {
			q, r := splitMultiple(a, b.N)
			lo, hi := Rng(r)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.N) < 0 {
				return q
			}
		}
		lo, hi := Rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.N) < 0 {
			return Zero
		}
		if a.Op == "div" && a.Args[1].Op == "int" && a.Args[1].N.Sign() > 0 {
			return Div(a.Args[0], BigInt(new(big.Int).Mul(a.Args[1].N, b.N)))
		}
	}
	return mk(&Term{Op: "div", Sort: IntS, Args: []*Term{a, b}})
}

func splitMultiple(a *Term, n *big.Int) (q, r *Term) {
	q, r = Zero, Zero
	m, k := linParts(a)
	var ks []*Term
	for t := range m {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, t := range ks {
		c := m[t]
		d, mo := new(big.Int).DivMod(c, n, new(big.Int))
		if mo.Sign() == 0 {
			q = addScaled(q, d, t)
		} else {
			r = addScaled(r, c, t)
		}
	}
	d, mo := new(big.Int).DivMod(k, n, new(big.Int))
	q = Add(q, BigInt(d))
	r = Add(r, BigInt(mo))
	return
}

func Mod(a, b *Term) *Term {
	if b.Op == "int" && b.N.Sign() > 0 {
		if a.Op == "int" {
			return BigInt(new(big.Int).Mod(a.N, b.N))
		}
		lo, hi := Rng(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.N) < 0 {
			return a
		}
		if a.Op == "lin" {
			_, r := splitMultiple(a, b.N)
			if r != a {
				return Mod(r, b)
			}
		}
		if a.Op == "mod" && a.Args[1].Op == "int" && new(big.Int).Mod(a.Args[1].N, b.N).Sign() == 0 {
			return Mod(a.Args[0], b)
		}
		if a.Op == "lin" {
			// strip inner mods: (x mod cN + y) mod N
			r := BigInt(a.N)
			ch := false
			for i, t := range a.Args {
				u := t
				if t.Op == "mod" && t.Args[1].Op == "int" && new(big.Int).Mod(t.Args[1].N, b.N).Sign() == 0 {
					u = t.Args[0]
					ch = true
				}
				r = addScaled(r, a.Co[i], u)
			}
			if ch {
				return Mod(r, b)
			}
		}
	}
	return mk(&Term{Op: "mod", Sort: IntS, Args: []*Term{a, b}})
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// Wrap reduces a mathematical integer to the given machine type.
func Wrap(t *Term, bits uint, signed bool) *Term {
	lo, hi := Rng(t)
	if signed {
		mn := new(big.Int).Neg(pow2(bits - 1))
		mx := new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
		if lo != nil && hi != nil && lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 {
			return t
		}
		h := BigInt(pow2(bits - 1))
		return Sub(Mod(Add(t, h), BigInt(pow2(bits))), h)
	}
	mx := new(big.Int).Sub(pow2(bits), big.NewInt(1))
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(mx) <= 0 {
		return t
	}
	return Mod(t, BigInt(pow2(bits)))
}

// ---- booleans -------------------------------------------------------------

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "le":
		return Lt(a.Args[1], a.Args[0])
	case "lt":
		return Le(a.Args[1], a.Args[0])
	}
	return mk(&Term{Op: "not", Sort: BoolS, Args: []*Term{a}})
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a == False || seen[Not(a)] {
			return false
		}
		if a != True && !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "and", Sort: BoolS, Args: out})
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "or" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a == True || seen[Not(a)] {
			return false
		}
		if a != False && !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "or", Sort: BoolS, Args: out})
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == BoolS {
		return And(Or(Not(c), a), Or(c, b))
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	return mk(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
}

func isConstr(t *Term) bool {
	switch t.Op {
	case "mk", "box", "anynil", "optnil", "optsome", "strlit", "int", "true", "false":
		return true
	}
	return false
}

// distinctConst reports that two terms are certainly different values.
func distinctConst(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == "int" && b.Op == "int" || a.Op == "strlit" && b.Op == "strlit" {
		return true
	}
	if isConstr(a) && isConstr(b) && a.Sort == b.Sort {
		if a.Op != b.Op {
			return true
		}
		if a.Op == "box" && a.Name != b.Name {
			return true
		}
		for i := range a.Args {
			if distinctConst(a.Args[i], b.Args[i]) {
				return true
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sort mismatch %s vs %s: %s = %s", a.Sort.Name, b.Sort.Name, a, b))
	}
	if distinctConst(a, b) {
		return False
	}
	if a.Sort == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Sort.Kind == SInt {
		d := Sub(a, b)
		if d.Op == "int" {
			return Bool(d.N.Sign() == 0)
		}
		lo, hi := Rng(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return False
		}
		// canonical form: positive part = negative part
		if d.Op == "lin" {
			l, r := Zero, Zero
			neg := d.Co[0].Sign() < 0
			for i, t := range d.Args {
				c := d.Co[i]
				if neg {
					c = new(big.Int).Neg(c)
				}
				if c.Sign() > 0 {
					l = addScaled(l, c, t)
				} else {
					r = addScaled(r, new(big.Int).Neg(c), t)
				}
			}
			k := d.N
			if neg {
				k = new(big.Int).Neg(k)
			}
			r = Sub(r, BigInt(k))
			a, b = l, r
		}
	}
	if a.Op == b.Op && (a.Op == "mk" || a.Op == "box" || a.Op == "optsome") && a.Name == b.Name && a.Sort == b.Sort {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Op == "ite" && isConstr(b) {
		if x, y := Eq(a.Args[1], b), Eq(a.Args[2], b); x.Op == "true" || x.Op == "false" || y.Op == "true" || y.Op == "false" {
			return Ite(a.Args[0], x, y)
		}
	}
	if b.Op == "ite" && isConstr(a) {
		return Eq(b, a)
	}
	// mk against opaque struct: field-wise
	if a.Op == "mk" && a.Sort.Kind == SStruct {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], Field(b, i)))
		}
		return And(cs...)
	}
	if b.Op == "mk" && b.Sort.Kind == SStruct {
		return Eq(b, a)
	}
	if a.Op == "box" && b.Op != "box" {
		return And(Is(b, a.Name, a.Args[0].Sort), Eq(Unbox(b, a.Name, a.Args[0].Sort), a.Args[0]))
	}
	if b.Op == "box" && a.Op != "box" {
		return Eq(b, a)
	}
	if a.id > b.id && !(a.Sort.Kind == SInt) {
		a, b = b, a
	}
	return mk(&Term{Op: "eq", Sort: BoolS, Args: []*Term{a, b}})
}

func Lt(a, b *Term) *Term { // a < b  <=>  a <= b-1
	return Le(Add(a, One), b)
}
func Le(a, b *Term) *Term {
	d := Sub(b, a) // d >= 0
	if d.Op == "int" {
		return Bool(d.N.Sign() >= 0)
	}
	lo, hi := Rng(d)
	if lo != nil && lo.Sign() >= 0 {
		return True
	}
	if hi != nil && hi.Sign() < 0 {
		return False
	}
	// canonical: 0 <= d  as l <= r
	l, r := Zero, Zero
	m, k := linParts(d)
	var ks []*Term
	for t := range m {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, t := range ks {
		c := m[t]
		if c.Sign() > 0 {
			r = addScaled(r, c, t)
		} else {
			l = addScaled(l, new(big.Int).Neg(c), t)
		}
	}
	if k.Sign() > 0 {
		r = Add(r, BigInt(k))
	} else {
		l = Sub(l, BigInt(k))
	}
	return mk(&Term{Op: "le", Sort: BoolS, Args: []*Term{l, r}})
}

// ---- structures -----------------------------------------------------------

func MkStruct(s *Sort, args []*Term) *Term {
	// eta: mk(f0(x), f1(x), ...) = x
	if len(args) > 0 && args[0].Op == "field" && args[0].idx == 0 && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != "field" || a.idx != i || a.Args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk(&Term{Op: "mk", Sort: s, Name: s.Name, Args: args})
}

func Field(t *Term, i int) *Term {
	s := t.Sort
	if s.Kind != SStruct {
		panic("Field of non-struct " + s.Name + " " + t.String())
	}
	if t.Op == "mk" {
		return t.Args[i]
	}
	if t.Op == "ite" {
		a, b := Field(t.Args[1], i), Field(t.Args[2], i)
		return Ite(t.Args[0], a, b)
	}
	return sel(&Term{Op: "field", Name: s.Name + "." + s.Fields[i].Name, Args: []*Term{t}, idx: i}, s.Fields[i].Sort)
}

func Upd(t *Term, i int, v *Term) *Term {
	s := t.Sort
	args := make([]*Term, len(s.Fields))
	for k := range s.Fields {
		if k == i {
			args[k] = v
		} else {
			args[k] = Field(t, k)
		}
	}
	return MkStruct(s, args)
}

func App(name string, s *Sort, args ...*Term) *Term {
	if f, ok := appSimp[name]; ok {
		if r := f(s, args); r != nil {
			return r
		}
	}
	return sel(&Term{Op: "app", Name: name, Args: args}, s)
}

var appSimp = map[string]func(s *Sort, a []*Term) *Term{}

func Select(a, k *Term) *Term {
	for {
		if a.Op == "store" {
			e := Eq(a.Args[1], k)
			if e == True {
				return a.Args[2]
			}
			if e == False || refsDistinct(a.Args[1], k) {
				a = a.Args[0]
				continue
			}
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Select(a.Args[1], k), Select(a.Args[2], k))
	}
	return sel(&Term{Op: "select", Args: []*Term{a, k}}, a.Sort.Elem)
}

// references known distinct (fresh allocations), set by the executor
var refsDistinct = func(a, b *Term) bool { return false }

func Store(a, k, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == k {
		return Store(a.Args[0], k, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == k {
		return a
	}
	return mk(&Term{Op: "store", Sort: a.Sort, Args: []*Term{a, k, v}})
}

func ConstArr(s *Sort, v *Term) *Term {
	return mk(&Term{Op: "constarr", Sort: s, Args: []*Term{v}})
}

// Any
func Box(tag string, v *Term) *Term {
	if _, ok := boxSort[tag]; !ok {
		boxSort[tag] = v.Sort
	}
	return mk(&Term{Op: "box", Sort: AnyS, Name: tag, Args: []*Term{v}})
}
func Is(a *Term, tag string, s *Sort) *Term {
	if a.Op == "box" {
		return Bool(a.Name == tag)
	}
	if a.Op == "anynil" {
		return False
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Is(a.Args[1], tag, s), Is(a.Args[2], tag, s))
	}
	boxSort[tag] = s
	return mk(&Term{Op: "is", Sort: BoolS, Name: tag, Args: []*Term{a}})
}

var boxSort = map[string]*Sort{}

func Unbox(a *Term, tag string, s *Sort) *Term {
	if a.Op == "box" && a.Name == tag {
		return a.Args[0]
	}
	boxSort[tag] = s
	if a.Op == "ite" {
		if r := Ite(a.Args[0], Unbox(a.Args[1], tag, s), Unbox(a.Args[2], tag, s)); true {
			return r
		}
	}
	return sel(&Term{Op: "unbox", Name: tag, Args: []*Term{a}}, s)
}

// Opt
func OptOf(e *Sort) *Sort {
	if s, ok := opts[e]; ok {
		return s
	}
	s := &Sort{Kind: SOpt, Name: "Opt_" + e.tag(), Elem: e}
	opts[e] = s
	return s
}
func OptNil(s *Sort) *Term { return mk(&Term{Op: "optnil", Sort: s}) }
func OptSome(s *Sort, v *Term) *Term {
	return mk(&Term{Op: "optsome", Sort: s, Args: []*Term{v}})
}
func OptVal(t *Term) *Term {
	if t.Op == "optsome" {
		return t.Args[0]
	}
	return sel(&Term{Op: "optval", Args: []*Term{t}}, t.Sort.Elem)
}
func IsNilOpt(t *Term) *Term { return Eq(t, OptNil(t.Sort)) }

// Sequences
func Emp(s *Sort) *Term { return mk(&Term{Op: "emp", Sort: s}) }
func Snoc(s, x *Term) *Term {
	return mk(&Term{Op: "snoc", Sort: s.Sort, Args: []*Term{s, x}})
}
func SeqLit(s *Sort, xs ...*Term) *Term {
	r := Emp(s)
	for _, x := range xs {
		r = Snoc(r, x)
	}
	return r
}

// unsnoc returns the elements if the sequence is a literal.
func seqElems(t *Term) ([]*Term, bool) {
	var xs []*Term
	for t.Op == "snoc" {
		xs = append(xs, t.Args[1])
		t = t.Args[0]
	}
	if t.Op != "emp" {
		return nil, false
	}
	for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
		xs[i], xs[j] = xs[j], xs[i]
	}
	return xs, true
}

func Cat(a, b *Term) *Term {
	if b.Op == "emp" {
		return a
	}
	if a.Op == "emp" {
		return b
	}
	if b.Op == "snoc" {
		return Snoc(Cat(a, b.Args[0]), b.Args[1])
	}
	if b.Op == "cat" {
		return Cat(Cat(a, b.Args[0]), b.Args[1])
	}
	// adjacent pieces of the same sequence
	l := a
	if a.Op == "cat" {
		l = a.Args[1]
	}
	if l.Op == "sub" && b.Op == "sub" && l.Args[0] == b.Args[0] && Eq(l.Args[2], b.Args[1]) == True {
		m := SubSeq(l.Args[0], l.Args[1], b.Args[2])
		if a.Op == "cat" {
			return Cat(a.Args[0], m)
		}
		return m
	}
	return mk(&Term{Op: "cat", Sort: a.Sort, Args: []*Term{a, b}})
}
func SeqLen(t *Term) *Term {
	switch t.Op {
	case "emp":
		return Zero
	case "snoc":
		return Add(SeqLen(t.Args[0]), One)
	case "cat":
		return Add(SeqLen(t.Args[0]), SeqLen(t.Args[1]))
	case "ite":
		return Ite(t.Args[0], SeqLen(t.Args[1]), SeqLen(t.Args[2]))
	case "supd":
		return SeqLen(t.Args[0])
	case "zeros":
		return t.Args[0]
	case "app":
		if f, ok := seqLenFn[t.Name]; ok {
			return f(t)
		}
	}
	if t.Op == "sub" {
		// well-formed by construction obligations at creation
		return Sub(t.Args[2], t.Args[1])
	}
	return mk(&Term{Op: "seqlen", Sort: IntS, Args: []*Term{t}})
}

var seqLenFn = map[string]func(t *Term) *Term{}

func SeqAt(t, i *Term) *Term {
	switch t.Op {
	case "snoc":
		n := SeqLen(t.Args[0])
		if e := Eq(i, n); e == True {
			return t.Args[1]
		} else if e == False || Lt(i, n) == True {
			if Lt(i, n) == True {
				return SeqAt(t.Args[0], i)
			}
			if e == False && i.Op == "int" && n.Op == "int" && i.N.Cmp(n.N) < 0 {
				return SeqAt(t.Args[0], i)
			}
		}
	case "sub":
		if Le(Zero, i) == True && Lt(i, Sub(t.Args[2], t.Args[1])) == True {
			return SeqAt(t.Args[0], Add(t.Args[1], i))
		}
	case "supd":
		if e := Eq(i, t.Args[1]); e == True && Le(Zero, i) == True && Lt(i, SeqLen(t.Args[0])) == True {
			return t.Args[2]
		} else if e == False {
			return SeqAt(t.Args[0], i)
		}
	case "ite":
		return Ite(t.Args[0], SeqAt(t.Args[1], i), SeqAt(t.Args[2], i))
	case "cat":
		n := SeqLen(t.Args[0])
		if Lt(i, n) == True {
			return SeqAt(t.Args[0], i)
		}
		if Le(n, i) == True {
			return SeqAt(t.Args[1], Sub(i, n))
		}
	}
	if f := seqAtHook; f != nil {
		if r := f(t, i); r != nil {
			return r
		}
	}
	return sel(&Term{Op: "seqat", Args: []*Term{t, i}}, t.Sort.Elem)
}

var seqAtHook func(t, i *Term) *Term

func SubSeq(t, a, b *Term) *Term {
	if a == Zero && Eq(b, SeqLen(t)) == True {
		return t
	}
	if t.Op == "sub" {
		return SubSeq(t.Args[0], Add(t.Args[1], a), Add(t.Args[1], b))
	}
	if xs, ok := seqElems(t); ok && a.Op == "int" && b.Op == "int" {
		i, j := int(a.N.Int64()), int(b.N.Int64())
		if 0 <= i && i <= j && j <= len(xs) {
			return SeqLit(t.Sort, xs[i:j]...)
		}
	}
	if Eq(a, b) == True {
		return Emp(t.Sort)
	}
	return mk(&Term{Op: "sub", Sort: t.Sort, Args: []*Term{t, a, b}})
}

// SUpd is sequence update (same length).
func SUpd(t, i, v *Term) *Term {
	if xs, ok := seqElems(t); ok && i.Op == "int" && i.N.IsInt64() {
		k := int(i.N.Int64())
		if k >= 0 && k < len(xs) {
			ys := append([]*Term{}, xs...)
			ys[k] = v
			return SeqLit(t.Sort, ys...)
		}
	}
	return mk(&Term{Op: "supd", Sort: t.Sort, Args: []*Term{t, i, v}})
}
func Zeros(s *Sort, n, zero *Term) *Term {
	if n.Op == "int" && n.N.IsInt64() && n.N.Int64() <= 64 && n.N.Sign() >= 0 {
		r := Emp(s)
		for i := int64(0); i < n.N.Int64(); i++ {
			r = Snoc(r, zero)
		}
		return r
	}
	return mk(&Term{Op: "zeros", Sort: s, Args: []*Term{n, zero}})
}

// Map values
func MapEmp(s *Sort) *Term { return mk(&Term{Op: "mapemp", Sort: s}) }
func MapHas(m, k *Term) *Term {
	switch m.Op {
	case "mapemp":
		return False
	case "mapput":
		e := Eq(m.Args[1], k)
		if e == True {
			return True
		}
		return Or(e, MapHas(m.Args[0], k))
	case "ite":
		return Ite(m.Args[0], MapHas(m.Args[1], k), MapHas(m.Args[2], k))
	}
	return mk(&Term{Op: "maphas", Sort: BoolS, Args: []*Term{m, k}})
}
func MapGet(m, k *Term) *Term { // meaningful only if has
	if m.Op == "mapput" {
		e := Eq(m.Args[1], k)
		if e == True {
			return m.Args[2]
		}
		if e == False {
			return MapGet(m.Args[0], k)
		}
		return Ite(e, m.Args[2], MapGet(m.Args[0], k))
	}
	if m.Op == "ite" {
		return Ite(m.Args[0], MapGet(m.Args[1], k), MapGet(m.Args[2], k))
	}
	return sel(&Term{Op: "mapget", Args: []*Term{m, k}}, m.Sort.Elem)
}
func MapPut(m, k, v *Term) *Term {
	if m.Op == "mapput" && m.Args[1] == k {
		return MapPut(m.Args[0], k, v)
	}
	return mk(&Term{Op: "mapput", Sort: m.Sort, Args: []*Term{m, k, v}})
}
func MapCard(m *Term) *Term {
	switch m.Op {
	case "mapemp":
		return Zero
	case "mapput":
		return Add(MapCard(m.Args[0]), Ite(MapHas(m.Args[0], m.Args[1]), Zero, One))
	}
	return mk(&Term{Op: "mapcard", Sort: IntS, Args: []*Term{m}})
}

// Strings
func StrLit(s string) *Term { return mk(&Term{Op: "strlit", Sort: StrS, Name: s}) }

func Forall(vars []*Term, trig [][]*Term, body *Term) *Term {
	if body == True {
		return True
	}
	return mk(&Term{Op: "forall", Sort: BoolS, Vars: vars, Trig: trig, Args: []*Term{body}})
}
func Exists(vars []*Term, body *Term) *Term {
	return Not(Forall(vars, nil, Not(body)))
}

// Subst replaces terms by terms (bottom-up, re-simplifying).
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "lin":
		r := BigInt(t.N)
		for i := range a {
			r = addScaled(r, t.Co[i], a[i])
		}
		return r
	case "mul":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "eq":
		return Eq(a[0], a[1])
	case "le":
		return Le(a[0], a[1])
	case "mk":
		return MkStruct(t.Sort, a)
	case "field":
		return Field(a[0], t.idx)
	case "app":
		s := t.Sort
		if t.declLo != nil {
			s = &Sort{Kind: SInt, Name: "Int", Lo: t.declLo, Hi: t.declHi}
		}
		return App(t.Name, s, a...)
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.Sort, a[0])
	case "box":
		return Box(t.Name, a[0])
	case "is":
		return Is(a[0], t.Name, boxSort[t.Name])
	case "unbox":
		return Unbox(a[0], t.Name, boxSort[t.Name])
	case "optsome":
		return OptSome(t.Sort, a[0])
	case "optval":
		return OptVal(a[0])
	case "snoc":
		return Snoc(a[0], a[1])
	case "cat":
		return Cat(a[0], a[1])
	case "seqlen":
		return SeqLen(a[0])
	case "seqat":
		return SeqAt(a[0], a[1])
	case "sub":
		return SubSeq(a[0], a[1], a[2])
	case "supd":
		return SUpd(a[0], a[1], a[2])
	case "zeros":
		return Zeros(t.Sort, a[0], a[1])
	case "maphas":
		return MapHas(a[0], a[1])
	case "mapget":
		return MapGet(a[0], a[1])
	case "mapput":
		return MapPut(a[0], a[1], a[2])
	case "mapcard":
		return MapCard(a[0])
	case "forall":
		var trig [][]*Term
		for _, ts := range t.Trig {
			var n []*Term
			for _, x := range ts {
				n = append(n, rec(x))
			}
			trig = append(trig, n)
		}
		return Forall(t.Vars, trig, a[0])
	}
	panic("rebuild " + t.Op)
}

func (t *Term) String() string {
	var b strings.Builder
	t.str(&b, 12)
	s := b.String()
	if len(s) > 2500 {
		s = s[:2500] + "…"
	}
	return s
}

func (t *Term) str(b *strings.Builder, d int) {
	if b.Len() > 3000 {
		return
	}
	if d == 0 {
		b.WriteString("…")
		return
	}
	switch t.Op {
	case "int":
		b.WriteString(t.N.String())
		return
	case "var", "bvar":
		b.WriteString(t.Name)
		return
	case "strlit":
		fmt.Fprintf(b, "%q", t.Name)
		return
	case "lin":
		b.WriteString("(")
		for i, a := range t.Args {
			if i > 0 {
				b.WriteString(" + ")
			}
			if t.Co[i].Cmp(big.NewInt(1)) != 0 {
				b.WriteString(t.Co[i].String() + "*")
			}
			a.str(b, d-1)
		}
		if t.N.Sign() != 0 {
			b.WriteString(" + " + t.N.String())
		}
		b.WriteString(")")
		return
	case "field":
		t.Args[0].str(b, d-1)
		b.WriteString("." + t.Args[0].Sort.Fields[t.idx].Name)
		return
	case "true", "false", "emp", "anynil", "optnil":
		b.WriteString(t.Op)
		return
	case "forall":
		b.WriteString("forall")
		for _, v := range t.Vars {
			b.WriteString(" " + v.Name)
		}
		b.WriteString(". ")
		t.Args[0].str(b, d-1)
		return
	}
	n := t.Op
	if t.Op == "app" || t.Op == "mk" {
		n = t.Name
	} else if t.Op == "box" || t.Op == "is" || t.Op == "unbox" {
		n = t.Op + ":" + t.Name
	}
	b.WriteString(n + "(")
	for i, a := range t.Args {
		if i > 0 {
			b.WriteString(", ")
		}
		a.str(b, d-1)
	}
	b.WriteString(")")
}
