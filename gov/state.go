package main

// Symbolic state: private objects, heap arrays, ghost state, path condition.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Tuple []Val

type Obj struct {
	id   int
	typ  types.Type
	name string
}

type step struct {
	field int
	idx   *Term // nil for field steps
	typ   types.Type
}

// Ptr is an address: of a private object, of a heap object, of a part of an immutable value
// (ro) or of a package variable.
type Ptr struct {
	obj  *Obj
	ref  *Term
	ro   *Term
	glob *ssa.Global
	root types.Type // type of the object pointed into
	path []step
}

type FnVal struct {
	fn    *ssa.Function
	binds []Val
	ext   string // name of a bound external method
	recv  Val
}

// BufSlice is a slice of a private array object.
type BufSlice struct {
	obj    *Obj
	lo, hi *Term
	typ    types.Type
}

// Iface is an interface value whose content has not been turned into a term.
type Iface struct {
	typ types.Type
	v   Val
}

type RangeIter struct {
	obj  *Obj // cell holding the position
	over *Term
	enum *Term
	kind string // map | string
	typ  types.Type
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	ret    func(st *State, rets []Val)
	loops  []*LoopAct
	parent int
	unroll map[*ssa.BasicBlock]int
	joins  []*joinPt
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type State struct {
	cells  map[*Obj]Val
	heap   map[string]*Term
	promo  map[*Obj]*Term
	frozen map[*Obj]bool
	pc     []*Term
	pcset  map[*Term]bool
	rep    map[*Term]*Term // values read from the state that are known to be a simpler term
	wm     *Term           // allocation watermark
	frames []*Frame
	perm   map[*Term]*Term // slices sorted in place
	app    map[*Term]bool  // bases of appends
	enums  map[*Term]int
	trace  []string
	bounds map[*Term][2]*big.Int
	bpc    int
}

func NewState() *State {
	return &State{cells: map[*Obj]Val{}, heap: map[string]*Term{}, promo: map[*Obj]*Term{}, frozen: map[*Obj]bool{}, pcset: map[*Term]bool{}, rep: map[*Term]*Term{}, perm: map[*Term]*Term{}, app: map[*Term]bool{}, enums: map[*Term]int{}}
}

func cpm[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	n := &State{cells: cpm(st.cells), heap: cpm(st.heap), promo: cpm(st.promo), frozen: cpm(st.frozen), pc: st.pc[:len(st.pc):len(st.pc)], pcset: cpm(st.pcset), rep: cpm(st.rep),
		wm: st.wm, perm: cpm(st.perm), app: cpm(st.app), enums: cpm(st.enums), trace: st.trace[:len(st.trace):len(st.trace)], bounds: st.bounds, bpc: st.bpc}
	for _, f := range st.frames {
		g := *f
		g.env = cpm(f.env)
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		g.loops = f.loops[:len(f.loops):len(f.loops)]
		g.unroll = cpm(f.unroll)
		g.joins = f.joins[:len(f.joins):len(f.joins)]
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// assume adds a fact; returns false if the path is now certainly infeasible.
func (st *State) assume(t *Term) bool {
	t = st.simp(t)
	if t == True {
		return true
	}
	if t == False || st.pcset[Not(t)] {
		st.pc = append(st.pc, False)
		st.pcset[False] = true
		return false
	}
	if t.Op == "and" {
		ok := true
		for _, a := range t.Args {
			ok = st.assume(a) && ok
		}
		return ok
	}
	if !st.pcset[t] {
		st.pc = append(st.pc, t)
		st.pcset[t] = true
		if t.Op == "eq" {
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				if a.Op == "unbox" && simplerRef(b) {
					if x := a.Args[0]; st.pcset[mk(&Term{Op: "is", Sort: BoolS, Name: a.Name, Args: []*Term{x}})] {
						a, b = x, Box(a.Name, b)
					}
				}
				if a.Op == "select" && (a.Sort.Kind == SAny || a.Sort.Kind == SInt) && !a.bound && st.rep[a] == nil &&
					(simplerRef(b) || b.Op == "app" && !b.bound && b.id < a.id) {
					st.rep[a] = b
				}
			}
		}
		if t.Op == "le" {
			// both directions known: an equation
			if st.simp(Le(t.Args[1], t.Args[0])) == True {
				if q := Eq(t.Args[0], t.Args[1]); q.Op == "eq" && !st.pcset[q] {
					st.pc = append(st.pc, q)
					st.pcset[q] = true
				}
			}
		}
	}
	return !st.pcset[False]
}

func simplerRef(b *Term) bool {
	switch b.Op {
	case "var", "int":
		return !b.bound
	case "lin":
		for _, a := range b.Args {
			if !simplerRef(a) {
				return false
			}
		}
		return true
	case "box":
		return simplerRef(b.Args[0])
	}
	return false
}

// canon replaces a value read from the state by a simpler term known to be equal.
func (st *State) canon(t *Term) *Term {
	if r := st.rep[t]; r != nil {
		return r
	}
	return t
}

// simp evaluates a condition under the syntactic facts of the path condition.
func (st *State) simp(t *Term) *Term {
	if t.Sort != BoolS {
		return t
	}
	if st.pcset[t] {
		return True
	}
	if st.pcset[Not(t)] {
		return False
	}
	switch t.Op {
	case "eq":
		a, b := t.Args[0], t.Args[1]
		// x = c1 known, test x = c2
		for k := 0; k < 2; k++ {
			if isConstr(b) {
				for _, p := range st.pc {
					if p.Op == "eq" {
						for j := 0; j < 2; j++ {
							if p.Args[j] == a && isConstr(p.Args[1-j]) && distinctConst(p.Args[1-j], b) {
								return False
							}
						}
					}
				}
			}
			a, b = b, a
		}
		if t.Args[0].Sort.Kind == SInt {
			d := Sub(t.Args[0], t.Args[1])
			lo, hi := st.rng(d)
			if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return False
			}
		}
	case "le":
		d := Sub(t.Args[1], t.Args[0])
		lo, hi := st.rng(d)
		if lo != nil && lo.Sign() >= 0 {
			return True
		}
		if hi != nil && hi.Sign() < 0 {
			return False
		}
	case "not":
		r := st.simp(t.Args[0])
		if r == True {
			return False
		}
		if r == False {
			return True
		}
	case "and":
		var out []*Term
		for _, a := range t.Args {
			r := st.simp(a)
			if r == False {
				return False
			}
			out = append(out, r)
		}
		return And(out...)
	case "or":
		var out []*Term
		for _, a := range t.Args {
			r := st.simp(a)
			if r == True {
				return True
			}
			out = append(out, r)
		}
		return Or(out...)
	}
	return t
}

func maxB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func minB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) <= 0 {
		return a
	}
	return b
}

// rng is interval analysis refined by the linear facts of the path condition.
func (st *State) rng(t *Term) (lo, hi *big.Int) {
	lo, hi = Rng(t)
	if t.Op == "int" {
		return
	}
	st.refine()
	b := st.bounds
	ev := func(m map[*Term]*big.Int, k *big.Int, skip *Term) (lo, hi *big.Int) {
		lo, hi = new(big.Int).Set(k), new(big.Int).Set(k)
		for a, c := range m {
			if a == skip {
				continue
			}
			al, ah := Rng(a)
			if x, ok := b[a]; ok {
				al, ah = maxB(al, x[0]), minB(ah, x[1])
			}
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(c, al))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(c, ah))
				}
			}
		}
		return
	}
	m, k := linParts(t)
	l2, h2 := ev(m, k, nil)
	lo, hi = maxB(lo, l2), minB(hi, h2)
	// facts whose linear part covers t's: t + (d) where d >= 0 known
	for _, p := range st.pc {
		var ds []*Term
		if p.Op == "le" {
			ds = []*Term{Sub(p.Args[1], p.Args[0])}
		} else if p.Op == "eq" && p.Args[0].Sort.Kind == SInt {
			d := Sub(p.Args[1], p.Args[0])
			ds = []*Term{d, Neg(d)}
		}
		for _, d := range ds {
			dm, _ := linParts(d)
			share := false
			for a := range m {
				if _, ok := dm[a]; ok && len(dm) > 1 {
					share = true
				}
			}
			if !share {
				continue
			}
			// t = d + r with d >= 0  =>  t >= lo(r)
			rm, rk := linParts(Sub(t, d))
			if l, _ := ev(rm, rk, nil); l != nil {
				lo = maxB(lo, l)
			}
			rm, rk = linParts(Add(t, d))
			if _, h := ev(rm, rk, nil); h != nil {
				hi = minB(hi, h)
			}
		}
	}
	return
}

func (st *State) refine() {
	if st.bpc == len(st.pc) && st.bounds != nil {
		return
	}
	b := map[*Term][2]*big.Int{}
	for a, x := range st.bounds {
		b[a] = x
	}
	get := func(a *Term) (lo, hi *big.Int) {
		lo, hi = Rng(a)
		if x, ok := b[a]; ok {
			lo, hi = maxB(lo, x[0]), minB(hi, x[1])
		}
		return
	}
	for pass := 0; pass < 2; pass++ {
		for _, p := range st.pc {
			var ds []*Term
			switch {
			case p.Op == "le":
				ds = []*Term{Sub(p.Args[1], p.Args[0])}
			case p.Op == "eq" && p.Args[0].Sort.Kind == SInt:
				d := Sub(p.Args[1], p.Args[0])
				ds = []*Term{d, Neg(d)}
			default:
				continue
			}
			for _, d := range ds {
				m, k := linParts(d)
				for a, c := range m {
					// c*a >= -(k + rest)  ; rest <= hiRest
					h := new(big.Int).Set(k)
					for x, cx := range m {
						if x == a {
							continue
						}
						xl, xh := get(x)
						if cx.Sign() < 0 {
							xl, xh = xh, xl
						}
						if xh == nil {
							h = nil
							break
						}
						h.Add(h, new(big.Int).Mul(cx, xh))
					}
					if h == nil {
						continue
					}
					lo, hi := get(a)
					n := new(big.Int).Neg(h)
					if c.Sign() > 0 {
						// a >= ceil(n/c)
						q := new(big.Int).Neg(fdiv(h, c))
						_ = n
						lo = maxB(lo, q)
					} else {
						// a <= floor(h/|c|)
						q := fdiv(h, new(big.Int).Neg(c))
						hi = minB(hi, q)
					}
					b[a] = [2]*big.Int{lo, hi}
				}
			}
		}
	}
	st.bounds = b
	st.bpc = len(st.pc)
}

// ---- heap ------------------------------------------------------------------------

func (st *State) h(key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	return Var("H:"+key, s)
}

func fieldKey(t types.Type, i int) (string, *Sort) {
	s := sortOf(t)
	return "F:" + s.Name + "." + s.Fields[i].Name, ArrOf(IntS, base(s.Fields[i].Sort))
}

// ranged select
func selT(arr, k *Term, declared *Sort) *Term {
	r := Select(arr, k)
	if (r.Op == "select" || r.Op == "var") && declared.Lo != nil && r.declLo == nil {
		r.declLo, r.declHi, r.rdone = declared.Lo, declared.Hi, false
	}
	return r
}

func (st *State) loadField(ref *Term, t types.Type, i int) *Term {
	k, s := fieldKey(t, i)
	v := selT(st.h(k, s), ref, sortOf(t).Fields[i].Sort)
	st.refFact(v, sortOf(t).Fields[i].Sort)
	return st.canon(v)
}

// refFact records that a reference read from the state is allocated.
func (st *State) refFact(v *Term, s *Sort) {
	if s == RefS && v.Op != "int" && st.wm != nil && !v.bound {
		st.assume(Le(Zero, v))
		st.assume(Lt(v, st.wm))
	}
}

func isStruct(t types.Type) bool {
	if typeName(t) == "time.Time" || typeName(t) == "strings.Builder" || typeName(t) == "bytes.Buffer" {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && !inModule(n.Obj().Pkg()) {
		return false
	}
	_, ok := types.Unalias(t).Underlying().(*types.Struct)
	return ok
}

func cellKey(t types.Type) (string, *Sort) {
	s := sortOf(t)
	return "C:" + s.tag(), ArrOf(IntS, base(s))
}

func (st *State) loadRef(ref *Term, t types.Type) *Term {
	if isStruct(t) {
		s := sortOf(t)
		var as []*Term
		for i := range s.Fields {
			as = append(as, st.loadField(ref, t, i))
		}
		return MkStruct(s, as)
	}
	k, s := cellKey(t)
	v := selT(st.h(k, s), ref, sortOf(t))
	st.refFact(v, sortOf(t))
	return st.canon(v)
}

func (st *State) storeField(ref *Term, t types.Type, i int, v *Term) {
	k, s := fieldKey(t, i)
	st.heap[k] = Store(st.h(k, s), ref, v)
}

func (st *State) storeRef(ref *Term, t types.Type, v *Term) {
	if isStruct(t) {
		s := sortOf(t)
		for i := range s.Fields {
			st.storeField(ref, t, i, Field(v, i))
		}
		return
	}
	k, s := cellKey(t)
	st.heap[k] = Store(st.h(k, s), ref, v)
}

func mapKey(m *types.Map) (string, *Sort) {
	ms := mapSort(m)
	return "M:" + ms.Name, ArrOf(IntS, ms)
}

func (st *State) mapVal(ref *Term, m *types.Map) *Term {
	k, s := mapKey(m)
	if ref == Zero {
		return MapEmp(s.Elem)
	}
	if l := globMaps[ref]; l != nil {
		return l
	}
	return Select(st.h(k, s), ref)
}

func (st *State) setMap(ref *Term, m *types.Map, v *Term) {
	k, s := mapKey(m)
	st.heap[k] = Store(st.h(k, s), ref, v)
}

func ghostSort(g *GhostDecl) *Sort {
	if g.key == nil {
		return base(sortOf(g.val))
	}
	return ArrOf(base(sortOf(g.key)), base(sortOf(g.val)))
}

func (st *State) ghost(name string, key *Term) *Term {
	g := ghosts[name]
	if g == nil {
		panic(specErr("undeclared ghost %s", name))
	}
	a := st.h("G:"+name, ghostSort(g))
	if g.key == nil {
		return a
	}
	return st.canon(selT(a, st.canon(key), sortOf(g.val)))
}

func (st *State) setGhost(name string, key, v *Term) {
	g := ghosts[name]
	if g.key == nil {
		st.heap["G:"+name] = v
		return
	}
	st.heap["G:"+name] = Store(st.h("G:"+name, ghostSort(g)), st.canon(key), v)
}

// ---- allocation -------------------------------------------------------------------

func (st *State) newRef() *Term {
	r := st.wm
	st.wm = Add(st.wm, One)
	return r
}

var objN int

func newObj(t types.Type, name string) *Obj {
	objN++
	return &Obj{id: objN, typ: t, name: name}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- pointers ---------------------------------------------------------------------

func derefT(t types.Type) types.Type {
	return types.Unalias(t).Underlying().(*types.Pointer).Elem()
}

func isImmPtr(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	return ok && immutable[typeName(p.Elem())]
}

func (e *Exec) promote(st *State, o *Obj) *Term {
	if r, ok := st.promo[o]; ok {
		return r
	}
	if st.frozen[o] {
		panic(unsup("pointer to a shared array escapes"))
	}
	r := st.newRef()
	st.promo[o] = r
	v := st.cells[o]
	delete(st.cells, o)
	if v == nil {
		v = zeroTerm(o.typ)
	}
	st.storeRef(r, o.typ, e.term(st, v, o.typ))
	return r
}

// walk follows a path inside a value.
func walk(t *Term, path []step) *Term {
	for _, s := range path {
		if s.idx != nil {
			t = SeqAt(t, s.idx)
		} else {
			t = Field(t, s.field)
		}
	}
	return t
}

func update(t *Term, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx != nil {
		return SUpd(t, s.idx, update(SeqAt(t, s.idx), path[1:], v))
	}
	return Upd(t, s.field, update(Field(t, s.field), path[1:], v))
}

func (e *Exec) load(st *State, p *Ptr) Val {
	if p.obj != nil {
		if r, ok := st.promo[p.obj]; ok {
			q := *p
			q.obj, q.ref, q.root = nil, r, p.obj.typ
			return e.load(st, &q)
		}
		c := st.cells[p.obj]
		if len(p.path) == 0 {
			return c
		}
		t, ok := c.(*Term)
		if !ok {
			panic(unsup("load inside %T", c))
		}
		return e.loaded(st, walk(t, p.path), p.path[len(p.path)-1].typ)
	}
	if p.ro != nil {
		return e.loaded(st, walk(p.ro, p.path), p.elemType())
	}
	if p.glob != nil {
		return e.loadGlobal(st, p)
	}
	if len(p.path) == 0 {
		return st.loadRef(p.ref, p.root)
	}
	if !isStruct(p.root) {
		return e.loaded(st, walk(st.loadRef(p.ref, p.root), p.path), p.elemType())
	}
	return e.loaded(st, walk(st.loadField(p.ref, p.root, p.path[0].field), p.path[1:]), p.elemType())
}

func (e *Exec) loaded(st *State, t *Term, ty types.Type) Val {
	if ty != nil {
		if s := sortOf(ty); s == RefS {
			st.refFact(t, s)
		}
	}
	return t
}

func (p *Ptr) elemType() types.Type {
	if len(p.path) == 0 {
		return p.root
	}
	return p.path[len(p.path)-1].typ
}

func (e *Exec) store(st *State, p *Ptr, v Val) {
	if p.obj != nil {
		if r, ok := st.promo[p.obj]; ok {
			q := *p
			q.obj, q.ref, q.root = nil, r, p.obj.typ
			e.store(st, &q, v)
			return
		}
		if st.frozen[p.obj] {
			panic(unsup("write to %s after it was shared", p.obj.name))
		}
		if len(p.path) == 0 {
			// keep non-term values only for functions, pointers and interfaces
			st.cells[p.obj] = v
			return
		}
		c, ok := st.cells[p.obj].(*Term)
		if !ok {
			panic(unsup("store inside %T", st.cells[p.obj]))
		}
		st.cells[p.obj] = update(c, p.path, e.term(st, v, p.elemType()))
		return
	}
	if p.ro != nil {
		panic(unsup("write through a shared slice or value"))
	}
	if p.glob != nil {
		e.storeGlobal(st, p, v)
		return
	}
	t := e.term(st, v, p.elemType())
	if len(p.path) == 0 {
		st.storeRef(p.ref, p.root, t)
		return
	}
	if !isStruct(p.root) {
		st.storeRef(p.ref, p.root, update(st.loadRef(p.ref, p.root), p.path, t))
		return
	}
	i := p.path[0].field
	st.storeField(p.ref, p.root, i, update(st.loadField(p.ref, p.root, i), p.path[1:], t))
}

// term turns a value into a term; private objects escape.
func (e *Exec) term(st *State, v Val, ty types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Ptr:
		if ty != nil && isImmPtr(ty) {
			if x.ref == nil || len(x.path) > 0 || true {
				c := e.term(st, e.load(st, x), derefT(ty))
				if x.obj != nil {
					st.frozen[x.obj] = true
				} else if x.ref != nil {
					e.immTaken = append(e.immTaken, x)
				}
				return OptSome(sortOf(ty), c)
			}
		}
		if len(x.path) > 0 {
			panic(unsup("interior pointer escapes"))
		}
		if x.obj != nil {
			return e.promote(st, x.obj)
		}
		if x.ref != nil {
			return x.ref
		}
		if x.glob != nil {
			return App("addr:"+x.glob.RelString(nil), IntS)
		}
		panic(unsup("pointer into a value escapes"))
	case *BufSlice:
		c, ok := st.cells[x.obj].(*Term)
		if !ok {
			panic(unsup("slice of promoted array"))
		}
		st.frozen[x.obj] = true
		return SubSeq(c, x.lo, x.hi)
	case *Iface:
		boxType[typeName(x.typ)] = x.typ
		return Box(typeName(x.typ), e.term(st, x.v, x.typ))
	case *FnVal:
		if x.fn != nil && len(x.binds) == 0 {
			return App("fn:"+funcKey(x.fn), FnS)
		}
		return Fresh("fn", FnS)
	case nil:
		panic(unsup("missing value"))
	}
	panic(unsup("value %T as term", v))
}

func (st *State) String() string {
	var b strings.Builder
	for _, p := range st.pc {
		fmt.Fprintln(&b, "  ", p)
	}
	return b.String()
}
