package main

// Symbolic execution of SSA functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	fn    string
	kind  string
	label string
	hyps  []*Term
	goal  *Term
	props []string
	pos   string
	// result
	status  string // proved | failed | unknown
	by      string
	dur     time.Duration
	script  string
	pre     string
	model   string
	depth   int
	solver2 string
}

type Exec struct {
	smoke      [][]*Term
	preSMT     string
	c          *Contract
	fn         *ssa.Function
	obligs     []*Oblig
	silent     int
	probe      int
	entry      *State
	params     map[string]TV
	lets       []*Clause
	immTaken   []*Ptr
	loopInfo   map[*ssa.Function]*loopNest
	pdoms      map[*ssa.BasicBlock]*ssa.BasicBlock
	calls      map[string]bool
	libUsed    map[string]bool
	inlined    map[string]bool
	paths      int
	ends       []*State
	houdini    map[string]map[string]bool
	hinted     bool
	errs       []string
	loopsN     int
	solverMs   time.Duration
	limit      time.Time
	frozenLoop int
}

func (e *Exec) emit(st *State, kind, label string, goal *Term, props []string, pos token.Pos) {
	g := st.simp(goal)
	if e.silent == 0 && !st.pcset[False] {
		o := &Oblig{fn: e.c.key, kind: kind, label: label, goal: g, props: props, hyps: st.pc[:len(st.pc):len(st.pc)], depth: e.c.unfold}
		if pos.IsValid() {
			p := prog.Fset.Position(pos)
			o.pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
		}
		if g == True {
			o.status, o.by = "proved", "simplifier"
		}
		e.obligs = append(e.obligs, o)
	}
	if g != True && kind != "ensures" && kind != "frame" {
		st.assume(g)
	}
}

func (e *Exec) failOb(st *State, kind, msg string, pos token.Pos) {
	if e.silent > 0 || st.pcset[False] {
		return
	}
	o := &Oblig{fn: e.c.key, kind: kind, label: msg, goal: False, hyps: st.pc[:len(st.pc):len(st.pc)]}
	if pos.IsValid() {
		p := prog.Fset.Position(pos)
		o.pos = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, repoDir+"/"), p.Line)
	}
	e.obligs = append(e.obligs, o)
}

// ---- operands ----------------------------------------------------------------------

func (e *Exec) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return &Ptr{glob: x, root: derefT(x.Type())}
	case *ssa.Function:
		return &FnVal{fn: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := st.top().env[v]
	if !ok {
		panic(unsup("no value for %s in %s", v.Name(), st.top().fn))
	}
	if t, ok := r.(*Term); ok && len(st.perm) > 0 {
		return st.permuted(t)
	}
	return r
}

// permuted maps a slice that was sorted in place to its current content.
func (st *State) permuted(t *Term) *Term {
	for i := 0; i < 8; i++ {
		n, ok := st.perm[t]
		if !ok {
			break
		}
		t = n
	}
	return t
}

func (e *Exec) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroTerm(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		if sortOf(t) == StrS {
			return StrLit(constant.StringVal(c.Value))
		}
	case constant.Int:
		if sortOf(t).Kind == SInt {
			n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return BigInt(n)
		}
		return App("flt:"+c.Value.ExactString(), FloatS)
	case constant.Float:
		if sortOf(t).Kind == SInt {
			if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
				n, _ := new(big.Int).SetString(i.ExactString(), 10)
				return BigInt(n)
			}
		}
		return App("flt:"+c.Value.ExactString(), FloatS)
	}
	panic(unsup("constant %s", c))
}

func (e *Exec) tval(st *State, v ssa.Value) *Term {
	x := e.val(st, v)
	if t, ok := x.(*Term); ok {
		return t
	}
	return e.term(st, x, v.Type())
}

func (e *Exec) set(st *State, v ssa.Value, x Val) { st.top().env[v] = x }

// ---- running ------------------------------------------------------------------------

func (e *Exec) guard(st *State, pos token.Pos, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if e.silent == 0 {
					e.errs = append(e.errs, u.msg)
				}
				e.failOb(st, "unsupported", u.msg, pos)
				return
			}
			panic(r)
		}
	}()
	f()
}

const maxPaths = 20000

func (e *Exec) enter(st *State, b, prev *ssa.BasicBlock) {
	if st.pcset[False] {
		return
	}
	fr := st.top()
	// leaving loops whose exits are cut
	for i := len(fr.loops) - 1; i >= 0; i-- {
		l := fr.loops[i]
		if l.nest.body[b] {
			break
		}
		if l.cutExits {
			return
		}
		fr.loops = fr.loops[:i:i]
	}
	ln := e.nest(fr.fn)
	if l := ln.headers[b]; l != nil {
		back := l.body[prev] && prev != nil
		if back {
			if a := fr.curLoop(l); a != nil && a.cut {
				e.backEdge(st, a, prev)
				return
			}
			fr.unroll[b]++
		} else {
			fr.unroll[b] = 0
		}
		if e.loopHead(st, l, b, prev) {
			return
		}
	}
	if e.arrive(st, b, prev) {
		return
	}
	e.phis(st, b, prev)
	e.runBlock(st, b)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (e *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	k := -1
	for i, p := range b.Preds {
		if p == prev {
			k = i
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, e.val(st, p.Edges[k]))
	}
	for i, p := range ps {
		e.set(st, p, vs[i])
	}
}

func (e *Exec) run(st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.pcset[False] {
			return
		}
		in := b.Instrs[i]
		done := false
		e.guardInstr(st, in, func() { done = e.instr(st, b, i, in) })
		if done {
			return
		}
	}
}

func (e *Exec) guardInstr(st *State, in ssa.Instruction, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				msg := u.msg + " [" + in.String() + "]"
				if e.silent == 0 && !st.pcset[False] {
					e.errs = append(e.errs, msg)
				}
				e.failOb(st, "unsupported", msg, in.Pos())
				st.assume(False)
				return
			}
			panic(r)
		}
	}()
	f()
}

// branch runs two continuations on clones of the state.
func (e *Exec) fork(st *State, cond *Term, a, b func(st *State)) {
	c := st.simp(cond)
	if c == True {
		a(st)
		return
	}
	if c == False {
		b(st)
		return
	}
	s2 := st.clone()
	if st.assume(c) && st.unit(c) {
		a(st)
	}
	if s2.assume(Not(c)) && s2.unit(Not(c)) {
		b(s2)
	}
}

// unit draws the conclusions of a new fact from the small disjunctions known; false means
// that the state cannot be.
func (st *State) unit(c *Term) bool {
	n := Not(c)
	for _, f := range st.pc[:len(st.pc):len(st.pc)] {
		if f.Op != "or" || len(f.Args) > 4 {
			continue
		}
		hit := false
		for _, a := range f.Args {
			hit = hit || a == n
		}
		if !hit {
			continue
		}
		var rest []*Term
		known := false
		for _, a := range f.Args {
			switch {
			case st.pcset[a]:
				known = true
			case !st.pcset[Not(a)]:
				rest = append(rest, a)
			}
		}
		if !known && len(rest) <= 1 {
			if !st.assume(Or(rest...)) {
				return false
			}
		}
	}
	return true
}

// instr executes one instruction; true means control was transferred.
func (e *Exec) instr(st *State, b *ssa.BasicBlock, i int, in ssa.Instruction) bool {
	cont := func(st *State) { e.run(st, b, i+1) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := newObj(derefT(x.Type()), x.Comment)
		st.cells[o] = zeroTerm(o.typ)
		e.set(st, x, &Ptr{obj: o, root: o.typ})
	case *ssa.Store:
		v := e.val(st, x.Val)
		p := e.ptr(st, x.Addr, in.Pos())
		e.store(st, p, v)
	case *ssa.UnOp:
		return e.unop(st, x, cont)
	case *ssa.BinOp:
		e.set(st, x, e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Type(), in.Pos()))
	case *ssa.FieldAddr:
		p := e.ptr(st, x.X, in.Pos())
		q := *p
		ft := derefT(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Type()
		q.path = append(p.path[:len(p.path):len(p.path)], step{field: x.Field, typ: ft})
		e.set(st, x, &q)
	case *ssa.Field:
		t := e.tval(st, x.X)
		e.set(st, x, e.loaded(st, Field(t, x.Field), x.Type()))
	case *ssa.IndexAddr:
		e.set(st, x, e.indexAddr(st, x))
	case *ssa.Index:
		s := e.tval(st, x.X)
		ix := e.tval(st, x.Index)
		if s.Sort == StrS {
			n := strLen(s)
			e.emit(st, "bounds", "string index in range", And(Le(Zero, ix), Lt(ix, n)), nil, in.Pos())
			e.set(st, x, strByte(s, ix))
		} else {
			e.emit(st, "bounds", "index in range", And(Le(Zero, ix), Lt(ix, SeqLen(s))), nil, in.Pos())
			e.set(st, x, SeqAt(s, ix))
		}
	case *ssa.Slice:
		e.set(st, x, e.slice(st, x))
	case *ssa.MakeSlice:
		n := e.tval(st, x.Len)
		c := e.tval(st, x.Cap)
		e.emit(st, "bounds", "make: size not negative", And(Le(Zero, n), Le(n, c)), nil, in.Pos())
		et := types.Unalias(x.Type()).Underlying().(*types.Slice).Elem()
		o := newObj(x.Type(), "make")
		st.cells[o] = Zeros(sortOf(x.Type()), n, zeroTerm(et))
		e.set(st, x, &BufSlice{obj: o, lo: Zero, hi: n, typ: x.Type()})
	case *ssa.MakeMap:
		m := types.Unalias(x.Type()).Underlying().(*types.Map)
		r := st.newRef()
		st.setMap(r, m, MapEmp(mapSort(m)))
		e.set(st, x, r)
	case *ssa.MapUpdate:
		m := types.Unalias(x.Map.Type()).Underlying().(*types.Map)
		r := e.tval(st, x.Map)
		e.emit(st, "nil", "write to a nil map", Not(Eq(r, Zero)), nil, in.Pos())
		k, v := e.tval(st, x.Key), e.tval(st, x.Value)
		st.setMap(r, m, MapPut(st.mapVal(r, m), k, v))
	case *ssa.Lookup:
		if m, ok := types.Unalias(x.X.Type()).Underlying().(*types.Map); ok {
			r, k := e.tval(st, x.X), e.tval(st, x.Index)
			mv := st.mapVal(r, m)
			// nothing is ever stored under the nil reference
			st.assume(Or(Not(Eq(r, Zero)), Eq(mv, MapEmp(mv.Sort))))
			has := st.simp(MapHas(mv, k))
			val := func(has *Term) *Term {
				g := MapGet(mv, k)
				v := Ite(has, g, zeroTerm(m.Elem()))
				if has == True && sortOf(m.Elem()) == RefS {
					st.refFact(v, RefS)
				}
				return v
			}
			if !x.CommaOk && sortOf(m.Elem()) == StrS {
				e.set(st, x, val(has))
				return false
			}
			if has != True && has != False {
				e.fork(st, has, func(st *State) {
					v := MapGet(mv, k)
					st.refFact(v, sortOf(m.Elem()))
					if x.CommaOk {
						e.set(st, x, Tuple{v, True})
					} else {
						e.set(st, x, v)
					}
					cont(st)
				}, func(st *State) {
					if x.CommaOk {
						e.set(st, x, Tuple{zeroTerm(m.Elem()), False})
					} else {
						e.set(st, x, zeroTerm(m.Elem()))
					}
					cont(st)
				})
				return true
			}
			if x.CommaOk {
				e.set(st, x, Tuple{val(has), has})
			} else {
				e.set(st, x, val(has))
			}
			return false
		}
		s, ix := e.tval(st, x.X), e.tval(st, x.Index)
		e.emit(st, "bounds", "string index in range", And(Le(Zero, ix), Lt(ix, strLen(s))), nil, in.Pos())
		e.set(st, x, strByte(s, ix))
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		switch y := v.(type) {
		case *Term:
			e.set(st, x, Box(typeName(x.X.Type()), y))
		default:
			e.set(st, x, &Iface{typ: x.X.Type(), v: v})
		}
		// remember the static type for formatting
		if t, ok := v.(*Term); ok {
			boxType[typeName(x.X.Type())] = x.X.Type()
			_ = t
		}
	case *ssa.ChangeInterface:
		e.set(st, x, e.val(st, x.X))
	case *ssa.ChangeType:
		e.set(st, x, e.val(st, x.X))
	case *ssa.Convert:
		e.set(st, x, e.convert(st, e.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.TypeAssert:
		return e.typeAssert(st, x, cont)
	case *ssa.Extract:
		t, ok := e.val(st, x.Tuple).(Tuple)
		if !ok {
			panic(unsup("extract of %T", e.val(st, x.Tuple)))
		}
		e.set(st, x, t[x.Index])
	case *ssa.MakeClosure:
		var bs []Val
		for _, v := range x.Bindings {
			bs = append(bs, e.val(st, v))
		}
		e.set(st, x, &FnVal{fn: x.Fn.(*ssa.Function), binds: bs})
	case *ssa.Call:
		fv, args := e.callArgs(st, &x.Call)
		e.call(st, &x.Call, fv, args, x, func(st *State, rets []Val) {
			switch len(rets) {
			case 0:
			case 1:
				if x.Call.Signature().Results().Len() == 1 {
					e.set(st, x, rets[0])
					break
				}
				e.set(st, x, Tuple(rets))
			default:
				e.set(st, x, Tuple(rets))
			}
			cont(st)
		})
		return true
	case *ssa.Defer:
		fv, args := e.callArgs(st, &x.Call)
		fr := st.top()
		if len(fr.loops) > 0 {
			panic(unsup("defer inside a loop"))
		}
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{&x.Call, fv, args})
	case *ssa.RunDefers:
		e.runDefers(st, cont)
		return true
	case *ssa.Range:
		o := newObj(types.Typ[types.Int], "range")
		st.cells[o] = Zero
		over := e.tval(st, x.X)
		switch u := types.Unalias(x.X.Type()).Underlying().(type) {
		case *types.Map:
			mv := st.mapVal(over, u)
			st.assume(Or(Not(Eq(over, Zero)), Eq(mv, MapEmp(mv.Sort))))
			n := st.enums[mv]
			st.enums[mv] = n + 1
			ord := Int(int64(n) + 1) // 0 stands for keys(m) in specifications
			if loopDepth(st) > 0 {
				ord = Fresh("enum", IntS)
			}
			e.set(st, x, &RangeIter{obj: o, over: mv, enum: enumTerm(mv, ord), kind: "map", typ: x.X.Type()})
		default:
			e.set(st, x, &RangeIter{obj: o, over: over, kind: "string", typ: x.X.Type()})
		}
	case *ssa.Next:
		return e.rangeNext(st, x, cont)
	case *ssa.Jump:
		e.enter(st, b.Succs[0], b)
		return true
	case *ssa.If:
		c := e.tval(st, x.Cond)
		if l := e.nest(st.top().fn).headers[b]; l != nil {
			if a := st.top().curLoop(l); a != nil && a.cut && a.cond == nil {
				if l.body[b.Succs[0]] && !l.body[b.Succs[1]] {
					a.cond = c
				} else if l.body[b.Succs[1]] && !l.body[b.Succs[0]] {
					a.cond = Not(c)
				}
			}
		}
		e.fork(st, c, func(st *State) { e.enter(st, b.Succs[0], b) }, func(st *State) { e.enter(st, b.Succs[1], b) })
		return true
	case *ssa.Return:
		var rets []Val
		for _, r := range x.Results {
			rets = append(rets, e.val(st, r))
		}
		f := st.top()
		for _, l := range f.loops {
			if l.cutExits {
				return true
			}
		}
		st.frames = st.frames[:len(st.frames)-1]
		f.ret(st, rets)
		return true
	case *ssa.Panic:
		e.failOb(st, "panic", "explicit panic is unreachable", in.Pos())
		return true
	default:
		panic(unsup("instruction %T", in))
	}
	return false
}

var boxType = map[string]types.Type{}

func (e *Exec) runDefers(st *State, k func(st *State)) {
	fr := st.top()
	if len(fr.defers) == 0 {
		k(st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
	e.call(st, d.call, d.fn, d.args, nil, func(st *State, _ []Val) { e.runDefers(st, k) })
}

func (e *Exec) ptr(st *State, v ssa.Value, pos token.Pos) *Ptr {
	return e.asPtr(st, e.val(st, v), v.Type(), pos)
}

func (e *Exec) asPtr(st *State, x Val, ty types.Type, pos token.Pos) *Ptr {
	switch p := x.(type) {
	case *Ptr:
		return p
	case *Term:
		el := derefT(ty)
		if p.Sort.Kind == SOpt {
			e.emit(st, "nil", "nil dereference", Not(IsNilOpt(p)), nil, pos)
			return &Ptr{ro: OptVal(p), root: el}
		}
		e.emit(st, "nil", "nil dereference", Not(Eq(p, Zero)), nil, pos)
		return &Ptr{ref: p, root: el}
	}
	panic(unsup("pointer value %T", x))
}

func (e *Exec) unop(st *State, x *ssa.UnOp, cont func(st *State)) bool {
	switch x.Op {
	case token.MUL:
		p := e.ptr(st, x.X, x.Pos())
		v := e.load(st, p)
		if t, ok := v.(*Term); ok {
			v = st.permuted(t)
		}
		e.set(st, x, v)
	case token.NOT:
		e.set(st, x, Not(e.tval(st, x.X)))
	case token.SUB:
		if sortOf(x.Type()).Kind != SInt {
			e.set(st, x, App("fneg", FloatS, e.tval(st, x.X)))
			break
		}
		e.set(st, x, e.wrap(st, Neg(e.tval(st, x.X)), x.Type()))
	default:
		panic(unsup("operator %s", x.Op))
	}
	return false
}

func intInfo(t types.Type) (bits uint, signed bool) {
	b := types.Unalias(t).Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	panic(unsup("integer type %s", t))
}

// wrap reduces an arithmetic result to its machine type, exactly.
func (e *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	bits, signed := intInfo(ty)
	w := Wrap(t, bits, signed)
	if w == t {
		return t
	}
	lo, hi := st.rng(t)
	mn, mx := typeRange(bits, signed)
	if lo != nil && hi != nil && lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 {
		return t
	}
	if e.probe == 0 && !t.bound {
		if e.prove(st, And(Le(BigInt(mn), t), Le(t, BigInt(mx))), 500*time.Millisecond) {
			return t
		}
	}
	return w
}

func typeRange(bits uint, signed bool) (mn, mx *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(bits), big.NewInt(1))
}

func (e *Exec) binop(st *State, op token.Token, xv, yv Val, xt, rt types.Type, pos token.Pos) Val {
	if op == token.EQL || op == token.NEQ {
		t := e.equal(st, xv, yv, xt)
		if op == token.NEQ {
			t = Not(t)
		}
		return t
	}
	x, y := e.term(st, xv, xt), e.term(st, yv, xt)
	s := sortOf(xt)
	if s == StrS {
		switch op {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return strLt(x, y)
		case token.GTR:
			return strLt(y, x)
		case token.LEQ:
			return Not(strLt(y, x))
		case token.GEQ:
			return Not(strLt(x, y))
		}
	}
	if s == FloatS {
		n := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[op]
		if n != "" {
			return App(n, FloatS, x, y)
		}
		n = map[token.Token]string{token.LSS: "flt", token.LEQ: "fle", token.GTR: "fgt", token.GEQ: "fge"}[op]
		return App(n, BoolS, x, y)
	}
	switch op {
	case token.ADD:
		return e.wrap(st, Add(x, y), rt)
	case token.SUB:
		return e.wrap(st, Sub(x, y), rt)
	case token.MUL:
		return e.wrap(st, Mul(x, y), rt)
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.QUO, token.REM:
		e.emit(st, "div", "division by zero", Not(Eq(y, Zero)), nil, pos)
		lo, _ := st.rng(x)
		ylo, _ := st.rng(y)
		if lo != nil && lo.Sign() >= 0 && ylo != nil && ylo.Sign() >= 0 {
			if op == token.QUO {
				return Div(x, y)
			}
			return Mod(x, y)
		}
		q := goDiv(x, y)
		if op == token.QUO {
			return e.wrap(st, q, rt)
		}
		return goRem(x, y)
	case token.AND:
		if xt.Underlying() == types.Typ[types.Bool] {
			return And(x, y)
		}
		return bitAnd(x, y, rt)
	case token.OR:
		return e.bitOr(st, x, y)
	case token.SHL:
		if y.Op == "int" && y.N.IsInt64() && y.N.Int64() < 64 && y.N.Sign() >= 0 {
			return e.wrap(st, Mul(x, BigInt(pow2(uint(y.N.Int64())))), rt)
		}
	case token.SHR:
		if y.Op == "int" && y.N.IsInt64() && y.N.Int64() < 64 && y.N.Sign() >= 0 {
			return Div(x, BigInt(pow2(uint(y.N.Int64()))))
		}
	}
	panic(unsup("operator %s on %s", op, typeName(xt)))
}

// goDiv is truncated division.
func goDiv(x, y *Term) *Term {
	if lo, _ := Rng(x); lo != nil && lo.Sign() >= 0 {
		if ylo, _ := Rng(y); ylo != nil && ylo.Sign() > 0 {
			return Div(x, y)
		}
	}
	if y.Op != "int" {
		return App("quo", IntS, x, y)
	}
	ax := Ite(Le(Zero, x), x, Neg(x))
	ay := Ite(Le(Zero, y), y, Neg(y))
	q := Div(ax, ay)
	return Ite(Eq(Le(Zero, x), Le(Zero, y)), q, Neg(q))
}
func goRem(x, y *Term) *Term { return Sub(x, Mul(y, goDiv(x, y))) }

// bitAnd with a constant mask of one bit or of low bits; otherwise uninterpreted.
func bitAnd(x, y *Term, t types.Type) *Term {
	if x.Op == "int" {
		x, y = y, x
	}
	if y.Op == "int" && y.N.Sign() >= 0 {
		if x.Op == "int" && x.N.Sign() >= 0 {
			return BigInt(new(big.Int).And(x.N, y.N))
		}
		if new(big.Int).Add(y.N, big.NewInt(1)).BitLen() == y.N.BitLen()+1 && y.N.TrailingZeroBits() == 0 {
			return Mod(x, BigInt(new(big.Int).Add(y.N, big.NewInt(1))))
		}
		if k := y.N.TrailingZeroBits(); y.N.Sign() > 0 && uint(y.N.BitLen()) == k+1 {
			// bit k: (x div 2^k) mod 2, also right for two's complement
			return Mul(Mod(Div(x, BigInt(pow2(k))), Int(2)), BigInt(pow2(k)))
		}
		// sum over the bits of the mask
		r := Zero
		for k := 0; k < y.N.BitLen(); k++ {
			if y.N.Bit(k) == 1 {
				r = Add(r, Mul(Mod(Div(x, BigInt(pow2(uint(k)))), Int(2)), BigInt(pow2(uint(k)))))
			}
		}
		return r
	}
	return App("bitand", sortOf(t), x, y)
}

func (e *Exec) bitOr(st *State, x, y *Term) *Term {
	for k := 0; k < 2; k++ {
		lo, hi := st.rng(y)
		if lo != nil && hi != nil && lo.Sign() >= 0 {
			n := uint(hi.BitLen())
			if Mod(x, BigInt(pow2(n))) == Zero {
				return Add(x, y)
			}
		}
		x, y = y, x
	}
	if x.Op == "int" && y.Op == "int" && x.N.Sign() >= 0 && y.N.Sign() >= 0 {
		return BigInt(new(big.Int).Or(x.N, y.N))
	}
	return App("bitor", IntS, x, y)
}

func (e *Exec) equal(st *State, a, b Val, ty types.Type) *Term {
	// pointers to private objects
	pa, oka := a.(*Ptr)
	pb, okb := b.(*Ptr)
	if oka && okb {
		if pa.obj != nil && pb.obj != nil {
			if pa.obj != pb.obj {
				return False
			}
			if len(pa.path) == 0 && len(pb.path) == 0 {
				return True
			}
		}
	}
	for k := 0; k < 2; k++ {
		if p, ok := a.(*Ptr); ok {
			if t, ok := b.(*Term); ok && (t == Zero || t.Op == "optnil") {
				if p.ref != nil && len(p.path) == 0 {
					return Eq(p.ref, Zero)
				}
				return False // addresses of objects are not nil
			}
		}
		a, b = b, a
	}
	if ia, ok := a.(*Iface); ok {
		if t, ok := b.(*Term); ok && t == Nil {
			_ = ia
			return False
		}
	}
	if ib, ok := b.(*Iface); ok {
		if t, ok := a.(*Term); ok && t == Nil {
			_ = ib
			return False
		}
	}
	if _, ok := a.(*FnVal); ok {
		return False // functions compare only with nil
	}
	if _, ok := b.(*FnVal); ok {
		return False
	}
	if _, ok := types.Unalias(ty).Underlying().(*types.Slice); ok {
		// comparison with nil: an empty slice may or may not be nil
		var t *Term
		if bs, ok := a.(*BufSlice); ok {
			_ = bs
			return False
		} else {
			t = e.term(st, a, ty)
		}
		u := e.term(st, b, ty)
		if t.Op == "emp" {
			t, u = u, t
		}
		if u.Op != "emp" {
			panic(unsup("slice comparison"))
		}
		if t.Op == "emp" {
			return True
		}
		isn := Fresh("isnil", BoolS)
		st.assume(Imp(isn, Eq(SeqLen(t), Zero)))
		return isn
	}
	return Eq(e.term(st, a, ty), e.term(st, b, ty))
}

func (e *Exec) indexAddr(st *State, x *ssa.IndexAddr) Val {
	ix := e.tval(st, x.Index)
	switch s := e.val(st, x.X).(type) {
	case *BufSlice:
		e.emit(st, "bounds", "index in range", And(Le(Zero, ix), Lt(ix, Sub(s.hi, s.lo))), nil, x.Pos())
		et := s.typ.Underlying().(*types.Slice).Elem()
		return &Ptr{obj: s.obj, root: s.obj.typ, path: []step{{idx: Add(s.lo, ix), typ: et}}}
	case *Ptr: // pointer to array
		at := types.Unalias(derefT(x.X.Type())).Underlying().(*types.Array)
		e.emit(st, "bounds", "index in range", And(Le(Zero, ix), Lt(ix, Int(at.Len()))), nil, x.Pos())
		q := *s
		q.path = append(s.path[:len(s.path):len(s.path)], step{idx: ix, typ: at.Elem()})
		return &q
	case *Term:
		sl, ok := types.Unalias(x.X.Type()).Underlying().(*types.Slice)
		if !ok {
			panic(unsup("index of %s", x.X.Type()))
		}
		e.emit(st, "bounds", "index in range", And(Le(Zero, ix), Lt(ix, SeqLen(s))), nil, x.Pos())
		return &Ptr{ro: SeqAt(s, ix), root: sl.Elem()}
	}
	panic(unsup("index address"))
}

func (e *Exec) slice(st *State, x *ssa.Slice) Val {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.tval(st, v)
	}
	if x.Max != nil {
		panic(unsup("three-index slice"))
	}
	switch s := e.val(st, x.X).(type) {
	case *Ptr:
		at := types.Unalias(derefT(x.X.Type())).Underlying().(*types.Array)
		if s.obj == nil || len(s.path) > 0 {
			panic(unsup("slice of array in place"))
		}
		lo, hi := opt(x.Low, Zero), opt(x.High, Int(at.Len()))
		e.emit(st, "bounds", "slice bounds in range", And(Le(Zero, lo), Le(lo, hi), Le(hi, Int(at.Len()))), nil, x.Pos())
		return &BufSlice{obj: s.obj, lo: lo, hi: hi, typ: x.Type()}
	case *BufSlice:
		lo, hi := opt(x.Low, Zero), opt(x.High, Sub(s.hi, s.lo))
		e.emit(st, "bounds", "slice bounds in range", And(Le(Zero, lo), Le(lo, hi), Le(hi, Sub(s.hi, s.lo))), nil, x.Pos())
		return &BufSlice{obj: s.obj, lo: Add(s.lo, lo), hi: Add(s.lo, hi), typ: s.typ}
	case *Term:
		if s.Sort == StrS {
			n := strLen(s)
			lo, hi := opt(x.Low, Zero), opt(x.High, n)
			e.emit(st, "bounds", "slice bounds in range", And(Le(Zero, lo), Le(lo, hi), Le(hi, n)), nil, x.Pos())
			return strSub(s, lo, hi)
		}
		n := SeqLen(s)
		lo, hi := opt(x.Low, Zero), opt(x.High, n)
		e.emit(st, "bounds", "slice bounds in range", And(Le(Zero, lo), Le(lo, hi), Le(hi, n)), nil, x.Pos())
		return SubSeq(s, lo, hi)
	}
	panic(unsup("slice expression"))
}

func (e *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := types.Unalias(from).Underlying(), types.Unalias(to).Underlying()
	t := e.term(st, v, from)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			return e.wrap(st, t, to)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return App("i2f", FloatS, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			return App("f2i:"+tb.Name(), sortOf(to), t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return App("f2f:"+tb.Name(), FloatS, t)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return App("runestr", StrS, t)
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		return bytesToStr(t)
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok && sortOf(sl.Elem()) == RInt(8, false) {
			return strToBytes(t)
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(unsup("conversion %s -> %s", from, to))
}

func (e *Exec) typeAssert(st *State, x *ssa.TypeAssert, cont func(st *State)) bool {
	v := e.val(st, x.X)
	to := x.AssertedType
	if _, ok := to.Underlying().(*types.Interface); ok {
		// interface to interface: outcome unknown unless the dynamic type is known
		t := v
		ok := Fresh("asserts", BoolS)
		if y, is := v.(*Iface); is {
			ok = Bool(types.Implements(y.typ, to.Underlying().(*types.Interface)))
		} else if tt, is := v.(*Term); is && tt.Op == "box" && boxType[tt.Name] != nil {
			ok = Bool(types.Implements(boxType[tt.Name], to.Underlying().(*types.Interface)))
		}
		if !x.CommaOk {
			e.emit(st, "assert", "type assertion holds", ok, nil, x.Pos())
			e.set(st, x, t)
			return false
		}
		e.fork(st, ok, func(st *State) { e.set(st, x, Tuple{t, True}); cont(st) }, func(st *State) { e.set(st, x, Tuple{Nil, False}); cont(st) })
		return true
	}
	if y, ok := v.(*Iface); ok {
		same := types.Identical(y.typ, to)
		if !x.CommaOk {
			e.emit(st, "assert", "type assertion holds", Bool(same), nil, x.Pos())
			e.set(st, x, y.v)
			return false
		}
		if same {
			e.set(st, x, Tuple{y.v, True})
		} else {
			e.set(st, x, Tuple{zeroTerm(to), False})
		}
		return false
	}
	t := e.tval(st, x.X)
	s := base(sortOf(to))
	is := Is(t, typeName(to), sortOf(to))
	un := func(st *State) *Term {
		u := Unbox(t, typeName(to), sortOf(to))
		_ = s
		st.refFact(u, sortOf(to))
		return u
	}
	if !x.CommaOk {
		e.emit(st, "assert", "type assertion to "+typeName(to)+" holds", is, nil, x.Pos())
		e.set(st, x, un(st))
		return false
	}
	e.fork(st, is, func(st *State) { e.set(st, x, Tuple{un(st), True}); cont(st) },
		func(st *State) { e.set(st, x, Tuple{zeroTerm(to), False}); cont(st) })
	return true
}

// enumTerm is the sequence of the keys of a map, in the order of its n-th enumeration.
func enumTerm(mv *Term, n *Term) *Term {
	name := "enum:" + mv.Sort.Name
	if unfoldFn[name] == nil {
		unfoldFn[name] = enumFacts
	}
	return App(name, SeqOf(mv.Sort.Key), mv, n)
}

// enumFacts: every key occurs exactly once and nothing else occurs.
func enumFacts(en *Term) []*Term {
	m := en.Args[0]
	k := BVar("ek!"+m.Sort.Name, m.Sort.Key)
	i := BVar("ei!", IntS)
	at := func(k *Term) *Term { return App("eidx:"+m.Sort.Name, IntS, en, k) }
	ei := at(SeqAt(en, i))
	in := Imp(And(Le(Zero, i), Lt(i, SeqLen(en))), Eq(ei, i))
	has := mk(&Term{Op: "maphas", Sort: BoolS, Args: []*Term{m, k}})
	all := Imp(MapHas(m, k), And(Le(Zero, at(k)), Lt(at(k), SeqLen(en)), Eq(SeqAt(en, at(k)), k)))
	return []*Term{
		Eq(SeqLen(en), MapCard(m)),
		Forall([]*Term{i}, [][]*Term{{ei}}, in),
		Forall([]*Term{k}, [][]*Term{{has}}, all),
	}
}

func (e *Exec) rangeNext(st *State, x *ssa.Next, cont func(st *State)) bool {
	it, ok := e.val(st, x.Iter).(*RangeIter)
	if !ok {
		panic(unsup("range iterator"))
	}
	pos := st.cells[it.obj].(*Term)
	if x.IsString {
		// pos counts runes: runes(s) is the decoded sequence
		rs := strRunes(it.over)
		st.assume(And(Le(Zero, pos), Le(pos, SeqLen(rs))))
		more := Lt(pos, SeqLen(rs))
		e.fork(st, more, func(st *State) {
			st.cells[it.obj] = Add(pos, One)
			e.set(st, x, Tuple{True, App("runepos", RInt(64, true), it.over, pos), SeqAt(rs, pos)})
			cont(st)
		}, func(st *State) {
			e.set(st, x, Tuple{False, Zero, Zero})
			cont(st)
		})
		return true
	}
	m := types.Unalias(it.typ).Underlying().(*types.Map)
	// the loop must not change the map it ranges over
	en := it.enum
	st.assume(Eq(SeqLen(en), MapCard(it.over)))
	st.assume(And(Le(Zero, pos), Le(pos, SeqLen(en))))
	more := Lt(pos, SeqLen(en))
	e.fork(st, more, func(st *State) {
		st.cells[it.obj] = Add(pos, One)
		k := SeqAt(en, pos)
		st.assume(MapHas(it.over, k))
		v := MapGet(it.over, k)
		st.refFact(v, sortOf(m.Elem()))
		e.set(st, x, Tuple{True, k, v})
		cont(st)
	}, func(st *State) {
		e.set(st, x, Tuple{False, zeroTerm(m.Key()), zeroTerm(m.Elem())})
		cont(st)
	})
	return true
}

// ---- calls --------------------------------------------------------------------------

func (e *Exec) callArgs(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		args = append(args, e.val(st, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	if c.IsInvoke() {
		return nil, args
	}
	return e.val(st, c.Value), args
}

func (e *Exec) call(st *State, c *ssa.CallCommon, fv Val, args []Val, site *ssa.Call, k func(st *State, rets []Val)) {
	if b, ok := fv.(*ssa.Builtin); ok {
		e.builtin(st, b, c, args, k)
		return
	}
	if c.IsInvoke() {
		e.invoke(st, c, args, k)
		return
	}
	switch f := fv.(type) {
	case *FnVal:
		if f.fn == nil {
			panic(unsup("call of %s", f.ext))
		}
		e.callFn(st, f.fn, f.binds, args, c, k)
		return
	case *Term:
		// unknown function value: pure function of its arguments, by assumption
		sig := c.Signature()
		var as []*Term
		as = append(as, f)
		for i, a := range args {
			as = append(as, e.term(st, a, sig.Params().At(i).Type()))
		}
		if sig.Results().Len() != 1 {
			panic(unsup("call of unknown function value"))
		}
		e.libUsed["function parameters are pure"] = true
		rt := sig.Results().At(0).Type()
		k(st, []Val{App("call:"+sigName(sig), sortOf(rt), as...)})
		return
	}
	panic(unsup("call of %T", fv))
}

func sigName(s *types.Signature) string {
	n := ""
	for i := 0; i < s.Params().Len(); i++ {
		n += "_" + sanit(typeName(s.Params().At(i).Type()))
	}
	return n
}

func (e *Exec) callFn(st *State, fn *ssa.Function, binds, args []Val, c *ssa.CallCommon, k func(st *State, rets []Val)) {
	key := funcKey(fn)
	if ct := contracts[key]; ct != nil && !(ct == e.c && len(st.frames) == 0) {
		e.calls[key] = true
		e.callContract(st, ct, fn, args, c, k)
		return
	}
	if l := libFuncs[key]; l != nil {
		e.libUsed[key] = true
		l(e, st, &LibCall{fn: fn, args: args, common: c, key: key}, k)
		return
	}
	if fn.Blocks == nil || fn.Pkg != nil && !inModule(fn.Pkg.Pkg) {
		if fn.Synthetic != "" && fn.Blocks != nil {
			// wrappers around module functions
		} else {
			panic(unsup("no model of %s", key))
		}
	}
	for _, f := range st.frames {
		if f.fn == fn {
			panic(unsup("recursive call of %s without contract", key))
		}
	}
	if len(st.frames) > 14 {
		panic(unsup("call depth"))
	}
	if fn.Synthetic == "" {
		e.inlined[key] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, ret: k, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = binds[i]
	}
	var base *State
	var rs []retState
	if e.c.merge {
		base = st.clone()
		fr.ret = func(st *State, rets []Val) { rs = append(rs, retState{st, rets}) }
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	e.enter(st, fn.Blocks[0], nil)
	for _, r := range joinRets(base, rs) {
		k(r.st, r.rets)
	}
}

func (e *Exec) invoke(st *State, c *ssa.CallCommon, args []Val, k func(st *State, rets []Val)) {
	name := c.Method.Name()
	recv := args[0]
	var dyn types.Type
	var inner Val
	if y, ok := recv.(*Iface); ok {
		dyn, inner = y.typ, y.v
	} else if t, ok := recv.(*Term); ok && t.Op == "box" && boxType[t.Name] != nil {
		dyn, inner = boxType[t.Name], t.Args[0]
	}
	if dyn != nil {
		if f := prog.LookupMethod(dyn, c.Method.Pkg(), name); f != nil && f.Pkg != nil && inModule(f.Pkg.Pkg) {
			e.callFn(st, f, nil, append([]Val{inner}, args[1:]...), c, k)
			return
		}
	}
	if l := libInvoke[name]; l != nil {
		if t, ok := recv.(*Term); ok {
			e.emit(st, "nil", "method call on nil interface", Not(Eq(t, Nil)), nil, c.Pos())
		}
		e.libUsed["interface method "+name] = true
		l(e, st, &LibCall{args: args, common: c, key: name}, k)
		return
	}
	panic(unsup("no model of interface method %s", name))
}

func (e *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, k func(st *State, rets []Val)) {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *BufSlice:
			k(st, []Val{Sub(v.hi, v.lo)})
			return
		case *Term:
			switch {
			case v.Sort == StrS:
				k(st, []Val{strLen(v)})
				return
			case v.Sort.Kind == SSeq:
				k(st, []Val{SeqLen(v)})
				return
			}
			if m, ok := types.Unalias(c.Args[0].Type()).Underlying().(*types.Map); ok {
				mv := st.mapVal(v, m)
				st.assume(Or(Not(Eq(v, Zero)), Eq(mv, MapEmp(mv.Sort))))
				k(st, []Val{MapCard(mv)})
				return
			}
		}
	case "cap":
		t := Fresh("cap", RInt(64, true))
		st.assume(Le(SeqLen(e.term(st, args[0], c.Args[0].Type())), t))
		k(st, []Val{t})
		return
	case "append":
		ty := c.Args[0].Type()
		bs, buf := args[0].(*BufSlice)
		var a *Term
		if buf {
			a = e.term(st, bs, ty)
		} else {
			a = args[0].(*Term)
		}
		var x *Term
		if sortOf(c.Args[1].Type()) == StrS {
			x = strToBytes(e.term(st, args[1], c.Args[1].Type()))
		} else if y, ok := args[1].(*BufSlice); ok {
			// copied, the source stays private
			x = SubSeq(st.cells[y.obj].(*Term), y.lo, y.hi)
		} else {
			x = e.term(st, args[1], ty)
		}
		if a.Op != "emp" {
			if st.app[a] {
				panic(unsup("two appends to the same slice"))
			}
			if st.app == nil {
				st.app = map[*Term]bool{}
			}
			st.app[a] = true
		}
		xs, lit := seqElems(x)
		r := a
		if lit {
			for _, v := range xs {
				r = Snoc(r, v)
			}
		} else if a.Op == "emp" {
			r = Fresh("copy", a.Sort)
			st.assume(Eq(r, x))
		} else {
			r = Cat(a, x)
		}
		k(st, []Val{r})
		return
	case "delete":
		panic(unsup("delete"))
	case "copy":
		dst, ok := args[0].(*BufSlice)
		if ok && !st.frozen[dst.obj] {
			var x *Term
			if sortOf(c.Args[1].Type()) == StrS {
				x = strToBytes(e.term(st, args[1], c.Args[1].Type()))
			} else if y, ok := args[1].(*BufSlice); ok {
				x = SubSeq(st.cells[y.obj].(*Term), y.lo, y.hi)
			} else {
				x = e.term(st, args[1], c.Args[1].Type())
			}
			d := st.cells[dst.obj].(*Term)
			n := Sub(dst.hi, dst.lo)
			do := func(st *State, cnt *Term) {
				mid := SubSeq(x, Zero, cnt)
				st.cells[dst.obj] = Cat(Cat(SubSeq(d, Zero, dst.lo), mid), SubSeq(d, Add(dst.lo, cnt), SeqLen(d)))
				k(st, []Val{cnt})
			}
			e.fork(st, Le(n, SeqLen(x)), func(st *State) { do(st, n) }, func(st *State) { do(st, SeqLen(x)) })
			return
		}
	case "min", "max":
		x, y := args[0].(*Term), args[1].(*Term)
		if len(args) == 2 && x.Sort.Kind == SInt {
			if b.Name() == "min" {
				k(st, []Val{Ite(Le(x, y), x, y)})
			} else {
				k(st, []Val{Ite(Le(x, y), y, x)})
			}
			return
		}
	case "ssa:wrapnilchk":
		k(st, args[:1])
		return
	}
	panic(unsup("builtin %s", b.Name()))
}
