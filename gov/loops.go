package main

// Loops: cut at the header, modified-state inference, candidate invariants, termination.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopNest struct {
	headers map[*ssa.BasicBlock]*Loop
}

type LoopAct struct {
	nest     *Loop
	cut      bool
	cutExits bool
	iter     *Term
	onBack   func(st *State, prev *ssa.BasicBlock)
	cond     *Term
}

func (f *Frame) curLoop(l *Loop) *LoopAct {
	for i := len(f.loops) - 1; i >= 0; i-- {
		if f.loops[i].nest == l {
			return f.loops[i]
		}
	}
	return nil
}

func (e *Exec) nest(fn *ssa.Function) *loopNest {
	if n, ok := e.loopInfo[fn]; ok {
		return n
	}
	n := &loopNest{headers: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := n.headers[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					n.headers[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loopInfo[fn] = n
	return n
}

// literalCond reports whether the loop condition is decided by integer literals.
func (e *Exec) literalCond(st *State, b, prev *ssa.BasicBlock) bool {
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != b {
		return false
	}
	s := st.clone()
	e.silent++
	e.probe++
	defer func() { e.silent--; e.probe-- }()
	e.phis(s, b, prev)
	for _, in := range b.Instrs[firstNonPhi(b) : len(b.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Convert, *ssa.DebugRef, *ssa.Field:
			e.instr(s, b, 0, in)
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			_, args := e.callArgs(s, &x.Call)
			e.builtin(s, bi, &x.Call, args, func(_ *State, r []Val) { e.set(s, x, r[0]) })
		default:
			return false
		}
	}
	x, ok1 := e.val(s, cmp.X).(*Term)
	y, ok2 := e.val(s, cmp.Y).(*Term)
	return ok1 && ok2 && x.Op == "int" && y.Op == "int"
}

// loopHead handles arrival at a loop header from outside (or in an unrolled iteration).
func (e *Exec) loopHead(st *State, l *Loop, b, prev *ssa.BasicBlock) bool {
	if st.top().unroll[b] < 40 && e.literalCond(st, b, prev) {
		return false
	}
	e.cutLoop(st, l, b, prev)
	return true
}

func (e *Exec) backEdge(st *State, a *LoopAct, prev *ssa.BasicBlock) {
	a.onBack(st, prev)
}

// lv is a loop variable: a phi or a private object changed by the loop.
type lv struct {
	phi   *ssa.Phi
	obj   *Obj
	typ   types.Type
	entry Val
	cur   *Term // value at the header
	lin   *Term // coefficient if linear in iter
	name  string
	fixed bool // not changed by the loop
}

type heapMod struct {
	whole bool
	refs  []*Term
	fresh map[*Term]*Term           // ref -> fresh value ; nil key for whole
	leaf  map[*Term]map[string]bool // the fields of an embedded struct that change
}

// havocLeaves replaces the named parts of a struct by arbitrary values.
func havocLeaves(t *Term, path string, leaf map[string]bool, hint string) *Term {
	if leaf[path] {
		return freshVal(hint, t.Sort)
	}
	if t.Sort.Kind != SStruct {
		return t
	}
	var as []*Term
	for i := range t.Sort.Fields {
		as = append(as, havocLeaves(Field(t, i), fmt.Sprintf("%s.%d", path, i), leaf, hint+"."+t.Sort.Fields[i].Name))
	}
	return MkStruct(t.Sort, as)
}

func diffLeaves(a, b *Term, path string, leaf map[string]bool) (changed bool) {
	if a == b || leaf[path] {
		return false
	}
	if b.Op == "mk" && a.Sort.Kind == SStruct && b.Sort.Kind == SStruct {
		for i := range a.Sort.Fields {
			changed = diffLeaves(Field(a, i), Field(b, i), fmt.Sprintf("%s.%d", path, i), leaf) || changed
		}
		return changed
	}
	leaf[path] = true
	return true
}

type cand struct {
	label string
	key   string
	ev    func(st *State, vals map[*lv]*Term, iter *Term) *Term
	auto  bool
	props []string
	dead  bool
}

func freshVal(hint string, s *Sort) *Term {
	if s.Kind == SStruct {
		var as []*Term
		for _, f := range s.Fields {
			as = append(as, freshVal(hint+"."+f.Name, f.Sort))
		}
		return MkStruct(s, as)
	}
	return Fresh(hint, s)
}

func bornAfter(t *Term, id int, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t.Op == "var" && t.id > id && !isInitial(t)
	for _, a := range t.Args {
		if r {
			break
		}
		r = bornAfter(a, id, memo)
	}
	memo[t] = r
	return r
}

// initial state variables are created lazily but are old
func isInitial(t *Term) bool {
	return len(t.Name) > 2 && t.Name[1] == ':' && (t.Name[0] == 'H')
}

type loopCtx struct {
	e       *Exec
	l       *Loop
	b       *ssa.BasicBlock
	entry   *State
	lvs     []*lv
	mods    map[string]*heapMod
	cellMod map[*Obj]*lv
	wmMod   bool
	wmVar   *Term
	iter    *Term
	over    TV // the keys a loop over a map visits, in order
	startID int
	depth   int
	cond    *Term
	fix     []*lv
}

// start builds the state at the loop header for an arbitrary iteration.
func (lc *loopCtx) start() (*State, map[*lv]*Term) {
	s := lc.entry.clone()
	vals := map[*lv]*Term{}
	for _, k := range sortedKeys(lc.mods) {
		m := lc.mods[k]
		arr := s.heap[k]
		if arr == nil {
			arr = Var("H:"+k, keySort[k])
		}
		if m.whole {
			if m.fresh[nil] == nil {
				m.fresh[nil] = freshVal("L:"+k, arr.Sort)
			}
			s.heap[k] = m.fresh[nil]
			continue
		}
		for _, r := range m.refs {
			if m.fresh[r] == nil {
				if m.leaf[r] != nil {
					m.fresh[r] = havocLeaves(Select(arr, r), "", m.leaf[r], "l:"+k)
				} else {
					m.fresh[r] = freshVal("l:"+k, arr.Sort.Elem)
				}
			}
			arr = Store(arr, r, m.fresh[r])
		}
		s.heap[k] = arr
	}
	if lc.wmMod {
		s.wm = lc.wmVar
		s.assume(Le(lc.entry.wm, lc.wmVar))
	}
	for _, v := range lc.lvs {
		t := v.cur
		if v.lin != nil {
			t = Add(v.entry.(*Term), Mul(v.lin, lc.iter))
			if so := sortOf(v.typ); so.Lo != nil {
				s.assume(And(Le(BigInt(so.Lo), t), Le(t, BigInt(so.Hi))))
			}
		}
		vals[v] = t
		if v.phi != nil {
			s.top().env[v.phi] = t
		} else {
			s.cells[v.obj] = t
		}
		s.refFact(t, sortOf(v.typ))
	}
	return s, vals
}

var keySort = map[string]*Sort{}

// vals reads the loop variables in a state about to take the back edge.
func (lc *loopCtx) valsAt(st *State, prev *ssa.BasicBlock) map[*lv]*Term {
	k := -1
	for i, p := range lc.b.Preds {
		if p == prev {
			k = i
		}
	}
	vals := map[*lv]*Term{}
	for _, v := range lc.lvs {
		var x Val
		if v.phi != nil {
			x = lc.e.val(st, v.phi.Edges[k])
		} else {
			x = st.cells[v.obj]
		}
		vals[v] = lc.e.term(st, x, v.typ)
	}
	return vals
}

type backState struct {
	st   *State
	vals map[*lv]*Term
}

// body runs one iteration with exits cut and returns the states at back edges.
func (lc *loopCtx) body(s *State) (res []backState, cond *Term) {
	e := lc.e
	act := &LoopAct{nest: lc.l, cut: true, cutExits: true, iter: lc.iter}
	act.onBack = func(st *State, prev *ssa.BasicBlock) {
		e.guardInstr(st, lc.b.Instrs[0], func() {
			res = append(res, backState{st, lc.valsAt(st, prev)})
		})
	}
	fr := s.top()
	fr.loops = append(fr.loops[:len(fr.loops):len(fr.loops)], act)
	e.silent++
	e.run(s, lc.b, firstNonPhi(lc.b))
	e.silent--
	return res, act.cond
}

func (lc *loopCtx) addMods(s0 *State, st *State) (changed bool) {
	memo := map[*Term]bool{}
	for o, c := range s0.cells {
		n, ok := st.cells[o]
		if !ok {
			continue // promoted: handled by caller
		}
		if n == c {
			continue
		}
		if lc.cellMod[o] != nil {
			continue
		}
		if _, ok := c.(*Term); !ok {
			if sameVal(c, n) {
				continue
			}
			panic(unsup("loop changes %s of type %s", o.name, o.typ))
		}
		v := &lv{obj: o, typ: o.typ, entry: lc.entry.cells[o], cur: freshVal("v:"+o.name, sortOf(o.typ)), name: o.name}
		lc.cellMod[o] = v
		lc.lvs = append(lc.lvs, v)
		changed = true
	}
	for k, t := range st.heap {
		b := s0.heap[k]
		if b == nil {
			b = Var("H:"+k, t.Sort)
		}
		if t == b {
			continue
		}
		keySort[k] = t.Sort
		m := lc.mods[k]
		if m == nil {
			m = &heapMod{fresh: map[*Term]*Term{}}
			lc.mods[k] = m
			changed = true
		}
		if m.whole {
			continue
		}
		// store chains down to a common array
		x := t
		var refs []*Term
		ok := true
		under := map[*Term]bool{}
		for y := b; ; y = y.Args[0] {
			under[y] = true
			if y.Op != "store" {
				break
			}
		}
		for !under[x] {
			if x.Op != "store" {
				ok = false
				break
			}
			refs = append(refs, x.Args[1])
			x = x.Args[0]
		}
		if ok {
			for y := b; y != x; y = y.Args[0] {
				refs = append(refs, y.Args[1])
			}
		}
		if !ok {
			// the base may be an older version below our own stores
			m.whole = true
			changed = true
			continue
		}
		for _, r := range refs {
			if bornAfter(r, lc.startID, memo) {
				ok = false
			}
			if lc.wmMod && r.Op == "lin" {
				ok = ok && !bornAfter(r, lc.startID, memo)
			}
		}
		if st.wm != lc.entry.wm {
			for _, r := range refs {
				if d := Le(lc.entry.wm, r); d == True {
					ok = false
				}
			}
		}
		if !ok {
			m.whole = true
			changed = true
			for _, r := range refs {
				have := bornAfter(r, lc.startID, memo)
				for _, q := range m.refs {
					have = have || q == r
				}
				if !have {
					m.refs = append(m.refs, r)
				}
			}
			continue
		}
		for _, r := range refs {
			have := false
			for _, q := range m.refs {
				have = have || q == r
			}
			if !have {
				m.refs = append(m.refs, r)
				changed = true
			}
			if t.Sort.Elem.Kind == SStruct {
				if m.leaf == nil {
					m.leaf = map[*Term]map[string]bool{}
				}
				if m.leaf[r] == nil {
					m.leaf[r] = map[string]bool{}
				}
				if diffLeaves(Select(b, r), Select(t, r), "", m.leaf[r]) {
					delete(m.fresh, r)
					changed = true
				}
			}
		}
	}
	if st.wm != s0.wm && !lc.wmMod {
		lc.wmMod = true
		lc.wmVar = Fresh("wm", IntS)
		changed = true
	}
	return
}

func sameVal(a, b Val) bool {
	fa, ok1 := a.(*FnVal)
	fb, ok2 := b.(*FnVal)
	if ok1 && ok2 {
		return fa == fb
	}
	pa, ok1 := a.(*Ptr)
	pb, ok2 := b.(*Ptr)
	if ok1 && ok2 {
		return pa == pb || pa.obj == pb.obj && pa.ref == pb.ref && pa.ro == pb.ro && pa.glob == pb.glob && len(pa.path) == 0 && len(pb.path) == 0
	}
	ia, ok1 := a.(*Iface)
	ib, ok2 := b.(*Iface)
	if ok1 && ok2 {
		return ia == ib
	}
	ba, ok1 := a.(*BufSlice)
	bb, ok2 := b.(*BufSlice)
	if ok1 && ok2 {
		return ba == bb
	}
	return false
}

func loopDepth(st *State) int {
	d := 0
	for _, f := range st.frames {
		for _, l := range f.loops {
			if l.cut {
				d++
			}
		}
	}
	return d
}

func outerIters(st *State) (r []*Term) {
	for _, f := range st.frames {
		for _, l := range f.loops {
			if l.cut {
				r = append(r, l.iter)
			}
		}
	}
	return
}

func (e *Exec) cutLoop(st *State, l *Loop, b, prev *ssa.BasicBlock) {
	lc := &loopCtx{e: e, l: l, b: b, mods: map[string]*heapMod{}, cellMod: map[*Obj]*lv{}, depth: loopDepth(st) + 1}
	e.phis(st, b, prev)
	// pointer and slice phis become terms
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.val(st, p)
		if _, ok := v.(*Term); !ok {
			if f, ok := v.(*FnVal); ok {
				same := true
				for i, pr := range b.Preds {
					if pr != prev && p.Edges[i] != ssa.Value(p) {
						same = false
					}
				}
				if same {
					_ = f
					continue
				}
			}
			e.set(st, p, e.term(st, v, p.Type()))
		}
	}
restart:
	lc.entry = st
	lc.startID = termCount
	lc.lvs = nil
	lc.mods = map[string]*heapMod{}
	lc.cellMod = map[*Obj]*lv{}
	lc.wmMod = false
	lc.iter = Fresh("iter", IntS)
	SetRange(lc.iter, Zero.N, nil)
	lc.over = TV{}
	for _, in := range b.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			if it, ok := e.val(st, nx.Iter).(*RangeIter); ok {
				m := types.Unalias(it.typ).Underlying().(*types.Map)
				lc.over = TV{it.enum, types.NewSlice(m.Key())}
			}
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t, ok := e.val(st, p).(*Term)
		if !ok {
			continue
		}
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		lc.lvs = append(lc.lvs, &lv{phi: p, typ: p.Type(), entry: t, cur: freshVal("v:"+name, sortOf(p.Type())), name: name})
	}
	var backs []backState
	var s0 *State
	e.probe++
	for n := 0; ; n++ {
		s0, _ = lc.start()
		base := s0.clone()
		var cond *Term
		backs, cond = lc.body(s0)
		if cond != nil {
			lc.cond = cond
		}
		changed := false
		for _, bs := range backs {
			for o := range bs.st.promo {
				if _, had := base.cells[o]; had {
					e.probe--
					e.promote(st, o)
					goto restart
				}
			}
			for o := range bs.st.frozen {
				if _, had := base.cells[o]; had && !base.frozen[o] {
					st.frozen[o] = true
				}
			}
			changed = lc.addMods(base, bs.st) || changed
		}
		if !changed {
			break
		}
		if n > 12 {
			e.probe--
			panic(unsup("loop effects do not stabilise"))
		}
	}
	e.probe--
	// appends to loop-invariant bases
	memo := map[*Term]bool{}
	for _, bs := range backs {
		for t := range bs.st.app {
			if !st.app[t] && !bornAfter(t, lc.startID, memo) && e.probe == 0 && !bs.st.pcset[False] {
				panic(unsup("loop appends repeatedly to the same slice"))
			}
		}
		if len(bs.st.perm) != len(st.perm) {
			panic(unsup("sort inside a loop"))
		}
	}
	if e.probe > 0 {
		s, _ := lc.start()
		act := &LoopAct{nest: l, cut: true, iter: lc.iter}
		act.onBack = func(*State, *ssa.BasicBlock) {}
		fr := s.top()
		fr.loops = append(fr.loops[:len(fr.loops):len(fr.loops)], act)
		e.run(s, b, firstNonPhi(b))
		return
	}
	// linear variables
	for _, v := range lc.lvs {
		if v.cur.Sort.Kind != SInt || sortOf(v.typ) == RefS {
			continue
		}
		if _, ok := v.entry.(*Term); !ok {
			continue
		}
		var c *Term
		ok := len(backs) > 0
		for _, bs := range backs {
			d := Sub(bs.vals[v], v.cur)
			if d.Op != "int" {
				ok = false
				for _, k := range []int64{1, -1} {
					so := sortOf(v.typ)
					if so.Lo != nil {
						bits, signed := intInfo(v.typ)
						if bs.vals[v] == Wrap(Add(v.cur, Int(k)), bits, signed) {
							d = Int(k)
							ok = true
						}
					}
				}
				if !ok {
					break
				}
			}
			if c == nil {
				c = d
			}
			if c != d {
				ok = false
				break
			}
		}
		if ok && c != nil {
			v.lin = c
		}
	}
	e.loopsN++
	cands := lc.candidates()
	// entry
	ev := map[*lv]*Term{}
	for _, v := range lc.lvs {
		t, ok := v.entry.(*Term)
		if !ok {
			t = e.term(st, v.entry, v.typ)
		}
		ev[v] = t
	}
	hkey := fmt.Sprintf("%s#%d", l.header.Parent().Name(), l.header.Index)
	if len(st.frames) > 1 {
		hkey += fmt.Sprintf("@%d", len(st.frames))
	}
	if prevSurv := e.houdini[hkey]; prevSurv != nil && lc.depth > 1 {
		var cs []*cand
		for _, c := range cands {
			if prevSurv[c.key] {
				cs = append(cs, c)
			}
		}
		cands = cs
	}
	hintKey := e.c.key + "|" + hkey
	if h, ok := hints[hintKey]; ok {
		e.hinted = true
		var cs []*cand
		for _, c := range cands {
			for _, k := range h {
				if k == c.key {
					cs = append(cs, c)
				}
			}
		}
		cands = cs
	}
	cands = e.filter(cands, []backState{{st, ev}}, Zero, "entry")
	next := Add(lc.iter, One)
	var vcur []*Term
	var lastBacks []backState
	for round := 0; round < 12; round++ {
		s, vals := lc.start()
		for _, c := range cands {
			if t := c.ev(s, vals, lc.iter); t != nil {
				s.assume(t)
			}
		}
		vcur = lc.variants(s, vals)
		backs, _ := lc.body(s)
		lastBacks = backs
		n := len(cands)
		cands = e.filter(cands, backs, next, "step")
		if len(cands) == n {
			break
		}
	}
	surv := map[string]bool{}
	for _, c := range cands {
		surv[c.key] = true
	}
	if debugLoops {
		fmt.Printf("  loop %s depth %d: %d vars, %d mods, %d invariants\n", hkey, lc.depth, len(lc.lvs), len(lc.mods), len(cands))
		for _, v := range lc.lvs {
			fmt.Printf("     var %s %s lin=%v\n", v.name, typeName(v.typ), v.lin)
		}
		for _, k := range sortedKeys(lc.mods) {
			fmt.Printf("     mod %s whole=%v refs=%v\n", k, lc.mods[k].whole, lc.mods[k].refs)
		}
		for _, c := range cands {
			fmt.Printf("     inv %s\n", c.label)
		}
	}
	e.houdini[hkey] = surv
	if e.silent == 0 {
		if found[hintKey] == nil {
			found[hintKey] = map[string]bool{}
		}
		for k := range surv {
			found[hintKey][k] = true
		}
	}
	if e.silent == 0 {
		for _, c := range cands {
			e.obligs = append(e.obligs, &Oblig{fn: e.c.key, kind: "invariant", label: "established and preserved: " + c.label, status: "proved", by: "solver", props: c.props, goal: True})
		}
		// linear variables and termination
		for _, bs := range lastBacks {
			for _, v := range lc.lvs {
				if v.lin != nil {
					g := Eq(bs.vals[v], Add(v.entry.(*Term), Mul(v.lin, next)))
					e.emit(bs.st, "invariant", v.name+" changes by a constant", g, nil, b.Instrs[0].Pos())
				}
			}
		}
		if !e.c.noterm {
			e.termination(lc, lastBacks, vcur)
		}
	}
	s, vals := lc.start()
	for _, c := range cands {
		if t := c.ev(s, vals, lc.iter); t != nil {
			s.assume(t)
		}
	}
	act := &LoopAct{nest: l, cut: true, iter: lc.iter}
	act.onBack = func(*State, *ssa.BasicBlock) {}
	fr := s.top()
	fr.loops = append(fr.loops[:len(fr.loops):len(fr.loops)], act)
	e.run(s, b, firstNonPhi(b))
}

var debugLoops bool

func (e *Exec) termination(lc *loopCtx, backs []backState, vcur []*Term) {
	for _, in := range lc.b.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			// every iteration takes one more element of a finite string or map
			e.obligs = append(e.obligs, &Oblig{fn: e.c.key, kind: "termination", label: "loop terminates (range)", status: "proved", by: "structure", goal: True})
			return
		}
	}
	for i, v := range vcur {
		if v == nil {
			continue
		}
		ok := true
		for _, bs := range backs {
			nx := lc.variants(bs.st, bs.vals)[i]
			if nx == nil || !e.prove(bs.st, And(Le(Zero, v), Lt(nx, v)), 5*time.Second) {
				ok = false
				break
			}
		}
		if ok {
			e.obligs = append(e.obligs, &Oblig{fn: e.c.key, kind: "termination", label: "loop terminates", status: "proved", by: "solver", goal: True})
			return
		}
	}
	e.failOb(lc.entry, "termination", "no decreasing measure for the loop", lc.b.Instrs[0].Pos())
}

// variants evaluates the candidate measures in a state.
func (lc *loopCtx) variants(st *State, vals map[*lv]*Term) []*Term {
	var r []*Term
	if c := lc.cond; c != nil {
		m := map[*Term]*Term{}
		for _, v := range lc.lvs {
			if v.lin != nil {
				m[v.cur] = vals[v]
			} else {
				subFresh(m, v.cur, vals[v])
			}
		}
		cs := []*Term{c}
		if c.Op == "and" {
			cs = c.Args
		}
		for _, c := range cs {
			if c.Op == "le" {
				r = append(r, Subst(Sub(c.Args[1], c.Args[0]), m))
			}
		}
	}
	for _, cl := range lc.e.c.clauses {
		if cl.kind == "decreases" {
			for _, as := range lc.assign(cl.e) {
				t := lc.evalTemplate(cl.e, as, st, vals, nil)
				r = append(r, t)
			}
		}
	}
	return r
}

func subFresh(m map[*Term]*Term, a, b *Term) {
	if a.Op == "mk" {
		for i := range a.Args {
			subFresh(m, a.Args[i], Field(b, i))
		}
		return
	}
	m[a] = b
}

// assign enumerates the assignments of loop variables to the metavariables of a template.
func (lc *loopCtx) assign(ex *Expr) []map[string]*lv {
	type mv struct {
		name string
		ty   types.Type
	}
	var ms []mv
	seen := map[string]bool{}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x.op == "meta" && !seen[x.name] && len(x.typs) > 0 {
			seen[x.name] = true
			ms = append(ms, mv{x.name, parseType(x.typs[0])})
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(ex)
	res := []map[string]*lv{{}}
	pool := append(append([]*lv{}, lc.lvs...), lc.fixed()...)
	for _, m := range ms {
		var nx []map[string]*lv
		for _, r := range res {
			for _, v := range pool {
				if !sameShape(v.typ, m.ty) || v.name == "range" || v.name == "rangeindex" {
					continue
				}
				used := false
				for _, u := range r {
					used = used || u == v
				}
				if used {
					continue
				}
				n := cpm(r)
				n[m.name] = v
				nx = append(nx, n)
			}
		}
		res = nx
	}
	return res
}

// fixed lists the pointers and slices held by locals that the loop does not change.
func (lc *loopCtx) fixed() []*lv {
	if lc.fix != nil {
		return lc.fix
	}
	lc.fix = []*lv{}
	fr := lc.entry.top()
	var vs []ssa.Value
	for v := range fr.env {
		switch v.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map:
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	seen := map[*Term]bool{}
	for _, v := range vs {
		if t, ok := fr.env[v].(*Term); ok && (t.Sort.Kind == SInt && t.Op != "int" || t.Sort.Kind == SSeq && t.Op != "emp") && !seen[t] {
			seen[t] = true
			lc.fix = append(lc.fix, &lv{typ: v.Type(), entry: t, cur: t, name: v.Name(), fixed: true})
		}
	}
	return lc.fix
}

func (lc *loopCtx) evalTemplate(x *Expr, as map[string]*lv, st *State, vals map[*lv]*Term, iter *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case specError:
				if debugLoops {
					fmt.Println("     template error:", u.msg)
				}
				t = nil
			case unsupported:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	env := lc.e.env(st)
	env.metas = map[string]TV{}
	env.entryMetas = map[string]TV{}
	for n, v := range as {
		if v.fixed {
			env.metas[n] = TV{v.cur, v.typ}
		} else {
			env.metas[n] = TV{vals[v], v.typ}
		}
		en, ok := v.entry.(*Term)
		if !ok {
			return nil
		}
		env.entryMetas[n] = TV{en, v.typ}
	}
	env.loopEntry = lc.entry
	env.iter = iter
	env.over = lc.over
	env.outer = outerIters(lc.entry)
	return env.eval(x).t
}

func (lc *loopCtx) candidates() []*cand {
	var cs []*cand
	add := func(c *cand) { cs = append(cs, c) }
	for i, cl := range lc.e.c.clauses {
		if cl.kind != "inv" || cl.depth != 0 && cl.depth != lc.depth {
			continue
		}
		cl := cl
		for _, as := range lc.assign(cl.e) {
			as := as
			key := fmt.Sprintf("T%d", i)
			lab := cl.text
			var ns []string
			for n := range as {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				key += "," + as[n].name
				if len(ns) > 0 {
					lab += " [" + n + "=" + as[n].name + "]"
				}
			}
			add(&cand{label: lab, key: key, props: cl.props, ev: func(st *State, vals map[*lv]*Term, iter *Term) *Term {
				return lc.evalTemplate(cl.e, as, st, vals, iter)
			}})
		}
	}
	// loop bound: condition weakened by one step
	if lc.cond != nil {
		conds := []*Term{lc.cond}
		if lc.cond.Op == "and" {
			conds = lc.cond.Args
		}
		for _, c := range conds {
			if c.Op == "le" {
				l, r := c.Args[0], Add(c.Args[1], One)
				gs := []*Term{Le(l, r)}
				if l2, r2 := unwrap(l, map[*Term]*Term{}), unwrap(r, map[*Term]*Term{}); l2 != l || r2 != r {
					if g2 := Le(l2, r2); g2.Op == "le" {
						gs = append(gs, g2)
					}
				}
				for gi, g := range gs {
					g := g
					add(&cand{label: "loop bound " + g.String(), key: fmt.Sprintf("bound%d", gi), auto: true, ev: func(st *State, vals map[*lv]*Term, iter *Term) *Term {
						m := map[*Term]*Term{}
						for _, v := range lc.lvs {
							subFresh(m, v.cur, vals[v])
						}
						return Subst(g, m)
					}})
				}
			}
		}
	}
	// frames of arrays havocked as a whole
	for _, k := range sortedKeys(lc.mods) {
		m := lc.mods[k]
		if !m.whole || keySort[k].Kind != SArr || keySort[k].Key != IntS && keySort[k].Key != AnyS {
			continue
		}
		k := k
		ks := keySort[k].Key
		older := func(r, wm *Term) *Term {
			if ks == IntS {
				return And(Lt(Zero, r), Lt(r, wm))
			}
			return oldBox(r, wm)
		}
		old := lc.entry.heap[k]
		if old == nil {
			old = Var("H:"+k, keySort[k])
		}
		add(&cand{label: "older objects unchanged in " + k, key: "frame" + k, auto: true, ev: func(st *State, vals map[*lv]*Term, iter *Term) *Term {
			cur := st.heap[k]
			if cur == nil || cur == old {
				return True
			}
			r := BVar("r", ks)
			var ex []*Term
			for _, q := range m.refs {
				ex = append(ex, Not(Eq(r, q)))
			}
			return Forall([]*Term{r}, [][]*Term{{mk(&Term{Op: "select", Sort: cur.Sort.Elem, Args: []*Term{cur, r}})}},
				Imp(And(append(ex, older(r, lc.entry.wm))...), Eq(Select(cur, r), Select(old, r))))
		}})
		allowed := lc.e.allowedRefs(k)
		add(&cand{label: "objects of the callers unchanged in " + k, key: "framefn" + k, auto: true, ev: func(st *State, vals map[*lv]*Term, iter *Term) *Term {
			cur := st.heap[k]
			if cur == nil || cur == old {
				return True
			}
			r := BVar("r", ks)
			var ex []*Term
			for _, q := range allowed {
				ex = append(ex, Not(Eq(r, q)))
			}
			return Forall([]*Term{r}, [][]*Term{{mk(&Term{Op: "select", Sort: cur.Sort.Elem, Args: []*Term{cur, r}})}},
				Imp(And(append(ex, older(r, lc.e.entry.wm))...), Eq(Select(cur, r), Select(old, r))))
		}})
	}
	// evaluate once to drop ill-typed ones
	s, vals := lc.start()
	var out []*cand
	for _, c := range cs {
		if c.ev(s, vals, lc.iter) != nil {
			out = append(out, c)
		}
	}
	return out
}

// unwrap replaces machine-wrapped sums by the plain sums.
func unwrap(t *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "mod":
		if x := t.Args[1]; x.Op == "int" && x.N.Cmp(two64) == 0 {
			r = unwrap(t.Args[0], memo)
		}
	case "lin":
		r = t
		m := map[*Term]*Term{}
		var walk func(x *Term)
		walk = func(x *Term) {
			if x.Op == "mod" {
				if u := unwrap(x, memo); u != x {
					m[x] = u
				}
				return
			}
			for _, a := range x.Args {
				walk(a)
			}
		}
		walk(t)
		if len(m) > 0 {
			r = Subst(t, m)
		}
	}
	memo[t] = r
	return r
}

// filter keeps the candidates that hold in all given states.
func (e *Exec) filter(cs []*cand, bs []backState, iter *Term, what string) []*cand {
	type job struct {
		st    *State
		goals []*Term
		live  []*cand
	}
	var jobs []*job
	for _, b := range bs {
		if b.st.pcset[False] {
			continue
		}
		j := &job{st: b.st}
		for _, c := range cs {
			if c.dead {
				continue
			}
			t := c.ev(b.st, b.vals, iter)
			if t == nil {
				c.dead = true
				continue
			}
			t = b.st.simp(t)
			if t == True {
				continue
			}
			j.goals = append(j.goals, t)
			j.live = append(j.live, c)
		}
		if len(j.goals) > 0 {
			jobs = append(jobs, j)
		}
	}
	var mu sync.Mutex
	dead := func(c *cand) bool {
		mu.Lock()
		defer mu.Unlock()
		return c.dead
	}
	smt := func(j *job, gs ...*Term) string {
		smtMu.Lock()
		defer smtMu.Unlock()
		return SMT(j.st.pc, And(gs...), false, e.depth())
	}
	run := func(j *job) {
		var goals []*Term
		var live []*cand
		for i, c := range j.live {
			if !dead(c) {
				goals = append(goals, j.goals[i])
				live = append(live, c)
			}
		}
		if len(goals) > 1 {
			if r := solve(smt(j, goals...), houdiniQuick, 0); r.res == "unsat" {
				return
			}
		}
		var wg sync.WaitGroup
		for i := range goals {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := live[i]
				if dead(c) {
					return
				}
				s := smt(j, goals[i])
				r := solve(s, houdiniQuick, 0)
				if r.res != "unsat" && what != "entry" && !dead(c) {
					r = solve(s, houdiniQuick/4, houdiniFull)
				}
				if r.res == "unsat" {
					return
				}
				mu.Lock()
				defer mu.Unlock()
				if c.dead {
					return
				}
				c.dead = true
				if debugLoops {
					fmt.Printf("     drop(%s) %s\n", what, c.label)
					if debugDrop {
						fmt.Println("        ", goals[i])
						dropN++
						os.WriteFile(fmt.Sprintf("/tmp/drop%d.smt2", dropN), []byte("; "+what+" "+c.label+"\n"+s), 0644)
					}
				}
			}()
		}
		wg.Wait()
	}
	// the first state weeds out most of the wrong candidates
	if len(jobs) > 0 {
		run(jobs[0])
		var wg sync.WaitGroup
		sem := make(chan struct{}, 4)
		for _, j := range jobs[1:] {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				run(j)
				<-sem
			}()
		}
		wg.Wait()
	}
	var out []*cand
	for _, c := range cs {
		if !c.dead {
			out = append(out, c)
		}
	}
	return out
}

var dropN int

var debugDrop bool
