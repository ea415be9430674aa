package main

// Joining paths. Where a contract asks for it, the states that reach the end of a branching
// region, or that return from an inlined call, become one state: a fresh truth value says
// which of two paths was taken, the facts of each path hold under it, and values that differ
// become conditionals on it.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type joinPt struct {
	block    *ssa.BasicBlock
	arrivals []*State
}

type retState struct {
	st   *State
	rets []Val
}

// mergeVal joins two values; ok is false when they cannot be joined.
func mergeVal(c *Term, a, b Val) (Val, bool) {
	if a == nil || b == nil {
		return nil, a == nil && b == nil
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.Sort != y.Sort {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.Sort.Kind == SAny && (x == Nil) != (y == Nil) {
			return nil, false
		}
		if x.Sort.Kind == SArr {
			return nil, false
		}
		if x.Op == "mk" && y.Op == "mk" && len(x.Args) == len(y.Args) {
			var as []*Term
			for i := range x.Args {
				as = append(as, Ite(c, x.Args[i], y.Args[i]))
			}
			return mk(&Term{Op: "mk", Sort: x.Sort, Name: x.Name, Args: as}), true
		}
		return Ite(c, x, y), true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Tuple, len(x))
		for i := range x {
			v, ok := mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.obj != y.obj || x.ref != y.ref || x.ro != y.ro || x.glob != y.glob || !types.Identical(x.root, y.root) || len(x.path) != len(y.path) {
			return nil, false
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field || x.path[i].idx != y.path[i].idx {
				return nil, false
			}
		}
		return x, true
	case *FnVal:
		y, ok := b.(*FnVal)
		if !ok || x.fn != y.fn || x.ext != y.ext || len(x.binds) != len(y.binds) {
			return nil, false
		}
		for i := range x.binds {
			if _, same := mergeVal(c, x.binds[i], y.binds[i]); !same {
				return nil, false
			}
		}
		return x, x == y || len(x.binds) == 0
	case *Iface:
		y, ok := b.(*Iface)
		if !ok || !types.Identical(x.typ, y.typ) {
			return nil, false
		}
		v, ok := mergeVal(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return &Iface{typ: x.typ, v: v}, true
	}
	if a == b {
		return a, true
	}
	return nil, false
}

// mergeArr joins two versions of a heap location.
func mergeArr(c, a, b *Term) (*Term, bool) {
	if a == b {
		return a, true
	}
	if a.Sort.Kind != SArr {
		return Ite(c, a, b), true
	}
	if a.Op == "store" && b.Op == "store" && a.Args[1] == b.Args[1] {
		if base, ok := mergeArr(c, a.Args[0], b.Args[0]); ok {
			return Store(base, a.Args[1], Ite(c, a.Args[2], b.Args[2])), true
		}
	}
	if a.Op == "store" {
		if base, ok := mergeArr(c, a.Args[0], b); ok {
			return Store(base, a.Args[1], Ite(c, a.Args[2], Select(b, a.Args[1]))), true
		}
	}
	if b.Op == "store" {
		if base, ok := mergeArr(c, a, b.Args[0]); ok {
			return Store(base, b.Args[1], Ite(c, Select(a, b.Args[1]), b.Args[2])), true
		}
	}
	return nil, false
}

// merge2 joins two states that continue the state base; the values live afterwards are
// joined by the caller's extra function.
func merge2(base, a, b *State, extra func(c *Term, m *State) bool) *State {
	n := len(base.pc)
	if len(a.pc) < n || len(b.pc) < n {
		return nil
	}
	for i := 0; i < n; i++ {
		if a.pc[i] != base.pc[i] || b.pc[i] != base.pc[i] {
			return nil
		}
	}
	if len(a.perm) != len(base.perm) || len(b.perm) != len(base.perm) {
		return nil
	}
	m := base.clone()
	c := Fresh("path", BoolS)
	for k := range a.heap {
		h, ok := b.heap[k]
		if !ok {
			h = Var("H:"+k, a.heap[k].Sort)
		}
		t, ok := mergeArr(c, a.heap[k], h)
		if !ok {
			return nil
		}
		m.heap[k] = t
	}
	for k := range b.heap {
		if _, ok := a.heap[k]; !ok {
			t, ok := mergeArr(c, Var("H:"+k, b.heap[k].Sort), b.heap[k])
			if !ok {
				return nil
			}
			m.heap[k] = t
		}
	}
	for o, v := range a.cells {
		w, ok := b.cells[o]
		if !ok {
			m.cells[o] = v
			continue
		}
		x, ok := mergeVal(c, v, w)
		if !ok {
			return nil
		}
		m.cells[o] = x
	}
	for o, v := range b.cells {
		if _, ok := a.cells[o]; !ok {
			m.cells[o] = v
		}
	}
	for o, v := range a.promo {
		if w, ok := b.promo[o]; ok && w != v {
			return nil
		}
		_, inBase := base.cells[o]
		if _, ok := b.promo[o]; !ok && inBase {
			return nil
		}
		m.promo[o] = v
	}
	for o, v := range b.promo {
		_, inBase := base.cells[o]
		if _, ok := a.promo[o]; !ok && inBase {
			return nil
		}
		m.promo[o] = v
	}
	for o := range a.frozen {
		m.frozen[o] = true
	}
	for o := range b.frozen {
		m.frozen[o] = true
	}
	for t := range a.app {
		m.app[t] = true
	}
	for t := range b.app {
		m.app[t] = true
	}
	for t, k := range a.enums {
		m.enums[t] = max(m.enums[t], k)
	}
	for t, k := range b.enums {
		m.enums[t] = max(m.enums[t], k)
	}
	if a.wm != b.wm {
		m.wm = Fresh("wm", IntS)
		m.assume(Le(base.wm, m.wm))
		m.assume(Le(a.wm, m.wm))
		m.assume(Le(b.wm, m.wm))
	} else {
		m.wm = a.wm
	}
	if extra != nil && !extra(c, m) {
		return nil
	}
	inB := map[*Term]bool{}
	for _, f := range b.pc[n:] {
		inB[f] = true
	}
	inA := map[*Term]bool{}
	for _, f := range a.pc[n:] {
		inA[f] = true
		if inB[f] {
			m.assume(f)
		}
	}
	for _, f := range a.pc[n:] {
		if !inB[f] {
			m.assume(Or(Not(c), f))
		}
	}
	for _, f := range b.pc[n:] {
		if !inA[f] {
			m.assume(Or(c, f))
		}
	}
	return m
}

// joinRets joins the results of an inlined call.
func joinRets(base *State, rs []retState) []retState {
	var out []retState
	for _, r := range rs {
		if r.st.pcset[False] {
			continue
		}
		done := false
		for i := range out {
			o := out[i]
			var rets []Val
			m := merge2(base, o.st, r.st, func(c *Term, m *State) bool {
				for j := range o.rets {
					v, ok := mergeVal(c, o.rets[j], r.rets[j])
					if !ok {
						return false
					}
					rets = append(rets, v)
				}
				return true
			})
			if m != nil {
				out[i] = retState{m, rets}
				done = true
				break
			}
		}
		if !done {
			out = append(out, r)
		}
	}
	return out
}

// ipdom is the first block that all paths from b to the end of the function pass, in the
// same loops as b; nil if there is none.
func (e *Exec) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	if j, ok := e.pdoms[b]; ok {
		return j
	}
	if e.pdoms == nil {
		e.pdoms = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	e.pdoms[b] = nil
	ln := e.nest(b.Parent())
	same := func(x *ssa.BasicBlock) bool {
		for _, l := range ln.headers {
			if l.body[b] != l.body[x] {
				return false
			}
		}
		return ln.headers[x] == nil
	}
	// all acyclic continuations
	reach := func(from, avoid *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{from}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[x] || x == avoid {
				continue
			}
			seen[x] = true
			work = append(work, x.Succs...)
		}
		return seen
	}
	var cand []*ssa.BasicBlock
	for x := range reach(b, nil) {
		if x == b || !same(x) {
			continue
		}
		r := reach(b, x)
		ok := true
		for y := range r {
			if len(y.Succs) == 0 {
				if _, isPanic := y.Instrs[len(y.Instrs)-1].(*ssa.Panic); !isPanic {
					ok = false
				}
			}
			// the region must not reach a loop head
			if y != b && ln.headers[y] != nil {
				ok = false
			}
		}
		if ok {
			cand = append(cand, x)
		}
	}
	sort.Slice(cand, func(i, j int) bool { return len(reach(b, cand[i])) < len(reach(b, cand[j])) })
	if len(cand) > 0 {
		e.pdoms[b] = cand[0]
	}
	return e.pdoms[b]
}

// runBlock executes a block, joining the paths of a branching region at its end.
func (e *Exec) runBlock(st *State, b *ssa.BasicBlock) {
	i := firstNonPhi(b)
	if !e.c.merge || len(b.Succs) != 2 {
		e.run(st, b, i)
		return
	}
	j := e.ipdom(b)
	if j == nil {
		e.run(st, b, i)
		return
	}
	base := st.clone()
	p := &joinPt{block: j}
	fr := st.top()
	fr.joins = append(fr.joins[:len(fr.joins):len(fr.joins)], p)
	e.run(st, b, i)
	var out []*State
	for _, s := range p.arrivals {
		if s.pcset[False] {
			continue
		}
		done := false
		for k, o := range out {
			m := merge2(base, o, s, func(c *Term, m *State) bool { return mergeEnv(c, m, o, s, j) })
			if m != nil {
				out[k] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	for _, s := range out {
		// the end of this region may end the enclosing one too
		if f := s.top(); len(f.joins) > 0 && f.joins[len(f.joins)-1].block == j {
			n := len(f.joins)
			q := f.joins[n-1]
			f.joins = f.joins[: n-1 : n-1]
			q.arrivals = append(q.arrivals, s)
			continue
		}
		e.runBlock(s, j)
	}
}

// arrive collects a state at the end of a region.
func (e *Exec) arrive(st *State, b, prev *ssa.BasicBlock) bool {
	fr := st.top()
	n := len(fr.joins)
	if n == 0 || fr.joins[n-1].block != b {
		return false
	}
	p := fr.joins[n-1]
	fr.joins = fr.joins[: n-1 : n-1]
	e.phis(st, b, prev)
	p.arrivals = append(p.arrivals, st)
	return true
}

func mergeEnv(c *Term, m, a, b *State, j *ssa.BasicBlock) bool {
	if len(a.frames) != len(m.frames) || len(b.frames) != len(m.frames) {
		return false
	}
	fm, fa, fb := m.top(), a.top(), b.top()
	if len(fa.defers) != len(fm.defers) || len(fb.defers) != len(fm.defers) {
		return false
	}
	for k, v := range fa.env {
		w, ok := fb.env[k]
		if !ok {
			continue
		}
		x, ok := mergeVal(c, v, w)
		if !ok {
			if usedFrom(k, j) {
				return false
			}
			delete(fm.env, k)
			continue
		}
		fm.env[k] = x
	}
	return true
}

// usedFrom reports whether a value may be used in j or later.
func usedFrom(v ssa.Value, j *ssa.BasicBlock) bool {
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{j}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	for _, r := range *rs {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if seen[r.Block()] {
			if in, ok := v.(ssa.Instruction); ok && in.Block() == r.Block() && r.Block() != j {
				// defined and used in one block
				if _, phi := r.(*ssa.Phi); !phi {
					continue
				}
			}
			return true
		}
	}
	return false
}
