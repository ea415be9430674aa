package main

// Function contracts: use at call sites and verification of bodies.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// conj splits a clause at its top-level conjunctions.
func conj(x *Expr) []*Expr {
	if x.op == "bin" && x.name == "&&" {
		return append(conj(x.args[0]), conj(x.args[1])...)
	}
	return []*Expr{x}
}

func isErrorFn(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && typeName(sig.Results().At(n-1).Type()) == "error"
}

// location of a modifies clause
type locn struct {
	key   string
	sort  *Sort // sort of the array (or of the scalar ghost)
	ref   *Term // nil for scalar ghosts
	val   types.Type
	isMap bool
	path  []int // fields inside an embedded struct
}

func fieldIndex(t types.Type, name string) int {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

func pathGet(t *Term, path []int) *Term {
	for _, i := range path {
		t = Field(t, i)
	}
	return t
}

func pathUpd(t *Term, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return Upd(t, path[0], pathUpd(Field(t, path[0]), path[1:], v))
}

// siblings emits that everything outside the given paths is unchanged.
func siblings(old, now *Term, paths [][]int, out *[]*Term) {
	sub := map[int][][]int{}
	for _, p := range paths {
		if len(p) == 0 {
			return
		}
		sub[p[0]] = append(sub[p[0]], p[1:])
	}
	for i := range old.Sort.Fields {
		if sub[i] == nil {
			*out = append(*out, Eq(Field(now, i), Field(old, i)))
		} else {
			siblings(Field(old, i), Field(now, i), sub[i], out)
		}
	}
}

func (en *Env) locs(x *Expr) []locn {
	switch x.op {
	case "name":
		if g := ghosts[x.name]; g != nil {
			if g.key == nil {
				return []locn{{key: "G:" + g.name, sort: ghostSort(g), val: g.val}}
			}
			panic(specErr("%s: whole ghost in modifies", x.pos))
		}
	case "index":
		if x.args[0].op == "name" {
			if g := ghosts[x.args[0].name]; g != nil {
				return []locn{{key: "G:" + g.name, sort: ghostSort(g), ref: coerce(en.eval(x.args[1]), g.key), val: g.val}}
			}
		}
	case "field":
		if x.args[0].op == "field" {
			v := en.eval(x.args[0])
			if _, ok := types.Unalias(v.ty).Underlying().(*types.Struct); ok {
				ls := en.locs(x.args[0])
				i := fieldIndex(types.Unalias(v.ty), x.name)
				if i < 0 || len(ls) != 1 {
					panic(specErr("%s: bad modifies path", x.pos))
				}
				ls[0].path = append(append([]int{}, ls[0].path...), i)
				ls[0].val = types.Unalias(v.ty).Underlying().(*types.Struct).Field(i).Type()
				return ls
			}
		}
		v := en.eval(x.args[0])
		p, ok := types.Unalias(v.ty).Underlying().(*types.Pointer)
		if !ok {
			panic(specErr("%s: modifies needs a pointer", x.pos))
		}
		stt := p.Elem().Underlying().(*types.Struct)
		if x.name == "all" {
			var r []locn
			for i := 0; i < stt.NumFields(); i++ {
				k, s := fieldKey(p.Elem(), i)
				r = append(r, locn{key: k, sort: s, ref: v.t, val: stt.Field(i).Type()})
			}
			return r
		}
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == x.name {
				k, s := fieldKey(p.Elem(), i)
				return []locn{{key: k, sort: s, ref: v.t, val: stt.Field(i).Type()}}
			}
		}
	case "call":
		if x.name == "mv" {
			v := en.eval(x.args[0])
			m := mapOf(v.ty)
			k, s := mapKey(m)
			return []locn{{key: k, sort: s, ref: v.t, val: &MapValT{m}, isMap: true}}
		}
		if x.name == "deref" {
			v := en.eval(x.args[0])
			k, s := cellKey(derefT(v.ty))
			return []locn{{key: k, sort: s, ref: v.t, val: derefT(v.ty)}}
		}
		if d := macros[x.name]; d != nil {
			n := *en
			n.vars = map[string]TV{}
			for i, p := range d.params {
				n.vars[p] = en.eval(x.args[i])
			}
			var r []locn
			for _, y := range conj(d.body) {
				r = append(r, n.locs(y)...)
			}
			return r
		}
	}
	panic(specErr("%s: bad modifies clause", x.pos))
}

func hasRefs(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.(type) {
	case *ZT:
		return false
	case *MapValT:
		return hasRefs(u.m.Elem(), depth+1)
	case *SpecStruct:
		return false
	}
	if typeName(t) == "time.Time" {
		return false
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		if immutable[typeName(u.Elem())] {
			return false
		}
		return true
	case *types.Map, *types.Chan:
		return true
	case *types.Interface:
		return typeName(t) != "error"
	case *types.Slice:
		return hasRefs(u.Elem(), depth+1)
	case *types.Array:
		return hasRefs(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func (ct *Contract) bind(e *Exec, st, old *State, fn *ssa.Function, args []*Term) *Env {
	en := &Env{e: e, st: st, old: old, vars: map[string]TV{}, lets: map[string]*Expr{}}
	if len(ct.params) != len(fn.Params) {
		panic(unsup("contract of %s has %d parameters, the function %d", ct.key, len(ct.params), len(fn.Params)))
	}
	for i, p := range fn.Params {
		en.vars[ct.params[i]] = TV{args[i], p.Type()}
	}
	for _, c := range ct.clauses {
		if c.kind == "let" {
			en.lets[c.name] = c.e
		}
	}
	return en
}

func nilPossible(t types.Type) bool {
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Interface:
		return true
	}
	return false
}

func freshParts(t *Term, out map[*Term]bool) {
	if t.Op == "mk" {
		for _, a := range t.Args {
			freshParts(a, out)
		}
		return
	}
	if t.Op == "var" {
		out[t] = true
	}
}

func occurs(t, v *Term, memo map[*Term]bool) bool {
	if t == v {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if occurs(a, v, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

func flatAnd(t *Term) []*Term {
	if t.Op == "and" {
		var r []*Term
		for _, a := range t.Args {
			r = append(r, flatAnd(a)...)
		}
		return r
	}
	return []*Term{t}
}

func (e *Exec) callContract(st *State, ct *Contract, fn *ssa.Function, args []Val, c *ssa.CallCommon, k func(st *State, rets []Val)) {
	sig := fn.Signature
	var ts []*Term
	for i, p := range fn.Params {
		t := e.term(st, args[i], p.Type())
		ts = append(ts, st.permuted(t))
	}
	pre := st.clone()
	preEn := ct.bind(e, pre, pre, fn, ts)
	var pos = fn.Pos()
	if c != nil {
		pos = c.Pos()
	}
	for i, p := range fn.Params {
		if nilPossible(p.Type()) && !ct.nilable[ct.params[i]] {
			if ts[i].Sort.Kind == SOpt {
				e.emit(st, "nil", "argument "+ct.params[i]+" of "+ct.key+" is not nil", Not(IsNilOpt(ts[i])), nil, pos)
			} else if ts[i].Sort == AnyS {
				e.emit(st, "nil", "argument "+ct.params[i]+" of "+ct.key+" is not nil", Not(Eq(ts[i], Nil)), nil, pos)
			} else {
				e.emit(st, "nil", "argument "+ct.params[i]+" of "+ct.key+" is not nil", Not(Eq(ts[i], Zero)), nil, pos)
			}
		}
	}
	for _, cl := range ct.clauses {
		if cl.kind != "requires" {
			continue
		}
		for _, x := range conj(cl.e) {
			e.emit(st, "requires", "precondition of "+ct.key+": "+cl.text, preEn.bool(x), nil, pos)
		}
	}
	if ct == e.c {
		// recursion: the measure decreases
		for _, cl := range ct.clauses {
			if cl.kind == "decreases" && !hasMeta(cl.e) {
				m0 := e.env(e.entry)
				a, b := preEn.int(cl.e), m0.int(cl.e)
				e.emit(st, "termination", "recursive call decreases the measure", And(Le(Zero, a), Lt(a, b)), nil, pos)
			}
		}
	}
	if st.pcset[False] {
		return
	}
	// effects
	bump := len(ct.fresh) > 0
	var locs []locn
	for _, cl := range ct.clauses {
		if cl.kind == "modifies" {
			locs = append(locs, preEn.locs(cl.e)...)
		}
	}
	for _, l := range locs {
		bump = bump || hasRefs(l.val, 0)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		bump = bump || hasRefs(sig.Results().At(i).Type(), 0)
	}
	frs := map[*Term]bool{}
	type hv struct {
		l locn
		v *Term
	}
	var hvs []hv
	for _, l := range locs {
		arr := st.h(l.key, l.sort)
		if l.ref == nil {
			v := freshVal("c:"+l.key, l.sort)
			st.heap[l.key] = v
			freshParts(v, frs)
			hvs = append(hvs, hv{l, v})
			continue
		}
		if len(l.path) > 0 {
			cur := Select(arr, l.ref)
			v := freshVal("c:"+l.key, pathGet(cur, l.path).Sort)
			freshParts(v, frs)
			st.heap[l.key] = Store(arr, l.ref, pathUpd(cur, l.path, v))
			hvs = append(hvs, hv{l, v})
			continue
		}
		v := freshVal("c:"+l.key, l.sort.Elem)
		freshParts(v, frs)
		st.heap[l.key] = Store(arr, l.ref, v)
		hvs = append(hvs, hv{l, v})
	}
	if bump {
		w := Fresh("wm", IntS)
		st.assume(Le(st.wm, w))
		st.wm = w
	}
	for _, h := range hvs {
		if !h.l.isMap {
			if s := sortOf(h.l.val); s == RefS {
				st.refFact(h.v, s)
			}
		}
	}
	var rets []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if i == sig.Results().Len()-1 && isErrorFn(sig) {
			rets = append(rets, Nil)
			continue
		}
		v := freshVal("r:"+fn.Name(), sortOf(rt))
		freshParts(v, frs)
		st.refFact(v, sortOf(rt))
		rets = append(rets, v)
	}
	finish := func(st *State, kinds map[string]bool, err *Term) {
		rs := append([]*Term{}, rets...)
		if isErrorFn(sig) {
			rs[len(rs)-1] = err
		}
		en := ct.bind(e, st, pre, fn, ts)
		for i, n := range ct.results {
			en.vars[n] = TV{rs[i], sig.Results().At(i).Type()}
		}
		for i, n := range ct.results {
			for _, f := range ct.fresh {
				if f == n {
					st.assume(Le(pre.wm, rs[i]))
				}
			}
		}
		var facts []*Term
		for _, cl := range ct.clauses {
			if !kinds[cl.kind] {
				continue
			}
			facts = append(facts, flatAnd(en.bool(cl.e))...)
		}
		// definitions of fresh values
		sub := map[*Term]*Term{}
		for changed := true; changed; {
			changed = false
			for i, f := range facts {
				if f == nil {
					continue
				}
				var v, d *Term
				switch {
				case f.Op == "eq":
					for j := 0; j < 2; j++ {
						if frs[f.Args[j]] && sub[f.Args[j]] == nil && !occurs(f.Args[1-j], f.Args[j], map[*Term]bool{}) {
							v, d = f.Args[j], f.Args[1-j]
							break
						}
					}
				case frs[f] && f.Sort == BoolS:
					v, d = f, True
				case f.Op == "not" && frs[f.Args[0]]:
					v, d = f.Args[0], False
				}
				if v == nil {
					continue
				}
				one := map[*Term]*Term{v: d}
				facts[i] = nil
				for j := range facts {
					if facts[j] != nil {
						facts[j] = Subst(facts[j], one)
					}
				}
				for x := range sub {
					sub[x] = Subst(sub[x], one)
				}
				sub[v] = d
				// keep the declared range of the value
				if v.Sort.Kind == SInt && v.declLo != nil {
					facts = append(facts, Le(BigInt(v.declLo), d))
				}
				if v.Sort.Kind == SInt && v.declHi != nil {
					facts = append(facts, Le(d, BigInt(v.declHi)))
				}
				changed = true
				var nf []*Term
				for _, x := range facts {
					if x != nil {
						nf = append(nf, flatAnd(x)...)
					}
				}
				facts = nf
				break
			}
		}
		if len(sub) > 0 {
			for key, t := range st.heap {
				if n := Subst(t, sub); n != t {
					st.heap[key] = n
				}
			}
			for i := range rs {
				rs[i] = Subst(rs[i], sub)
			}
			// facts assumed before the definitions were found
			for _, p := range st.pc[min(len(pre.pc), len(st.pc)):] {
				if n := Subst(p, sub); n != p {
					st.assume(n)
				}
			}
		}
		for _, f := range facts {
			if !st.assume(f) {
				return
			}
		}
		var out []Val
		for _, r := range rs {
			out = append(out, r)
		}
		k(st, out)
	}
	if !isErrorFn(sig) {
		finish(st, map[string]bool{"ensures": true}, nil)
		return
	}
	cond := True
	have := false
	for _, cl := range ct.clauses {
		if cl.kind == "okiff" {
			cond = And(cond, preEn.bool(cl.e))
			have = true
		}
	}
	if !have {
		cond = Fresh("ok", BoolS)
	}
	e.fork(st, cond, func(st *State) {
		finish(st, map[string]bool{"ensures": true, "onok": true}, Nil)
	}, func(st *State) {
		finish(st, map[string]bool{"ensures": true, "onfail": true}, errVal())
	})
}

func hasMeta(x *Expr) bool {
	if x.op == "meta" {
		return true
	}
	for _, a := range x.args {
		if hasMeta(a) {
			return true
		}
	}
	return false
}

// ---- verification of a function ------------------------------------------------------

type FnResult struct {
	key    string
	obligs []*Oblig
	errs   []string
	dur    time.Duration
	paths  int
	exec   *Exec
}

func verifyFunction(ct *Contract) (res *FnResult) {
	t0 := time.Now()
	e := &Exec{c: ct, loopInfo: map[*ssa.Function]*loopNest{}, calls: map[string]bool{}, libUsed: map[string]bool{}, inlined: map[string]bool{}, houdini: map[string]map[string]bool{}, params: map[string]TV{}}
	res = &FnResult{key: ct.key, exec: e}
	defer func() {
		res.dur = time.Since(t0)
		res.obligs = e.obligs
		res.errs = e.errs
		if r := recover(); r != nil {
			switch u := r.(type) {
			case unsupported:
				e.errs = append(e.errs, u.msg)
				e.obligs = append(e.obligs, &Oblig{fn: ct.key, kind: "unsupported", label: u.msg, goal: False, status: "failed"})
			case specError:
				e.errs = append(e.errs, u.msg)
				e.obligs = append(e.obligs, &Oblig{fn: ct.key, kind: "spec", label: u.msg, goal: False, status: "failed"})
			default:
				panic(r)
			}
			res.obligs, res.errs = e.obligs, e.errs
		}
	}()
	fn := allFuncs[ct.key]
	if fn == nil {
		panic(unsup("function %s not found", ct.key))
	}
	e.fn = fn
	st := NewState()
	st.wm = Var("wm0", IntS)
	st.assume(Le(One, st.wm))
	e.entry = st
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, unroll: map[*ssa.BasicBlock]int{}}
	if len(fn.Params) != len(ct.params) {
		panic(unsup("contract of %s has %d parameters, the function %d", ct.key, len(ct.params), len(fn.Params)))
	}
	for i, p := range fn.Params {
		v := freshVal("p:"+ct.params[i], sortOf(p.Type()))
		st.refFact(v, sortOf(p.Type()))
		if nilPossible(p.Type()) && !ct.nilable[ct.params[i]] {
			switch {
			case v.Sort.Kind == SOpt:
				st.assume(Not(IsNilOpt(v)))
			case v.Sort == AnyS:
				st.assume(Not(Eq(v, Nil)))
			default:
				st.assume(Lt(Zero, v))
			}
		}
		fr.env[p] = v
		e.params[ct.params[i]] = TV{v, p.Type()}
	}
	if len(fn.FreeVars) > 0 {
		panic(unsup("contract on a closure"))
	}
	en := e.env(st)
	en.old = st
	for _, cl := range ct.clauses {
		if cl.kind == "requires" {
			st.assume(en.bool(cl.e))
		}
	}
	e.entry = st.clone()
	sig := fn.Signature
	resSig := sig
	if ct.called {
		if sig.Results().Len() == 1 {
			resSig, _ = sig.Results().At(0).Type().Underlying().(*types.Signature)
		}
		if resSig == nil || resSig.Params().Len() != 0 || resSig.Results().Len() != len(ct.results) {
			panic(unsup("%s does not return a function without parameters", ct.key))
		}
	}
	errFn := isErrorFn(sig)
	if errFn && len(ct.results) > 0 && len(ct.results) != sig.Results().Len() {
		panic(specErr("%s: results", ct.key))
	}
	post := func(st *State, rs []*Term, kinds map[string]bool, outcome string) {
		if outcome != "error" && e.silent == 0 {
			e.smoke = append(e.smoke, st.pc)
		}
		env := e.env(st)
		for i, n := range ct.results {
			env.vars[n] = TV{rs[i], resSig.Results().At(i).Type()}
		}
		pos := fn.Pos()
		for _, cl := range ct.clauses {
			if !kinds[cl.kind] {
				continue
			}
			for _, x := range conj(cl.e) {
				lab := cl.label
				if lab == "" {
					lab = cl.text
				}
				e.emit(st, "ensures", fmt.Sprintf("%s (%s): %s", cl.kind, outcome, lab), env.bool(x), cl.props, pos)
			}
		}
		for i, n := range ct.results {
			for _, f := range ct.fresh {
				if f == n && (!errFn || outcome == "success") {
					e.emit(st, "ensures", n+" is newly allocated", And(Le(e.entry.wm, rs[i]), Lt(rs[i], st.wm)), nil, pos)
				}
			}
		}
		e.frame(st, ct)
	}
	retOK := 0
	atRet := func(st *State, vals []Val) {
		var rs []*Term
		for i, v := range vals {
			t := e.term(st, v, resSig.Results().At(i).Type())
			rs = append(rs, st.permuted(t))
		}
		if !errFn {
			retOK++
			post(st, rs, map[string]bool{"ensures": true}, "return")
			return
		}
		var ok *Term = True
		for _, cl := range ct.clauses {
			if cl.kind == "okiff" {
				env := e.env(e.entry)
				env.st = e.entry
				ok = And(ok, env.bool(cl.e))
			}
		}
		hasIff := false
		for _, cl := range ct.clauses {
			hasIff = hasIff || cl.kind == "okiff"
		}
		er := rs[len(rs)-1]
		e.fork(st, Eq(er, Nil), func(st *State) {
			retOK++
			if hasIff {
				for _, cl := range ct.clauses {
					if cl.kind == "okiff" {
						env := e.env(e.entry)
						for _, x := range conj(cl.e) {
							e.emit(st, "ensures", "success only if "+cl.text, env.bool(x), cl.props, fn.Pos())
						}
					}
				}
			}
			post(st, rs, map[string]bool{"ensures": true, "onok": true}, "success")
		}, func(st *State) {
			if hasIff {
				e.emit(st, "ensures", "error only if the success condition fails", Not(ok), okProps(ct), fn.Pos())
			}
			post(st, rs, map[string]bool{"ensures": true, "onfail": true}, "error")
		})
	}
	fr.ret = func(st *State, vals []Val) {
		e.paths++
		// give inlined frames a place to live
		st.frames = []*Frame{{fn: fn, env: map[ssa.Value]Val{}, unroll: map[*ssa.BasicBlock]int{}}}
		if !ct.called {
			atRet(st, vals)
			return
		}
		f, ok := vals[0].(*FnVal)
		if !ok || f.fn == nil {
			panic(unsup("the result of %s is not a function of this package", ct.key))
		}
		e.callFn(st, f.fn, f.binds, nil, nil, func(st *State, vals []Val) {
			st.frames = []*Frame{{fn: fn, env: map[ssa.Value]Val{}, unroll: map[*ssa.BasicBlock]int{}}}
			atRet(st, vals)
		})
	}
	st.frames = []*Frame{fr}
	// the preconditions are satisfiable
	e.preSMT = SMT(st.pc, False, false, 1)
	e.enter(st, fn.Blocks[0], nil)
	if retOK == 0 && len(e.errs) == 0 {
		e.obligs = append(e.obligs, &Oblig{fn: ct.key, kind: "vacuity", label: "a normal return is reachable", goal: False, status: "failed"})
	}
	return res
}

func okProps(ct *Contract) []string {
	var r []string
	for _, cl := range ct.clauses {
		if cl.kind == "okiff" {
			r = append(r, cl.props...)
		}
	}
	return r
}

// allowedRefs lists the objects whose location the contract lets the function change.
func (e *Exec) allowedRefs(key string) (r []*Term) {
	env := e.env(e.entry)
	env.old = e.entry
	for _, cl := range e.c.clauses {
		if cl.kind == "modifies" {
			for _, l := range env.locs(cl.e) {
				if l.key == key && l.ref != nil {
					r = append(r, l.ref)
				}
			}
		}
	}
	return
}

// oldBox says that r is not the box of a reference allocated at wm or later.
func oldBox(r, wm *Term) *Term {
	var ks []string
	for tg, s := range boxSort {
		if strings.HasPrefix(tg, "*") && s.Kind == SInt {
			ks = append(ks, tg)
		}
	}
	sort.Strings(ks)
	c := True
	for _, tg := range ks {
		c = And(c, Imp(Is(r, tg, RefS), Lt(Unbox(r, tg, RefS), wm)))
	}
	return c
}

// frame: only the listed locations of older objects changed.
func (e *Exec) frame(st *State, ct *Contract) {
	allowed := map[string][]*Term{}
	whole := map[string]bool{}
	type objPaths struct {
		key   string
		ref   *Term
		paths [][]int
	}
	var nested []*objPaths
	env := e.env(e.entry)
	env.old = e.entry
	for _, cl := range ct.clauses {
		if cl.kind == "modifies" {
			for _, l := range env.locs(cl.e) {
				if l.ref == nil {
					whole[l.key] = true
				} else {
					allowed[l.key] = append(allowed[l.key], l.ref)
					var o *objPaths
					for _, n := range nested {
						if n.key == l.key && n.ref == l.ref {
							o = n
						}
					}
					if o == nil {
						o = &objPaths{key: l.key, ref: l.ref}
						nested = append(nested, o)
					}
					o.paths = append(o.paths, l.path)
				}
			}
		}
	}
	for _, n := range nested {
		t := st.heap[n.key]
		old := e.entry.heap[n.key]
		if t == nil || t == old {
			continue
		}
		if old == nil {
			old = Var("H:"+n.key, t.Sort)
		}
		if Select(old, n.ref).Sort.Kind == SStruct {
			var fs []*Term
			siblings(Select(old, n.ref), Select(t, n.ref), n.paths, &fs)
			for _, f := range fs {
				e.emit(st, "frame", "frame inside "+n.key, f, nil, e.fn.Pos())
			}
		}
	}
	for _, key := range sortedKeys(st.heap) {
		t := st.heap[key]
		old := e.entry.heap[key]
		if old == nil {
			old = Var("H:"+key, t.Sort)
		}
		if t == old || whole[key] {
			continue
		}
		if t.Sort.Kind != SArr {
			e.emit(st, "frame", key+" is unchanged", Eq(t, old), nil, e.fn.Pos())
			continue
		}
		r := Fresh("frame", t.Sort.Key)
		s2 := st.clone()
		if t.Sort.Key == IntS {
			s2.assume(And(Lt(Zero, r), Lt(r, e.entry.wm)))
		} else {
			// keys that are boxes of references allocated later are free
			s2.assume(oldBox(r, e.entry.wm))
		}
		for _, a := range allowed[key] {
			s2.assume(Not(Eq(r, a)))
		}
		// store chain fast path
		ok := true
		x := t
		for x != old && ok {
			if x.Op != "store" {
				ok = false
				break
			}
			in := false
			for _, a := range allowed[key] {
				in = in || a == x.Args[1]
			}
			if k := x.Args[1]; !in && k.Sort.Kind == SInt && Le(e.entry.wm, k) == True {
				in = true
			}
			if k := x.Args[1]; !in && k.Op == "box" && k.Args[0].Sort.Kind == SInt && Le(e.entry.wm, k.Args[0]) == True {
				in = true
			}
			ok = in
			x = x.Args[0]
		}
		if ok {
			e.emit(st, "frame", "frame of "+key, True, nil, e.fn.Pos())
			continue
		}
		e.emit(s2, "frame", "frame of "+key, Eq(mk(&Term{Op: "select", Sort: t.Sort.Elem, Args: []*Term{t, r}}), Select(old, r)), nil, e.fn.Pos())
	}
}
