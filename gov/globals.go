package main

// Package variables.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var repoDir string

type globInfo struct {
	val  Val
	err  string
	lit  *Term      // contents of a map literal
	mt   *types.Map // its type
	done bool
}

var globCache = map[*ssa.Global]*globInfo{}
var globMaps = map[*Term]*Term{}

func globName(g *ssa.Global) string {
	return strings.ReplaceAll(strings.ReplaceAll(g.RelString(nil), modPath+"/internal/", ""), modPath+"/cmd/", "")
}

func globConst(name string, s *Sort) *Term { return App("glob:"+name, s) }

func extGlobal(name string) *Term { return App("glob:"+name, RefS) }

func (e *Exec) loadGlobal(st *State, p *Ptr) Val {
	g := p.glob
	gi := e.globInfo(g)
	if gi.err != "" {
		panic(unsup("package variable %s: %s", globName(g), gi.err))
	}
	v := gi.val
	if t, ok := v.(*Term); ok {
		if sortOf(derefT(g.Type())) == RefS && t != Zero {
			st.assume(Lt(Zero, t))
			if e.entry != nil {
				st.assume(Lt(t, e.entry.wm))
			} else {
				st.assume(Lt(t, st.wm))
			}
		}
		if len(p.path) > 0 {
			return e.loaded(st, walk(t, p.path), p.elemType())
		}
	} else if len(p.path) > 0 {
		panic(unsup("part of package variable %s", globName(g)))
	}
	return v
}

func (e *Exec) storeGlobal(st *State, p *Ptr, v Val) {
	panic(unsup("write to package variable %s", globName(p.glob)))
}

func (e *Exec) globInfo(g *ssa.Global) *globInfo {
	if gi := globCache[g]; gi != nil {
		return gi
	}
	gi := &globInfo{}
	globCache[g] = gi
	ty := derefT(g.Type())
	name := globName(g)
	if g.Pkg == nil || !inModule(g.Pkg.Pkg) {
		s := sortOf(ty)
		if s == AnyS {
			gi.val = Box("*errors.err", App("glob:"+name, IntS))
		} else {
			gi.val = App("glob:"+name, s)
		}
		return gi
	}
	var stores []*ssa.Store
	for _, f := range allFuncs {
		if f.Pkg == nil || !inModule(f.Pkg.Pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(g) {
							stores = append(stores, x)
							if f.Name() != "init" {
								gi.err = "assigned in " + f.Name()
							}
						} else {
							gi.err = "address taken"
						}
					case *ssa.UnOp:
						if m, ok := ty.Underlying().(*types.Map); ok {
							_ = m
							for _, r := range *x.Referrers() {
								switch r := r.(type) {
								case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
								case *ssa.Call:
									if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
										gi.err = "map passed on"
									}
								default:
									gi.err = "map used in " + r.String()
								}
							}
						}
					case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.DebugRef:
					default:
						gi.err = "used in " + in.String()
					}
				}
			}
		}
	}
	if gi.err != "" {
		return gi
	}
	if len(stores) > 1 {
		gi.err = "assigned more than once"
		return gi
	}
	s := sortOf(ty)
	if len(stores) == 0 {
		// zero value or go:embed content
		if s == StrS {
			gi.val = App("glob:"+name, StrS)
		} else {
			gi.val = zeroTerm(ty)
		}
		return gi
	}
	v := stores[0].Val
	switch x := v.(type) {
	case *ssa.Const:
		gi.val = e.constant(x)
		return gi
	case *ssa.Function:
		gi.val = &FnVal{fn: x}
		return gi
	case *ssa.MakeMap:
		m := ty.Underlying().(*types.Map)
		lit := MapEmp(mapSort(m))
		ok := true
		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.MapUpdate:
				k, kok := e.staticVal(u.Key)
				w, wok := e.staticVal(u.Value)
				if !kok || !wok {
					ok = false
					break
				}
				lit = MapPut(lit, k, w)
			case *ssa.Store, *ssa.DebugRef:
			default:
				ok = false
			}
		}
		if !ok {
			gi.err = "map literal with computed entries"
			return gi
		}
		ref := App("glob:"+name, RefS)
		gi.val = ref
		gi.lit, gi.mt = lit, m
		globMaps[ref] = lit
		return gi
	}
	if t, ok := e.staticVal(v); ok {
		gi.val = t
		return gi
	}
	gi.val = App("glob:"+name, s)
	return gi
}

func (e *Exec) staticVal(v ssa.Value) (*Term, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		t, ok := e.constant(x).(*Term)
		return t, ok
	case *ssa.Function:
		return App("fn:"+funcKey(x), FnS), true
	case *ssa.ChangeType:
		return e.staticVal(x.X)
	case *ssa.MakeClosure:
		if len(x.Bindings) == 0 {
			return e.staticVal(x.Fn)
		}
	case *ssa.UnOp:
		// struct literal built in a temporary
	}
	return nil, false
}
