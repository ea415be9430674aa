package main

// encoding/gob: what Encode writes is an uninterpreted function of the value, leaf by leaf (a
// map by its contents); Decode gives each leaf as an uninterpreted function of the input. That
// decoding gives back what was encoded is gob's documented behaviour for types all of whose
// parts gob carries, which is checked here from the types of the program.

import (
	"go/types"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var devMu sync.Mutex

var GobS = &Sort{Kind: SOpaque, Name: "Gob"}

// gobLeaves lists the parts of a value by path.
func gobLeaves(st *State, v *Term, ty types.Type, path string, m map[string]*Term) {
	if isStruct(ty) {
		s := types.Unalias(ty).Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			p := s.Field(i).Name()
			if path != "" {
				p = path + "." + p
			}
			gobLeaves(st, Field(v, i), s.Field(i).Type(), p, m)
		}
		return
	}
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Map:
		m[path] = st.mapVal(v, u)
	case *types.Pointer, *types.Interface, *types.Chan, *types.Signature:
		panic(unsup("gob of %s", typeName(ty)))
	default:
		m[path] = v
	}
}

// gobImage is the value as gob carries it.
func gobImage(st *State, v *Term, ty types.Type) *Term {
	m := map[string]*Term{}
	gobLeaves(st, v, ty, "", m)
	name, as := "gob:{", []*Term{}
	for _, n := range sortedKeysT(m) {
		name += n + ":" + m[n].Sort.Name + " "
		as = append(as, m[n])
	}
	return App(name+"}", GobS, as...)
}

func sortedKeysT(m map[string]*Term) []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func gobGet(path string, s *Sort, content, pos *Term) *Term {
	return App("gob.get:"+path, base(s), content, pos)
}

// gobMake builds a value of the type from its parts.
func gobMake(st *State, ty types.Type, path string, leaf func(path string, s *Sort) *Term) *Term {
	if isStruct(ty) {
		s := types.Unalias(ty).Underlying().(*types.Struct)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			p := s.Field(i).Name()
			if path != "" {
				p = path + "." + p
			}
			as = append(as, gobMake(st, s.Field(i).Type(), p, leaf))
		}
		return MkStruct(sortOf(ty), as)
	}
	if u, ok := types.Unalias(ty).Underlying().(*types.Map); ok {
		r := st.newRef()
		st.setMap(r, u, leaf(path, mapSort(u)))
		return r
	}
	return leaf(path, sortOf(ty))
}

// gobCarries says whether gob carries every part of the values of the type.
func gobCarries(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && !inModule(p) {
			return typeName(t) == "time.Time"
		}
		for _, x := range []types.Type{t, types.NewPointer(t)} {
			ms := prog.MethodSets.MethodSet(x)
			for i := 0; i < ms.Len(); i++ {
				switch ms.At(i).Obj().Name() {
				case "GobEncode", "GobDecode", "MarshalBinary", "UnmarshalBinary", "MarshalText", "UnmarshalText":
					return false
				}
			}
		}
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsNumeric|types.IsString) != 0 && u.Kind() != types.Uintptr
	case *types.Slice:
		return gobCarries(u.Elem(), seen)
	case *types.Array:
		return gobCarries(u.Elem(), seen)
	case *types.Map:
		return gobCarries(u.Key(), seen) && gobCarries(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				return false
			}
			if _, ok := f.Type().Underlying().(*types.Interface); ok {
				if !gobHeld(u, i, seen) {
					return false
				}
			} else if !gobCarries(f.Type(), seen) {
				return false
			}
		}
		return u.NumFields() > 0
	}
	return false
}

// gobHeld says whether all types put into the interface field i of the structure are basic
// types or registered with gob.
func gobHeld(s *types.Struct, i int, seen map[types.Type]bool) bool {
	reg := map[string]bool{}
	each := func(f func(ssa.Instruction)) {
		for _, fn := range allFuncs {
			if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					f(in)
				}
			}
		}
	}
	held := map[types.Type]bool{}
	each(func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Call:
			if c := x.Call.StaticCallee(); c != nil && c.String() == "encoding/gob.Register" && isInit(x.Parent()) {
				if m, ok := x.Call.Args[0].(*ssa.MakeInterface); ok {
					reg[typeName(m.X.Type())] = true
				}
			}
		case *ssa.Store:
			a, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || a.Field != i {
				return
			}
			if types.Identical(derefT(a.X.Type()).Underlying(), s) {
				if m, ok := x.Val.(*ssa.MakeInterface); ok {
					held[m.X.Type()] = true
				}
			}
		}
	})
	for t := range held {
		if b, ok := t.(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsNumeric|types.IsString) != 0 {
			continue
		}
		if !reg[typeName(t)] || !gobCarries(t, seen) {
			return false
		}
	}
	return true
}

func isInit(f *ssa.Function) bool {
	return f.Name() == "init" || len(f.Name()) > 5 && f.Name()[:5] == "init#"
}

func init() {
	dev := map[string]map[*Term]*Term{"e": {}, "d": {}}
	open := func(kind string) libFn {
		return func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
			w := Fresh("wm", IntS)
			st.assume(Le(st.wm, w))
			st.wm = w
			r := st.newRef()
			devMu.Lock()
			dev[kind][r] = c.argT(e, st, 0)
			devMu.Unlock()
			k(st, []Val{r})
		}
	}
	at := func(kind string, c *LibCall) *Term {
		devMu.Lock()
		defer devMu.Unlock()
		r, _ := c.args[0].(*Term)
		if d := dev[kind][r]; d != nil {
			return d
		}
		panic(unsup("gob: unknown encoder or decoder"))
	}
	libFuncs["encoding/gob.NewEncoder"] = open("e")
	libFuncs["encoding/gob.NewDecoder"] = open("d")
	libFuncs["encoding/gob.(*Encoder).Encode"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		w := at("e", c)
		var v *Term
		var ty types.Type
		if i, ok := c.args[1].(*Iface); ok {
			ty = i.typ
			if p, ok := i.v.(*Ptr); ok {
				ty = p.elemType()
				v = e.term(st, e.load(st, p), ty)
			} else {
				v = e.term(st, i.v, ty)
			}
		} else if d := st.simpVal(c.argT(e, st, 1)); d.Op == "box" && boxType[d.Name] != nil {
			v, ty = d.Args[0], boxType[d.Name]
		}
		if v == nil {
			panic(unsup("gob of an unknown value"))
		}
		if v.Sort == RefS {
			if _, ok := types.Unalias(ty).Underlying().(*types.Pointer); ok {
				ty = derefT(ty)
				v = st.loadRef(v, ty)
			}
		}
		e.emit(st, "gob", "every part of the value is carried", Bool(gobCarries(ty, map[types.Type]bool{})), nil, c.pos())
		img := gobImage(st, v, ty)
		was := st.ghost("Out", w)
		e.fork(st, App("gob.encodes", BoolS, img, was), func(st *State) {
			st.setGhost("Out", w, Cat(was, App("gob.bytes", u8Seq(), img)))
			k(st, []Val{Nil})
		}, func(st *State) {
			st.setGhost("Out", w, Fresh("out", u8Seq()))
			k(st, []Val{errVal()})
		})
	}
	libFuncs["encoding/gob.(*Decoder).Decode"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		r := at("d", c)
		var p *Ptr
		switch d := c.args[1].(type) {
		case *Iface:
			p, _ = d.v.(*Ptr)
			if t, ok := d.v.(*Term); ok {
				p = &Ptr{ref: t, root: derefT(d.typ)}
			}
		case *Term:
			if d.Op == "box" && boxType[d.Name] != nil {
				p = &Ptr{ref: d.Args[0], root: derefT(boxType[d.Name])}
			}
		}
		if p == nil {
			panic(unsup("gob target"))
		}
		ty := p.elemType()
		e.emit(st, "gob", "every part of the value is carried", Bool(gobCarries(ty, map[types.Type]bool{})), nil, c.pos())
		// gob leaves alone what is not in the input: exact for a target of zeros
		empty := e.term(st, e.load(st, p), ty) == zeroTerm(ty)
		from, q := st.pos(r), Fresh("pos", IntS)
		content := contentOf(r)
		moved := func(st *State) {
			st.assume(Le(from, q))
			st.setGhost("Pos", r, q)
		}
		e.fork(st, App("gob.ok", BoolS, content, from), func(st *State) {
			moved(st)
			e.store(st, p, gobMake(st, ty, "", func(path string, s *Sort) *Term {
				if !empty {
					return Fresh("part", base(s))
				}
				return gobGet(path, s, content, from)
			}))
			k(st, []Val{Nil})
		}, func(st *State) {
			moved(st)
			e.store(st, p, gobMake(st, ty, "", func(path string, s *Sort) *Term { return Fresh("part", base(s)) }))
			k(st, []Val{errVal()})
		})
	}
}
