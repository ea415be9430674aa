package main

// html/template: templates are the texts parsed into them; what Execute prints is an
// uninterpreted function of these texts and of the data, field by field.

import (
	"go/types"
	"sort"
)

// trustedText says whether values of the type may hold text that html/template does not escape.
func trustedText(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "html/template" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if trustedText(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Slice:
		return trustedText(u.Elem(), seen)
	case *types.Array:
		return trustedText(u.Elem(), seen)
	case *types.Pointer:
		return trustedText(u.Elem(), seen)
	case *types.Map:
		return trustedText(u.Key(), seen) || trustedText(u.Elem(), seen)
	}
	return false
}

// htmlView is what a template sees of a value: the fields of a structure by name, the text
// behind a string type without methods, and so on.
func htmlView(v *Term, ty types.Type, esc func(types.Type)) *Term {
	if ty == nil {
		panic(unsup("template data of unknown type"))
	}
	if v.Sort == AnyS {
		if v.Op != "box" {
			return App("view:any", ViewS, v)
		}
		return htmlView(v.Args[0], boxType[v.Name], esc)
	}
	if lookupString(ty) != nil || lookupMethod(ty, "Error") != nil {
		return App("view:"+typeName(ty), ViewS, v)
	}
	esc(ty)
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Struct:
		fs := map[string]*Term{}
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); f.Exported() {
				fs[f.Name()] = htmlView(Field(v, i), f.Type(), esc)
			}
		}
		return viewFields(fs)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return App("view:string", ViewS, v)
		case u.Info()&types.IsInteger != 0:
			return App("view:int", ViewS, v)
		case u.Info()&types.IsBoolean != 0:
			return App("view:bool", ViewS, v)
		}
	case *types.Slice:
		return App("view:"+v.Sort.Name, ViewS, v)
	}
	return App("view:"+typeName(ty), ViewS, v)
}

var ViewS = &Sort{Kind: SOpaque, Name: "View"}

func viewFields(fs map[string]*Term) *Term {
	var ns []string
	for n := range fs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	name, as := "view:{", []*Term{}
	for _, n := range ns {
		name += n + " "
		as = append(as, fs[n])
	}
	return App(name+"}", ViewS, as...)
}

func init() {
	const T = "*html/template.Template"
	box := func(c *LibCall, e *Exec, st *State, i int) *Term {
		return boxed(T, c.fn.Signature.Recv().Type(), c.args[i].(*Term))
	}
	libFuncs["html/template.New"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		w := Fresh("wm", IntS)
		st.assume(Le(st.wm, w))
		st.wm = w
		r := st.newRef()
		b := boxed(T, c.fn.Signature.Results().At(0).Type(), r)
		e.newBox(st, b)
		st.setGhost("Tmpl", b, StrLit(""))
		k(st, []Val{r})
	}
	// Parse adds a text to the template and answers the template
	libFuncs["html/template.(*Template).Parse"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		b := box(c, e, st, 0)
		was, text := st.ghost("Tmpl", b), c.args[1].(*Term)
		e.fork(st, App("parses", BoolS, was, text), func(st *State) {
			st.setGhost("Tmpl", b, App("parsed", StrS, was, text))
			k(st, []Val{c.args[0], Nil})
		}, func(st *State) {
			st.setGhost("Tmpl", b, Fresh("tmpl", StrS))
			k(st, []Val{Zero, errVal()})
		})
	}
	libFuncs["html/template.(*Template).Execute"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		t := st.ghost("Tmpl", box(c, e, st, 0))
		w := c.argT(e, st, 1)
		d := st.simpVal(c.argT(e, st, 2))
		escapes := true
		v := htmlView(d, nil0(d), func(ty types.Type) { escapes = escapes && !trustedText(ty, map[types.Type]bool{}) })
		e.emit(st, "html", "all text is escaped", Bool(escapes), nil, c.pos())
		was := st.ghost("Txt", w)
		e.fork(st, App("executes", BoolS, t, v, was), func(st *State) {
			st.setGhost("Txt", w, strCat(was, App("page", StrS, t, v)))
			k(st, []Val{Nil})
		}, func(st *State) {
			st.setGhost("Txt", w, Fresh("txt", StrS))
			k(st, []Val{errVal()})
		})
	}
}

func nil0(d *Term) types.Type {
	if d.Op == "box" {
		return boxType[d.Name]
	}
	return types.Universe.Lookup("any").Type()
}
