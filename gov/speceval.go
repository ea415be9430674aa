package main

// Evaluation of specification expressions in a symbolic state, and registration of
// specification functions, folds, orders, axioms and lemmas.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

type TV struct {
	t  *Term
	ty types.Type
}

type Env struct {
	e          *Exec
	st, old    *State
	vars       map[string]TV
	lets       map[string]*Expr
	metas      map[string]TV
	entryMetas map[string]TV
	loopEntry  *State
	iter       *Term
	over       TV
	outer      []*Term
}

type nilT struct{}

func (nilT) Underlying() types.Type { return nilT{} }
func (nilT) String() string         { return "nil" }

func (e *Exec) env(st *State) *Env {
	en := &Env{e: e, st: st, old: e.entry, vars: map[string]TV{}, lets: map[string]*Expr{}}
	for n, v := range e.params {
		en.vars[n] = v
	}
	for _, c := range e.c.clauses {
		if c.kind == "let" {
			en.lets[c.name] = c.e
		}
	}
	return en
}

func (en *Env) sub() *Env {
	n := *en
	n.vars = cpm(en.vars)
	return &n
}

func boolTV(t *Term) TV { return TV{t, types.Typ[types.Bool]} }
func intTV(t *Term) TV  { return TV{t, zT} }

// coerce converts a value to an expected type (boxing, nil).
func coerce(v TV, ty types.Type) *Term {
	if _, ok := v.ty.(nilT); ok {
		return zeroTerm(ty)
	}
	s := sortOf(ty)
	if s == AnyS && v.t.Sort != AnyS {
		boxType[typeName(v.ty)] = v.ty
		return Box(typeName(v.ty), v.t)
	}
	if base(s) != base(v.t.Sort) {
		panic(specErr("type mismatch: %s where %s expected", v.t.Sort.Name, s.Name))
	}
	return v.t
}

func (en *Env) bool(x *Expr) *Term {
	v := en.eval(x)
	if v.t.Sort != BoolS {
		panic(specErr("%s: boolean expected", x.pos))
	}
	return v.t
}

func (en *Env) int(x *Expr) *Term {
	v := en.eval(x)
	if v.t.Sort.Kind != SInt {
		panic(specErr("%s: integer expected", x.pos))
	}
	return v.t
}

func elemOf(ty types.Type) types.Type {
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func mapOf(ty types.Type) *types.Map {
	if m, ok := ty.(*MapValT); ok {
		return m.m
	}
	m, _ := types.Unalias(ty).Underlying().(*types.Map)
	return m
}

func (en *Env) mapVal(v TV) (*Term, *types.Map) {
	m := mapOf(v.ty)
	if m == nil {
		panic(specErr("map expected, have %s", v.ty))
	}
	if _, ok := v.ty.(*MapValT); ok {
		return v.t, m
	}
	return en.st.mapVal(v.t, m), m
}

func (en *Env) field(v TV, name string, pos string) TV {
	if ss, ok := v.ty.(*SpecStruct); ok {
		for i, f := range ss.fields {
			if f.name == name {
				return TV{Field(v.t, i), f.ty}
			}
		}
		panic(specErr("%s: no field %s in %s", pos, name, ss.name))
	}
	var pkg *types.Package
	bt := types.Unalias(v.ty)
	if p, ok := bt.(*types.Pointer); ok {
		bt = types.Unalias(p.Elem())
	}
	if n, ok := bt.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(v.ty, true, pkg, name)
	fv, ok := obj.(*types.Var)
	if !ok {
		panic(specErr("%s: no field %s in %s", pos, name, v.ty))
	}
	_ = fv
	cur := v
	for _, i := range path {
		ty := types.Unalias(cur.ty)
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			st := p.Elem().Underlying().(*types.Struct)
			if cur.t.Sort.Kind == SOpt {
				cur = TV{Field(OptVal(cur.t), i), st.Field(i).Type()}
			} else {
				if en.st == nil {
					panic(specErr("%s: heap access in a pure function", pos))
				}
				cur = TV{en.st.loadField(cur.t, p.Elem(), i), st.Field(i).Type()}
			}
			continue
		}
		st := ty.Underlying().(*types.Struct)
		cur = TV{Field(cur.t, i), st.Field(i).Type()}
	}
	return cur
}

func (en *Env) eval(x *Expr) TV {
	switch x.op {
	case "int":
		n, ok := new(big.Int).SetString(strings.ReplaceAll(x.name, "_", ""), 0)
		if !ok {
			panic(specErr("%s: bad number", x.pos))
		}
		return intTV(BigInt(n))
	case "str":
		return TV{StrLit(x.name), types.Typ[types.String]}
	case "meta":
		v, ok := en.metas[x.name]
		if !ok {
			panic(specErr("%s: unknown metavariable ?%s", x.pos, x.name))
		}
		return v
	case "name":
		return en.name(x)
	case "call":
		return en.call(x)
	case "index":
		if x.args[0].op == "name" {
			if g := ghosts[x.args[0].name]; g != nil {
				if _, shadow := en.vars[x.args[0].name]; !shadow {
					return TV{en.st.ghost(g.name, coerce(en.eval(x.args[1]), g.key)), g.val}
				}
			}
		}
		v := en.eval(x.args[0])
		if mapOf(v.ty) != nil {
			m, mt := en.mapVal(v)
			return TV{MapGet(m, coerce(en.eval(x.args[1]), mt.Key())), mt.Elem()}
		}
		i := en.int(x.args[1])
		if v.t.Sort == StrS {
			return TV{strByte(v.t, i), types.Typ[types.Uint8]}
		}
		if v.t.Sort.Kind != SSeq {
			panic(specErr("%s: index of %s", x.pos, v.ty))
		}
		return TV{SeqAt(v.t, i), elemOf(v.ty)}
	case "slice":
		v := en.eval(x.args[0])
		a := en.int(x.args[1])
		if v.t.Sort == StrS {
			b := strLen(v.t)
			if len(x.args) > 2 {
				b = en.int(x.args[2])
			}
			return TV{strSub(v.t, a, b), v.ty}
		}
		b := SeqLen(v.t)
		if len(x.args) > 2 {
			b = en.int(x.args[2])
		}
		return TV{SubSeq(v.t, a, b), v.ty}
	case "field":
		if x.args[0].op == "name" {
			if p := pkgByName[x.args[0].name]; p != nil {
				if _, shadow := en.vars[x.args[0].name]; !shadow {
					o := p.Pkg.Scope().Lookup(x.name)
					if c, ok := o.(*types.Const); ok {
						return constTV(c)
					}
					panic(specErr("%s: %s.%s is not a constant", x.pos, x.args[0].name, x.name))
				}
			}
		}
		return en.field(en.eval(x.args[0]), x.name, x.pos)
	case "un":
		if x.name == "!" {
			return boolTV(Not(en.bool(x.args[0])))
		}
		return intTV(Neg(en.int(x.args[0])))
	case "bin":
		return en.bin(x)
	case "if":
		c := en.bool(x.args[0])
		if c == True {
			return en.eval(x.args[1])
		}
		if c == False {
			return en.eval(x.args[2])
		}
		a, b := en.eval(x.args[1]), en.eval(x.args[2])
		if _, ok := a.ty.(nilT); ok {
			return TV{Ite(c, zeroTerm(b.ty), b.t), b.ty}
		}
		if _, ok := b.ty.(nilT); ok {
			return TV{Ite(c, a.t, zeroTerm(a.ty)), a.ty}
		}
		ty := a.ty
		if ty == zT {
			ty = b.ty
		}
		if a.t.Sort == AnyS || b.t.Sort == AnyS {
			at := types.Universe.Lookup("any").Type()
			return TV{Ite(c, coerce(a, at), coerce(b, at)), at}
		}
		if base(a.t.Sort) != base(b.t.Sort) {
			panic(specErr("%s: branches differ: %s / %s", x.pos, a.t.Sort.Name, b.t.Sort.Name))
		}
		return TV{Ite(c, a.t, b.t), ty}
	case "let":
		n := en.sub()
		n.vars[x.name] = en.eval(x.args[0])
		return n.eval(x.args[1])
	case "lit":
		return en.lit(x)
	case "forall", "exists":
		n := en.sub()
		var vs []*Term
		for i, nm := range x.strs {
			ty := parseType(x.typs[i])
			v := BVar(fmt.Sprintf("%s!%d", nm, qCount), sortOf(ty))
			qCount++
			vs = append(vs, v)
			n.vars[nm] = TV{v, ty}
		}
		body := n.bool(x.args[0])
		var trig [][]*Term
		for _, ts := range x.trig {
			var tt []*Term
			for _, t := range ts {
				tt = append(tt, n.eval(t).t)
			}
			trig = append(trig, tt)
		}
		if x.op == "forall" {
			return boolTV(Forall(vs, trig, body))
		}
		return boolTV(Exists(vs, body))
	case "type":
		return TV{nil, parseType(x.name)}
	}
	panic(specErr("%s: cannot evaluate %s", x.pos, x.op))
}

var qCount int

func constTV(c *types.Const) TV {
	switch c.Val().Kind() {
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
		return TV{BigInt(n), c.Type()}
	case constant.String:
		return TV{StrLit(constant.StringVal(c.Val())), c.Type()}
	case constant.Bool:
		return TV{Bool(constant.BoolVal(c.Val())), c.Type()}
	}
	panic(specErr("constant %s", c.Name()))
}

func (en *Env) name(x *Expr) TV {
	if v, ok := en.vars[x.name]; ok {
		return v
	}
	if l, ok := en.lets[x.name]; ok {
		return en.eval(l)
	}
	switch x.name {
	case "true":
		return boolTV(True)
	case "false":
		return boolTV(False)
	case "nil":
		return TV{nil, nilT{}}
	case "iter":
		if en.iter == nil {
			panic(specErr("%s: iter outside an invariant", x.pos))
		}
		return intTV(en.iter)
	case "over":
		if en.over.t == nil {
			panic(specErr("%s: not in a loop over a map", x.pos))
		}
		return en.over
	case "outeriter":
		if len(en.outer) == 0 {
			panic(specErr("%s: no outer loop", x.pos))
		}
		return intTV(en.outer[len(en.outer)-1])
	}
	if g := ghosts[x.name]; g != nil && g.key == nil {
		return TV{en.st.ghost(g.name, nil), g.val}
	}
	if d := macros[x.name]; d != nil && len(d.params) == 0 {
		return en.eval(d.body)
	}
	if d := specFuns[x.name]; d != nil && len(d.params) == 0 {
		return TV{App("s:"+d.name, sortOf(d.res)), d.res}
	}
	panic(specErr("%s: unknown name %s", x.pos, x.name))
}

func (en *Env) bin(x *Expr) TV {
	switch x.name {
	case "&&":
		a := en.bool(x.args[0])
		if a == False {
			return boolTV(False)
		}
		return boolTV(And(a, en.bool(x.args[1])))
	case "||":
		a := en.bool(x.args[0])
		if a == True {
			return boolTV(True)
		}
		return boolTV(Or(a, en.bool(x.args[1])))
	case "==>":
		a := en.bool(x.args[0])
		if a == False {
			return boolTV(True)
		}
		return boolTV(Imp(a, en.bool(x.args[1])))
	case "<==>":
		return boolTV(Eq(en.bool(x.args[0]), en.bool(x.args[1])))
	case "==", "!=":
		a, b := en.eval(x.args[0]), en.eval(x.args[1])
		_, an := a.ty.(nilT)
		_, bn := b.ty.(nilT)
		var r *Term
		switch {
		case an:
			r = Eq(zeroTerm(b.ty), b.t)
		case bn:
			r = Eq(a.t, zeroTerm(a.ty))
		case a.t.Sort == AnyS && b.t.Sort != AnyS:
			r = Eq(a.t, coerce(b, a.ty))
		case b.t.Sort == AnyS && a.t.Sort != AnyS:
			r = Eq(coerce(a, b.ty), b.t)
		default:
			if base(a.t.Sort) != base(b.t.Sort) {
				panic(specErr("%s: comparing %s and %s", x.pos, a.t.Sort.Name, b.t.Sort.Name))
			}
			r = Eq(a.t, b.t)
		}
		if x.name == "!=" {
			r = Not(r)
		}
		return boolTV(r)
	case "++":
		a, b := en.eval(x.args[0]), en.eval(x.args[1])
		if a.t.Sort == StrS {
			return TV{strCat(a.t, b.t), a.ty}
		}
		return TV{Cat(a.t, b.t), a.ty}
	}
	a, b := en.int(x.args[0]), en.int(x.args[1])
	switch x.name {
	case "<":
		return boolTV(Lt(a, b))
	case "<=":
		return boolTV(Le(a, b))
	case ">":
		return boolTV(Lt(b, a))
	case ">=":
		return boolTV(Le(b, a))
	case "+":
		return intTV(Add(a, b))
	case "-":
		return intTV(Sub(a, b))
	case "*":
		return intTV(Mul(a, b))
	case "/":
		return intTV(goDivT(a, b))
	case "%":
		return intTV(Sub(a, Mul(b, goDivT(a, b))))
	}
	panic(specErr("%s: operator %s", x.pos, x.name))
}

// goDivT is division truncated toward zero.
func goDivT(a, b *Term) *Term {
	al, _ := Rng(a)
	bl, _ := Rng(b)
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() > 0 {
		return Div(a, b)
	}
	if bl != nil && bl.Sign() > 0 {
		return Ite(Le(Zero, a), Div(a, b), Neg(Div(Neg(a), b)))
	}
	return App("quo", IntS, a, b)
}

func (en *Env) lit(x *Expr) TV {
	ty := parseType(x.name)
	given := map[string]*Expr{}
	for i, n := range x.strs {
		given[n] = x.args[i]
	}
	s := sortOf(ty)
	var as []*Term
	if ss, ok := ty.(*SpecStruct); ok {
		for _, f := range ss.fields {
			g, ok := given[f.name]
			if !ok {
				panic(specErr("%s: field %s missing", x.pos, f.name))
			}
			as = append(as, coerce(en.eval(g), f.ty))
			delete(given, f.name)
		}
	} else {
		st := ty.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if g, ok := given[f.Name()]; ok {
				as = append(as, coerce(en.eval(g), f.Type()))
				delete(given, f.Name())
			} else {
				as = append(as, zeroTerm(f.Type()))
			}
		}
	}
	for n := range given {
		panic(specErr("%s: no field %s in %s", x.pos, n, x.name))
	}
	return TV{MkStruct(s, as), ty}
}

func exprType(x *Expr) string {
	switch x.op {
	case "type", "name":
		return x.name
	case "field":
		return exprType(x.args[0]) + "." + x.name
	}
	panic(specErr("%s: type expected", x.pos))
}

var specBuiltins map[string]func(en *Env, x *Expr) TV

func init() {
	u8s := func() types.Type { return types.NewSlice(types.Typ[types.Uint8]) }
	be := func(n int) func(en *Env, x *Expr) TV {
		return func(en *Env, x *Expr) TV {
			return TV{beTerm(en.eval(x.args[0]).t, en.int(x.args[1]), n), zT}
		}
	}
	specBuiltins = map[string]func(en *Env, x *Expr) TV{
		"old": func(en *Env, x *Expr) TV {
			n := *en
			n.st = en.old
			return n.eval(x.args[0])
		},
		"entry": func(en *Env, x *Expr) TV {
			if en.loopEntry == nil {
				panic(specErr("%s: entry outside an invariant", x.pos))
			}
			n := *en
			n.st = en.loopEntry
			n.metas = en.entryMetas
			return n.eval(x.args[0])
		},
		"len": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			if v.t.Sort == StrS {
				return intTV(strLen(v.t))
			}
			if mapOf(v.ty) != nil {
				m, _ := en.mapVal(v)
				return intTV(MapCard(m))
			}
			return intTV(SeqLen(v.t))
		},
		"card": func(en *Env, x *Expr) TV {
			m, _ := en.mapVal(en.eval(x.args[0]))
			return intTV(MapCard(m))
		},
		"sub": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			return TV{SubSeq(v.t, en.int(x.args[1]), en.int(x.args[2])), v.ty}
		},
		"supd": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			return TV{SUpd(v.t, en.int(x.args[1]), coerce(en.eval(x.args[2]), elemOf(v.ty))), v.ty}
		},
		"snoc": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			return TV{Snoc(v.t, coerce(en.eval(x.args[1]), elemOf(v.ty))), v.ty}
		},
		"emp": func(en *Env, x *Expr) TV {
			ty := parseType(exprType(x.args[0]))
			if m, ok := ty.(*MapValT); ok {
				return TV{MapEmp(mapSort(m.m)), ty}
			}
			return TV{Emp(sortOf(ty)), ty}
		},
		"zero": func(en *Env, x *Expr) TV {
			ty := parseType(exprType(x.args[0]))
			return TV{zeroTerm(ty), ty}
		},
		"seq": func(en *Env, x *Expr) TV {
			ty := parseType(exprType(x.args[0]))
			var es []*Term
			for _, a := range x.args[1:] {
				es = append(es, coerce(en.eval(a), elemOf(ty)))
			}
			return TV{SeqLit(sortOf(ty), es...), ty}
		},
		"mv": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			m, mt := en.mapVal(v)
			return TV{m, &MapValT{mt}}
		},
		"has": func(en *Env, x *Expr) TV {
			m, mt := en.mapVal(en.eval(x.args[0]))
			return boolTV(MapHas(m, coerce(en.eval(x.args[1]), mt.Key())))
		},
		"get": func(en *Env, x *Expr) TV {
			m, mt := en.mapVal(en.eval(x.args[0]))
			return TV{MapGet(m, coerce(en.eval(x.args[1]), mt.Key())), mt.Elem()}
		},
		// getz: Go's map read (zero value if absent)
		"getz": func(en *Env, x *Expr) TV {
			m, mt := en.mapVal(en.eval(x.args[0]))
			k := coerce(en.eval(x.args[1]), mt.Key())
			return TV{Ite(MapHas(m, k), MapGet(m, k), zeroTerm(mt.Elem())), mt.Elem()}
		},
		"put": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			m, mt := en.mapVal(v)
			return TV{MapPut(m, coerce(en.eval(x.args[1]), mt.Key()), coerce(en.eval(x.args[2]), mt.Elem())), &MapValT{mt}}
		},
		"keys": func(en *Env, x *Expr) TV {
			m, mt := en.mapVal(en.eval(x.args[0]))
			return TV{enumTerm(m, Zero), types.NewSlice(mt.Key())}
		},
		"box": func(en *Env, x *Expr) TV {
			at := types.Universe.Lookup("any").Type()
			if len(x.args) == 2 {
				ty := parseType(exprType(x.args[0]))
				return TV{coerce(TV{en.eval(x.args[1]).t, ty}, at), at}
			}
			return TV{coerce(en.eval(x.args[0]), at), at}
		},
		"is": func(en *Env, x *Expr) TV {
			ty := parseType(exprType(x.args[1]))
			boxType[typeName(ty)] = ty
			return boolTV(Is(en.eval(x.args[0]).t, typeName(ty), sortOf(ty)))
		},
		"as": func(en *Env, x *Expr) TV {
			ty := parseType(exprType(x.args[1]))
			boxType[typeName(ty)] = ty
			return TV{Unbox(en.eval(x.args[0]).t, typeName(ty), sortOf(ty)), ty}
		},
		"some": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			pt := types.NewPointer(v.ty)
			return TV{OptSome(sortOf(pt), v.t), pt}
		},
		"deref": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			el := derefT(v.ty)
			if v.t.Sort.Kind == SOpt {
				return TV{OptVal(v.t), el}
			}
			return TV{en.st.loadRef(v.t, el), el}
		},
		"wrap": func(en *Env, x *Expr) TV {
			ty := parseType(exprType(x.args[0]))
			b, s := intInfo(ty)
			return TV{Wrap(en.int(x.args[1]), b, s), ty}
		},
		"cast": func(en *Env, x *Expr) TV {
			return TV{en.eval(x.args[1]).t, parseType(exprType(x.args[0]))}
		},
		"with": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			n := x.args[1].name
			if ss, ok := v.ty.(*SpecStruct); ok {
				for i, f := range ss.fields {
					if f.name == n {
						return TV{Upd(v.t, i, coerce(en.eval(x.args[2]), f.ty)), v.ty}
					}
				}
			}
			if st, ok := v.ty.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == n {
						return TV{Upd(v.t, i, coerce(en.eval(x.args[2]), st.Field(i).Type())), v.ty}
					}
				}
			}
			panic(specErr("%s: with: no field %s", x.pos, n))
		},
		"be2": be(2), "be4": be(4), "be8": be(8),
		"i8":  func(en *Env, x *Expr) TV { return TV{Wrap(en.int(x.args[0]), 8, true), types.Typ[types.Int8]} },
		"i16": func(en *Env, x *Expr) TV { return TV{Wrap(en.int(x.args[0]), 16, true), types.Typ[types.Int16]} },
		"i32": func(en *Env, x *Expr) TV { return TV{Wrap(en.int(x.args[0]), 32, true), types.Typ[types.Int32]} },
		"i64": func(en *Env, x *Expr) TV { return TV{Wrap(en.int(x.args[0]), 64, true), types.Typ[types.Int64]} },
		"enc8": func(en *Env, x *Expr) TV {
			return TV{beEnc(en.int(x.args[0]), 8), u8s()}
		},
		"str": func(en *Env, x *Expr) TV {
			return TV{bytesToStr(en.eval(x.args[0]).t), types.Typ[types.String]}
		},
		"itoa": func(en *Env, x *Expr) TV {
			return TV{itoa(en.int(x.args[0])), types.Typ[types.String]}
		},
		"runes": func(en *Env, x *Expr) TV {
			return TV{strRunes(en.eval(x.args[0]).t), types.NewSlice(types.Typ[types.Int32])}
		},
		"runestr": func(en *Env, x *Expr) TV {
			return TV{App("runestr", StrS, en.int(x.args[0])), types.Typ[types.String]}
		},
		"repeat": func(en *Env, x *Expr) TV {
			return TV{App("repeat", StrS, en.eval(x.args[0]).t, en.int(x.args[1])), types.Typ[types.String]}
		},
		"strfn": func(en *Env, x *Expr) TV { // strfn("name", args...) library string function
			var as []*Term
			for _, a := range x.args[1:] {
				as = append(as, en.eval(a).t)
			}
			return TV{App(x.args[0].name, StrS, as...), types.Typ[types.String]}
		},
		"bit": func(en *Env, x *Expr) TV { // bit(n, 2^k): bit k of n in two's complement
			n, p := en.eval(x.args[0]).t, en.eval(x.args[1]).t
			return TV{Eq(Mod(Div(n, p), Int(2)), One), types.Typ[types.Bool]}
		},
		"real": func(en *Env, x *Expr) TV { // real("fmul", x, y): floating point operation; integers are converted
			var as []*Term
			for _, a := range x.args[1:] {
				t := en.eval(a).t
				if t.Op == "int" {
					t = App("flt:"+t.N.String(), FloatS)
				} else if t.Sort.Kind == SInt {
					t = App("i2f", FloatS, t)
				}
				as = append(as, t)
			}
			n := x.args[0].name
			switch n {
			case "i2f":
				return TV{as[0], types.Typ[types.Float64]}
			case "flt", "fle", "fgt", "fge":
				return TV{App(n, BoolS, as...), types.Typ[types.Bool]}
			case "f2i:int":
				return TV{App(n, RInt(64, true), as...), types.Typ[types.Int]}
			}
			return TV{App(n, FloatS, as...), types.Typ[types.Float64]}
		},
		"view": func(en *Env, x *Expr) TV { // view(v): what a template sees of v
			v := en.eval(x.args[0])
			return TV{htmlView(v.t, v.ty, func(types.Type) {}), zT}
		},
		"fields": func(en *Env, x *Expr) TV { // fields(name, view, ...): what a template sees of a structure
			fs := map[string]*Term{}
			for i := 0; i+1 < len(x.args); i += 2 {
				fs[x.args[i].name] = en.eval(x.args[i+1]).t
			}
			return TV{viewFields(fs), zT}
		},
		"gobimage": func(en *Env, x *Expr) TV { // gobimage(v): v as gob carries it
			v := en.eval(x.args[0])
			return TV{gobImage(en.st, v.t, v.ty), zT}
		},
		"gobbytes": func(en *Env, x *Expr) TV { // gobbytes(v): what Encode writes for v
			v := en.eval(x.args[0])
			return TV{App("gob.bytes", u8Seq(), gobImage(en.st, v.t, v.ty)), types.NewSlice(types.Typ[types.Uint8])}
		},
		"gobread": func(en *Env, x *Expr) TV { // gobread(v, content, p): v is what Decode makes of the content from p on
			v, c, p := en.eval(x.args[0]), en.eval(x.args[1]).t, en.eval(x.args[2]).t
			m := map[string]*Term{}
			gobLeaves(en.st, v.t, v.ty, "", m)
			var cs []*Term
			for _, n := range sortedKeysT(m) {
				cs = append(cs, Eq(m[n], gobGet(n, m[n].Sort, c, p)))
			}
			return TV{And(cs...), types.Typ[types.Bool]}
		},
		"boxed": func(en *Env, x *Expr) TV { // the interface value holding x
			a := types.NewInterfaceType(nil, nil)
			return TV{coerce(en.eval(x.args[0]), a), a}
		},
		"callof": func(en *Env, x *Expr) TV { // callof(f): what the function f answers
			f := en.eval(x.args[0])
			sig := f.ty.Underlying().(*types.Signature)
			rt := sig.Results().At(0).Type()
			return TV{App("call:"+sigName(sig), sortOf(rt), f.t), rt}
		},
		"intfn": func(en *Env, x *Expr) TV {
			var as []*Term
			for _, a := range x.args[1:] {
				as = append(as, en.eval(a).t)
			}
			return TV{App(x.args[0].name, IntS, as...), zT}
		},
		"boolfn": func(en *Env, x *Expr) TV {
			var as []*Term
			for _, a := range x.args[1:] {
				as = append(as, en.eval(a).t)
			}
			return TV{App(x.args[0].name, BoolS, as...), types.Typ[types.Bool]}
		},
		"strless": func(en *Env, x *Expr) TV {
			return boolTV(strLt(en.eval(x.args[0]).t, en.eval(x.args[1]).t))
		},
		"f32": func(en *Env, x *Expr) TV {
			return TV{App("f32bits", FloatS, en.int(x.args[0])), types.Typ[types.Float32]}
		},
		"f64": func(en *Env, x *Expr) TV {
			return TV{App("f64bits", FloatS, en.int(x.args[0])), types.Typ[types.Float64]}
		},
		"sorted": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[1])
			return TV{App("sorted:"+x.args[0].name, v.t.Sort, v.t), v.ty}
		},
		"sortedKeys": func(en *Env, x *Expr) TV {
			panic(specErr("sortedKeys"))
		},
		"extglob": func(en *Env, x *Expr) TV { // value of an external package variable, boxed
			at := types.Universe.Lookup("any").Type()
			return TV{Box(x.args[1].name, extGlobal(x.args[0].name)), at}
		},
		"fresh": func(en *Env, x *Expr) TV { // allocated during the call
			v := en.eval(x.args[0])
			return boolTV(And(Le(en.old.wm, v.t), Lt(v.t, en.st.wm)))
		},
		"made": func(en *Env, x *Expr) TV { // an error of fmt.Errorf or errors.New
			return boolTV(Is(en.eval(x.args[0]).t, "*errors.made", IntS))
		},
		"allocd": func(en *Env, x *Expr) TV {
			v := en.eval(x.args[0])
			return boolTV(And(Lt(Zero, v.t), Lt(v.t, en.st.wm)))
		},
		"repovar": func(en *Env, x *Expr) TV {
			return TV{globConst(x.args[0].name, StrS), types.Typ[types.String]}
		},
	}
}

func (en *Env) call(x *Expr) TV {
	if d := macros[x.name]; d != nil {
		if len(d.params) != len(x.args) {
			panic(specErr("%s: %s needs %d arguments", x.pos, x.name, len(d.params)))
		}
		n := *en
		n.vars = map[string]TV{}
		n.lets = nil
		for i, p := range d.params {
			n.vars[p] = en.eval(x.args[i])
		}
		return n.eval(d.body)
	}
	if d := specFuns[x.name]; d != nil {
		return TV{en.app(d.name, d.params, d.ptypes, d.res, x), d.res}
	}
	if d := folds[x.name]; d != nil {
		return TV{en.app(d.name, d.params, d.ptypes, d.res, x), d.res}
	}
	if o := orders[x.name]; o != nil {
		n := *en
		n.vars = map[string]TV{o.a: en.eval(x.args[0]), o.b: en.eval(x.args[1])}
		n.lets = nil
		return n.eval(o.ast)
	}
	if b := specBuiltins[x.name]; b != nil {
		return b(en, x)
	}
	panic(specErr("%s: unknown function %s", x.pos, x.name))
}

func (en *Env) app(name string, ps []string, pt []types.Type, res types.Type, x *Expr) *Term {
	if len(x.args) != len(ps) {
		panic(specErr("%s: %s needs %d arguments", x.pos, name, len(ps)))
	}
	var as []*Term
	for i, a := range x.args {
		as = append(as, coerce(en.eval(a), pt[i]))
	}
	return App("s:"+name, sortOf(res), as...)
}

// ---- registration ---------------------------------------------------------------

func pureEnv() *Env { return &Env{e: nil, vars: map[string]TV{}} }

func bparam(fn, n string, ty types.Type) *Term {
	return BVar("p!"+fn+"!"+n, sortOf(ty))
}

// registerSpecs turns the parsed specification functions into unfoldable definitions.
func registerSpecs() {
	for _, k := range sortedKeys(specFuns) {
		d := specFuns[k]
		u := &UFun{Name: "s:" + d.name, Res: sortOf(d.res)}
		en := pureEnv()
		for i, p := range d.params {
			b := bparam(d.name, p, d.ptypes[i])
			u.Params = append(u.Params, b)
			en.vars[p] = TV{b, d.ptypes[i]}
		}
		ufuns[u.Name] = u
		if d.body != nil {
			b := en.eval(d.body)
			u.Body = coerce(b, d.res)
		}
		if n := len(u.Params) - 1; d.eval && n >= 0 {
			appSimp[u.Name] = func(_ *Sort, a []*Term) *Term {
				if a[n].Op != "int" || !a[n].N.IsInt64() || a[n].N.Int64() > 24 || a[n].N.Sign() < 0 || u.Body == nil {
					return nil
				}
				m := map[*Term]*Term{}
				for i, p := range u.Params {
					m[p] = a[i]
				}
				return Subst(u.Body, m)
			}
		}
	}
	for _, k := range sortedKeys(folds) {
		registerFold(folds[k])
	}
	for _, a := range pendingAxioms {
		b := pureEnv().bool(a.e)
		axioms = append(axioms, &Axiom{Name: a.name, Body: b, Needs: appNames(b)})
		trustedAx = append(trustedAx, a.name)
	}
}

func appNames(t *Term) []string {
	seen := map[string]bool{}
	var r []string
	for _, x := range collectGround([]*Term{t}) {
		if x.Op == "app" && !seen[x.Name] && strings.HasPrefix(x.Name, "s:") {
			seen[x.Name] = true
			r = append(r, x.Name)
		}
	}
	return r
}

func registerFold(d *FoldDecl) {
	el := elemOf(d.ptypes[0])
	res := sortOf(d.res)
	name := "s:" + d.name
	apply := func(as []*Term) *Term { return App(name, res, as...) }
	bind := func(as []*Term) *Env {
		en := pureEnv()
		for i := 1; i < len(d.params); i++ {
			en.vars[d.params[i]] = TV{as[i], d.ptypes[i]}
		}
		return en
	}
	initT := func(as []*Term) *Term { return coerce(bind(as).eval(d.initE), d.res) }
	stepT := func(as []*Term, acc, x *Term) *Term {
		en := bind(as)
		en.vars[d.acc] = TV{acc, d.res}
		en.vars[d.x] = TV{x, el}
		return coerce(en.eval(d.step), d.res)
	}
	with := func(as []*Term, s *Term) []*Term {
		n := append([]*Term{}, as...)
		n[0] = s
		return n
	}
	if d.comm {
		commFolds[name] = true
	}
	if d.lenPres {
		seqLenFn[name] = func(t *Term) *Term { return SeqLen(t.Args[0]) }
	}
	appSimp[name] = func(s *Sort, a []*Term) *Term {
		x := a[0]
		if d.comm {
			for x.Op == "app" && strings.HasPrefix(x.Name, "sorted:") {
				x = x.Args[0]
			}
			if x.Op == "app" && strings.HasPrefix(x.Name, "enum:") && x.Args[1] != Zero {
				x = enumTerm(x.Args[0], Zero)
			}
			if x != a[0] {
				return apply(with(a, x))
			}
		}
		switch x.Op {
		case "emp":
			return initT(a)
		case "snoc":
			return stepT(a, apply(with(a, x.Args[0])), x.Args[1])
		}
		return nil
	}
	unfoldFn[name] = func(t *Term) []*Term {
		x := t.Args[0]
		var fs []*Term
		if x.Op == "sub" && x.Args[1] == Zero {
			s, e := x.Args[0], x.Args[2]
			pe := Sub(e, One)
			fs = append(fs, Imp(Le(e, Zero), Eq(t, initT(t.Args))))
			inst := func() *Term {
				return Imp(And(Lt(Zero, e), Le(e, SeqLen(s))), Eq(t, stepT(t.Args, apply(with(t.Args, SubSeq(s, Zero, pe))), SeqAt(s, pe))))
			}
			fs = append(fs, inst())
			fs = append(fs, Imp(Eq(e, SeqLen(s)), Eq(x, s)))
			if d.comm {
				fs = append(fs, Imp(Eq(e, SeqLen(s)), Eq(t, apply(with(t.Args, s)))))
			}
		} else {
			fs = append(fs, Imp(Eq(SeqLen(x), Zero), Eq(t, initT(t.Args))))
		}
		return fs
	}
	// quantified fallback for appended sequences
	sv := BVar("fs!"+d.name, sortOf(d.ptypes[0]))
	xv := BVar("fx!"+d.name, sortOf(el))
	as := []*Term{sv}
	vs := []*Term{sv, xv}
	for i := 1; i < len(d.params); i++ {
		b := BVar("fp!"+d.name+"!"+d.params[i], sortOf(d.ptypes[i]))
		as = append(as, b)
		vs = append(vs, b)
	}
	sn := mk(&Term{Op: "snoc", Sort: sv.Sort, Args: []*Term{sv, xv}})
	raw := mk(&Term{Op: "app", Name: name, Sort: base(res), Args: with(as, sn)})
	axioms = append(axioms, &Axiom{Name: "fold " + d.name, Needs: []string{name}, Body: Forall(vs, [][]*Term{{raw}}, Eq(raw, stepT(as, apply(as), xv)))})
}

var commFolds = map[string]bool{}

// unfoldFn gives extra ground facts about an application.
var unfoldFn = map[string]func(t *Term) []*Term{}

// commCheck yields the obligations that the folds declared commutative are.
func commObligs() []*Oblig {
	var obs []*Oblig
	for _, k := range sortedKeys(folds) {
		d := folds[k]
		if !d.comm {
			continue
		}
		el := elemOf(d.ptypes[0])
		en := pureEnv()
		for i := 1; i < len(d.params); i++ {
			en.vars[d.params[i]] = TV{Fresh("cp", sortOf(d.ptypes[i])), d.ptypes[i]}
		}
		acc := Fresh("cacc", sortOf(d.res))
		x, y := Fresh("cx", sortOf(el)), Fresh("cy", sortOf(el))
		step := func(a, x *Term) *Term {
			n := en.sub()
			n.vars[d.acc] = TV{a, d.res}
			n.vars[d.x] = TV{x, el}
			return coerce(n.eval(d.step), d.res)
		}
		obs = append(obs, &Oblig{fn: "fold " + d.name, kind: "lemma", label: "step is commutative", goal: Eq(step(step(acc, x), y), step(step(acc, y), x)), depth: 1})
	}
	return obs
}

// lemmaObligs returns the proof obligations of the lemmas and registers them as axioms.
func lemmaObligs() []*Oblig {
	var obs []*Oblig
	for _, l := range lemmas {
		en := pureEnv()
		var vs []*Term
		cs := map[string]TV{}
		hs := map[string]TV{}
		var hv []*Term
		for i, p := range l.params {
			s := sortOf(l.ptypes[i])
			b := BVar("lm!"+l.name+"!"+p, s)
			vs = append(vs, b)
			en.vars[p] = TV{b, l.ptypes[i]}
			cs[p] = TV{freshVal("lc_"+p, s), l.ptypes[i]}
			h := BVar("lh!"+l.name+"!"+p, s)
			hv = append(hv, h)
			hs[p] = TV{h, l.ptypes[i]}
		}
		trigOf := func(vars map[string]TV) [][]*Term {
			n := pureEnv()
			n.vars = vars
			var r [][]*Term
			for _, tr := range l.trigs {
				var tt []*Term
				for _, t := range tr {
					tt = append(tt, n.eval(t).t)
				}
				r = append(r, tt)
			}
			return r
		}
		ce := pureEnv()
		ce.vars = cs
		goal := ce.bool(l.concl)
		var hyps []*Term
		if l.ind != "" {
			he := pureEnv()
			he.vars = hs
			m := func(v TV) *Term {
				if v.t.Sort.Kind == SSeq {
					return SeqLen(v.t)
				}
				return v.t
			}
			hyps = append(hyps, Forall(hv, trigOf(hs), Imp(And(Le(Zero, m(hs[l.ind])), Lt(m(hs[l.ind]), m(cs[l.ind]))), he.bool(l.concl))))
			// direct instance at the predecessor
			pv := cpm(cs)
			c := cs[l.ind]
			if c.t.Sort.Kind == SSeq {
				n1 := Sub(SeqLen(c.t), One)
				ini := SubSeq(c.t, Zero, n1)
				pv[l.ind] = TV{ini, c.ty}
				pe := pureEnv()
				pe.vars = pv
				hyps = append(hyps, Imp(Lt(Zero, SeqLen(c.t)), And(pe.bool(l.concl),
					Eq(c.t, Snoc(ini, SeqAt(c.t, n1))))))
			}
			if c.t.Sort.Kind == SInt {
				pv[l.ind] = TV{Sub(c.t, One), c.ty}
				pe := pureEnv()
				pe.vars = pv
				hyps = append(hyps, Imp(Lt(Zero, c.t), pe.bool(l.concl)))
			}
		}
		ob := &Oblig{fn: "lemma " + l.name, kind: "lemma", label: l.name, goal: goal, hyps: hyps, depth: 2, props: l.props}
		// only earlier lemmas may be used
		usedAx = map[string]bool{}
		ob.pre = SMT(ob.hyps, ob.goal, false, ob.depth)
		l.uses, usedAx = usedAx, map[string]bool{}
		l.ob = ob
		obs = append(obs, ob)
		tr := trigOf(en.vars)
		var needs []string
		seen := map[string]bool{}
		for _, ts := range tr {
			for _, t := range ts {
				for _, n := range appNames(t) {
					if !seen[n] {
						seen[n] = true
						needs = append(needs, n)
					}
				}
			}
		}
		// used by obligations registered after it
		l.axiom = &Axiom{Name: "lemma " + l.name, Body: Forall(vs, tr, en.bool(l.concl)), Needs: needs, ground: l.ground}
		if len(l.trigs) > 0 {
			axioms = append(axioms, l.axiom)
		}
	}
	return obs
}
