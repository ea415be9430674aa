package main

// Mapping of Go types to sorts.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/danielleontiev/neojhat"

var (
	prog      *ssa.Program
	modPkgs   []*ssa.Package
	pkgByName = map[string]*ssa.Package{} // short name -> package of the module
	allFuncs  = map[string]*ssa.Function{}
)

func loadRepo(dir string) error {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	var ps []*ssa.Package
	prog, ps = ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	for _, p := range ps {
		if p == nil {
			continue
		}
		modPkgs = append(modPkgs, p)
		pkgByName[p.Pkg.Name()] = p
	}
	for f := range ssautil.AllFunctions(prog) {
		allFuncs[funcKey(f)] = f
	}
	// methods not reached by AllFunctions' reachability
	for _, p := range modPkgs {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				allFuncs[funcKey(f)] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							allFuncs[funcKey(f)] = f
						}
					}
				}
			}
		}
	}
	return nil
}

// funcKey: "core.NewSizeInfo", "core.(*RecordParser).ReadBytes", "core.SizeInfo.Of",
// for external functions the full path.
func funcKey(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/internal/", "")
	s = strings.ReplaceAll(s, modPath+"/cmd/", "")
	// (*core.T).M  -> core.(*T).M ; (core.T).M -> core.T.M
	if strings.HasPrefix(s, "(*") {
		if i := strings.Index(s, ")"); i > 0 {
			t := s[2:i]
			if j := strings.LastIndex(t, "."); j >= 0 {
				return t[:j] + ".(*" + t[j+1:] + ")" + s[i+1:]
			}
		}
	} else if strings.HasPrefix(s, "(") {
		if i := strings.Index(s, ")"); i > 0 {
			return s[1:i] + s[i+1:]
		}
	}
	return s
}

func inModule(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

func typeName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		if inModule(p) {
			return p.Name()
		}
		return p.Path()
	})
	return s
}

var immutable = map[string]bool{} // struct types whose pointers are immutable values
var structTy = map[*Sort]types.Type{}
var sortCache = map[string]*Sort{}

var RefS = &Sort{Kind: SInt, Name: "Int", Tag: "ref"}
var FnS = &Sort{Kind: SOpaque, Name: "Fn"}

func basicSort(b *types.Basic) *Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return BoolS
	case types.Int, types.Int64, types.UntypedInt:
		return RInt(64, true)
	case types.Int32, types.UntypedRune:
		return RInt(32, true)
	case types.Int16:
		return RInt(16, true)
	case types.Int8:
		return RInt(8, true)
	case types.Uint, types.Uint64, types.Uintptr:
		return RInt(64, false)
	case types.Uint32:
		return RInt(32, false)
	case types.Uint16:
		return RInt(16, false)
	case types.Uint8:
		return RInt(8, false)
	case types.String, types.UntypedString:
		return StrS
	case types.Float32, types.Float64, types.UntypedFloat:
		return FloatS
	}
	return nil
}

func sortOf(t types.Type) *Sort {
	switch u := t.(type) {
	case *ZT:
		return IntS
	case *MapValT:
		return mapSort(u.m)
	case *SpecStruct:
		if u.sort == nil {
			u.sort = &Sort{Kind: SStruct, Name: "spec." + u.name}
			for _, f := range u.fields {
				u.sort.Fields = append(u.sort.Fields, Fld{Name: f.name, Sort: sortOf(f.ty)})
			}
		}
		return u.sort
	case *types.Alias:
		return sortOf(types.Unalias(t))
	case *types.Named:
		name := typeName(t)
		if name == "time.Time" {
			return IntS
		}
		if name == "strings.Builder" || name == "bytes.Buffer" {
			return StrS
		}
		if st, ok := u.Underlying().(*types.Struct); ok {
			if s, ok := sortCache[name]; ok {
				return s
			}
			if !inModule(u.Obj().Pkg()) {
				s := &Sort{Kind: SOpaque, Name: "Ext_" + name}
				sortCache[name] = s
				return s
			}
			return structSort(name, t, st)
		}
		return sortOf(u.Underlying())
	case *types.Basic:
		s := basicSort(u)
		if s == nil {
			panic(unsup("type %s", typeName(t)))
		}
		return s
	case *types.Pointer:
		if immutable[typeName(u.Elem())] {
			return OptOf(sortOf(u.Elem()))
		}
		return RefS
	case *types.Slice:
		return SeqOf(sortOf(u.Elem()))
	case *types.Array:
		return SeqOf(sortOf(u.Elem()))
	case *types.Map, *types.Chan:
		return RefS
	case *types.Interface:
		return AnyS
	case *types.Signature:
		return FnS
	case *types.Struct:
		name := typeName(t)
		if s, ok := sortCache[name]; ok {
			return s
		}
		return structSort(name, t, u)
	}
	panic(unsup("type %s", typeName(t)))
}

func structSort(name string, t types.Type, st *types.Struct) *Sort {
	n := name
	if len(n) > 60 {
		n = fmt.Sprintf("struct%d", len(sortCache))
	}
	s := &Sort{Kind: SStruct, Name: n}
	sortCache[name] = s
	structTy[s] = t
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s.Fields = append(s.Fields, Fld{Name: f.Name(), Sort: sortOf(f.Type())})
	}
	return s
}

type unsupported struct{ msg string }

func unsup(format string, a ...any) unsupported { return unsupported{fmt.Sprintf(format, a...)} }

// zeroTerm is the zero value of a type.
func zeroTerm(t types.Type) *Term { return zeroOf(sortOf(t), t) }

func zeroOf(s *Sort, t types.Type) *Term {
	if t != nil && typeName(t) == "time.Time" {
		n, _ := new(big.Int).SetString("-62135596800000000000", 10)
		return BigInt(n)
	}
	switch s.Kind {
	case SInt:
		return Zero
	case SBool:
		return False
	case SSeq:
		if t != nil {
			if a, ok := types.Unalias(t).Underlying().(*types.Array); ok {
				return Zeros(s, Int(a.Len()), zeroTerm(a.Elem()))
			}
		}
		return Emp(s)
	case SAny:
		return Nil
	case SOpt:
		return OptNil(s)
	case SOpaque:
		if s == StrS {
			return StrLit("")
		}
		return Var("zero:"+s.Name, s)
	case SStruct:
		st := structTy[s].Underlying().(*types.Struct)
		var args []*Term
		for i, f := range s.Fields {
			args = append(args, zeroOf(f.Sort, st.Field(i).Type()))
		}
		return MkStruct(s, args)
	}
	panic(unsup("zero of %s", s.Name))
}

func mapSort(m *types.Map) *Sort { return MapOf(sortOf(m.Key()), sortOf(m.Elem())) }

// parseType parses a type expression of the contract language.
func parseType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(parseType(s[2:]))
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(parseType(s[1:]))
	case strings.HasPrefix(s, "mapv["):
		return &MapValT{parseType(s[:3] + s[4:]).(*types.Map)}
	case strings.HasPrefix(s, "map["):
		d, i := 1, 4
		for ; d > 0; i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
			}
		}
		return types.NewMap(parseType(s[4:i-1]), parseType(s[i:]))
	}
	if st, ok := specStructs[s]; ok {
		return st
	}
	switch s {
	case "Z":
		return zT
	case "any":
		return types.Universe.Lookup("any").Type()
	case "error":
		return types.Universe.Lookup("error").Type()
	case "time":
		return timeType()
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.LastIndex(s, "."); i > 0 {
		if p := pkgByName[s[:i]]; p != nil {
			if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
		// a library package
		for _, p := range prog.AllPackages() {
			if p.Pkg.Name() == s[:i] || p.Pkg.Path() == s[:i] {
				if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
					if _, ok := o.(*types.TypeName); ok {
						return o.Type()
					}
				}
			}
		}
	}
	panic(specErr("unknown type %s", s))
}

var timeTy types.Type

func timeType() types.Type {
	if timeTy == nil {
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == "time" {
				timeTy = p.Pkg.Scope().Lookup("Time").Type()
			}
		}
	}
	return timeTy
}

type specError struct{ msg string }

func (e specError) Error() string { return e.msg }
func specErr(f string, a ...any) specError {
	return specError{fmt.Sprintf(f, a...)}
}

// sameShape compares types, seeing through types declared inside functions.
func sameShape(a, b types.Type) bool {
	a, b = stripLocal(a), stripLocal(b)
	if types.Identical(a, b) {
		return true
	}
	switch x := a.(type) {
	case *types.Slice:
		y, ok := b.(*types.Slice)
		return ok && sameShape(x.Elem(), y.Elem())
	case *types.Map:
		y, ok := b.(*types.Map)
		return ok && sameShape(x.Key(), y.Key()) && sameShape(x.Elem(), y.Elem())
	case *types.Pointer:
		y, ok := b.(*types.Pointer)
		return ok && sameShape(x.Elem(), y.Elem())
	}
	return false
}

func stripLocal(t types.Type) types.Type {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if o := n.Obj(); o.Pkg() != nil && o.Parent() != nil && o.Parent() != o.Pkg().Scope() {
			return n.Underlying()
		}
	}
	return t
}
