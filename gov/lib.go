package main

// Models of the library functions the repository calls. Each is an assumption and is listed
// as such in the evidence.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type LibCall struct {
	fn     *ssa.Function
	args   []Val
	common *ssa.CallCommon
	key    string
}

type libFn func(e *Exec, st *State, c *LibCall, k func(st *State, rets []Val))

var libFuncs = map[string]libFn{}
var libInvoke = map[string]libFn{}

var anyTy types.Type

// an error made by fmt.Errorf or errors.New: newly allocated, so none of the libraries' error variables
func madeErr() *Term { return Box("*errors.made", Fresh("err", IntS)) }
func errVal() *Term  { return Box("*errors.err", Fresh("err", IntS)) }

func (c *LibCall) pos() token.Pos {
	if c.common != nil {
		return c.common.Pos()
	}
	return token.NoPos
}

func (c *LibCall) argT(e *Exec, st *State, i int) *Term {
	if t, ok := c.args[i].(*Term); ok {
		return st.permuted(t)
	}
	var ty types.Type
	if c.common != nil {
		sig := c.common.Signature()
		j := i
		if c.common.IsInvoke() || sig.Recv() != nil {
			j--
		}
		if j >= 0 && j < sig.Params().Len() {
			ty = sig.Params().At(j).Type()
		} else if j < 0 && sig.Recv() != nil {
			ty = sig.Recv().Type()
		}
	}
	return e.term(st, c.args[i], ty)
}

// ---- readers -------------------------------------------------------------------------

func contentOf(r *Term) *Term { return App("s:content", u8Seq(), r) }

// what the readers made by bufio.NewReader deliver
var contentAlias sync.Map

// newBox says that a new reader is none of the existing objects.
func (e *Exec) newBox(st *State, box *Term) {
	old := map[*Term]bool{}
	for x := st.heap["G:Pos"]; x != nil && x.Op == "store"; x = x.Args[0] {
		old[x.Args[1]] = true
	}
	ks := append([]*Term{}, e.allowedRefs("G:Pos")...)
	for k := range old {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		st.assume(Not(Eq(k, box)))
	}
}

func init() {
	appSimp["s:content"] = func(_ *Sort, a []*Term) *Term {
		if len(a) == 1 {
			if t, ok := contentAlias.Load(a[0]); ok {
				return t.(*Term)
			}
		}
		return nil
	}
}

func (st *State) pos(r *Term) *Term {
	p := st.ghost("Pos", r)
	st.assume(Le(Zero, p))
	return p
}

// readN models reading exactly n bytes.
func (e *Exec) readN(st *State, r, n *Term, ok func(st *State, data *Term), fail func(st *State)) {
	p := st.pos(r)
	c := contentOf(r)
	end := Add(p, n)
	cond := Le(end, SeqLen(c))
	if lo, _ := st.rng(n); lo == nil || lo.Sign() <= 0 {
		cond = Or(Eq(n, Zero), cond)
	}
	e.fork(st, cond, func(st *State) {
		st.setGhost("Pos", r, end)
		ok(st, SubSeq(c, p, end))
	}, func(st *State) {
		q := Fresh("pos", IntS)
		st.setGhost("Pos", r, q)
		st.assume(Le(p, q))
		fail(st)
	})
}

func boxed(tag string, ty types.Type, v *Term) *Term {
	if ty != nil {
		boxType[tag] = ty
	}
	return Box(tag, v)
}

func ioFail(st *State, w *Term) {
	if ghosts["IOFail"] != nil {
		st.setGhost("IOFail", w, Add(st.ghost("IOFail", w), One))
	}
}

func constStr(v Val) (string, bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != "strlit" {
		return "", false
	}
	return t.Name, true
}

func init() {
	libFuncs["io.ReadFull"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		r := c.argT(e, st, 0)
		buf, ok := c.args[1].(*BufSlice)
		if !ok {
			panic(unsup("io.ReadFull into a shared slice"))
		}
		n := Sub(buf.hi, buf.lo)
		e.emit(st, "nil", "reader is not nil", Not(Eq(r, Nil)), nil, c.pos())
		put := func(st *State, data *Term) {
			d := st.cells[buf.obj].(*Term)
			if st.frozen[buf.obj] {
				panic(unsup("read into a shared slice"))
			}
			st.cells[buf.obj] = Cat(Cat(SubSeq(d, Zero, buf.lo), data), SubSeq(d, buf.hi, SeqLen(d)))
		}
		e.readN(st, r, n, func(st *State, data *Term) {
			put(st, data)
			k(st, []Val{n, Nil})
		}, func(st *State) {
			g := Fresh("partial", u8Seq())
			st.assume(Eq(SeqLen(g), n))
			put(st, g)
			m := Fresh("nread", RInt(64, true))
			st.assume(And(Le(Zero, m), Lt(m, n)))
			k(st, []Val{m, errVal()})
		})
	}
	libFuncs["encoding/binary.Read"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		r := c.argT(e, st, 0)
		e.emit(st, "nil", "reader is not nil", Not(Eq(r, Nil)), nil, c.pos())
		var p *Ptr
		switch d := c.args[2].(type) {
		case *Iface:
			p, _ = d.v.(*Ptr)
			if t, ok := d.v.(*Term); ok {
				p = &Ptr{ref: t, root: derefT(d.typ)}
			}
		case *Term:
			if d.Op == "box" && boxType[d.Name] != nil {
				p = &Ptr{ref: d.Args[0], root: derefT(boxType[d.Name])}
			}
		}
		if p == nil {
			panic(unsup("binary.Read target"))
		}
		ty := p.elemType()
		b, ok := types.Unalias(ty).Underlying().(*types.Basic)
		if !ok {
			panic(unsup("binary.Read of %s", typeName(ty)))
		}
		order := c.args[1]
		little := false
		if it, ok := order.(*Term); ok && strings.Contains(it.String(), "LittleEndian") {
			little = true
		}
		size := map[types.BasicKind]int{types.Bool: 1, types.Uint8: 1, types.Int8: 1, types.Uint16: 2, types.Int16: 2, types.Uint32: 4, types.Int32: 4, types.Float32: 4, types.Uint64: 8, types.Int64: 8, types.Float64: 8}[b.Kind()]
		if size == 0 {
			panic(unsup("binary.Read of %s", typeName(ty)))
		}
		e.readN(st, r, Int(int64(size)), func(st *State, data *Term) {
			v := beTerm(data, Zero, size)
			if little && size > 1 {
				v = Zero
				for i := size - 1; i >= 0; i-- {
					v = Add(Mul(v, Int(256)), SeqAt(data, Int(int64(i))))
				}
			}
			switch {
			case b.Kind() == types.Bool:
				v = Not(Eq(v, Zero))
			case b.Kind() == types.Float32:
				v = App("f32bits", FloatS, v)
			case b.Kind() == types.Float64:
				v = App("f64bits", FloatS, v)
			case b.Info()&types.IsUnsigned == 0:
				v = Wrap(v, uint(8*size), true)
			}
			e.store(st, p, v)
			k(st, []Val{Nil})
		}, func(st *State) { k(st, []Val{errVal()}) })
	}
	beGet := func(n int) libFn {
		return func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
			b := c.args[len(c.args)-1]
			t := e.peekSlice(st, b)
			e.emit(st, "bounds", "buffer long enough", Le(Int(int64(n)), SeqLen(t)), nil, c.pos())
			k(st, []Val{beTerm(t, Zero, n)})
		}
	}
	libFuncs["encoding/binary.bigEndian.Uint64"] = beGet(8)
	libFuncs["encoding/binary.bigEndian.Uint32"] = beGet(4)
	libFuncs["encoding/binary.bigEndian.Uint16"] = beGet(2)
	libFuncs["encoding/binary.bigEndian.PutUint64"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		b, ok := c.args[len(c.args)-2].(*BufSlice)
		if !ok || st.frozen[b.obj] {
			panic(unsup("PutUint64 into a shared slice"))
		}
		v := c.args[len(c.args)-1].(*Term)
		e.emit(st, "bounds", "buffer long enough", Le(Int(8), Sub(b.hi, b.lo)), nil, c.pos())
		d := st.cells[b.obj].(*Term)
		st.cells[b.obj] = Cat(Cat(SubSeq(d, Zero, b.lo), beEnc(v, 8)), SubSeq(d, Add(b.lo, Int(8)), SeqLen(d)))
		k(st, nil)
	}
	libFuncs["encoding/binary.bigEndian.AppendUint64"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		b := c.argT(e, st, len(c.args)-2)
		v := c.args[len(c.args)-1].(*Term)
		if b.Op != "emp" {
			if st.app[b] {
				panic(unsup("two appends to the same slice"))
			}
			st.app[b] = true
		}
		k(st, []Val{Cat(b, beEnc(v, 8))})
	}
	libFuncs["bufio.NewReader"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		r := c.argT(e, st, 0)
		// a reference with a name of its own, so that its content can be rewritten
		w := Fresh("wm", IntS)
		st.assume(Le(st.wm, w))
		st.wm = w
		b := st.newRef()
		box := boxed("*bufio.Reader", c.fn.Signature.Results().At(0).Type(), b)
		st.assume(Not(Eq(r, box)))
		e.newBox(st, box)
		p := st.pos(r)
		if st.simp(Eq(p, Zero)) == True {
			p = Zero
		}
		cr := contentOf(r)
		contentAlias.Store(box, SubSeq(cr, p, SeqLen(cr)))
		// reads ahead
		q := Fresh("pos", IntS)
		st.assume(Le(p, q))
		st.setGhost("Pos", r, q)
		st.setGhost("Pos", box, Zero)
		st.setGhost("NoUnread", box, Zero)
		k(st, []Val{b})
	}
	libFuncs["bufio.(*Reader).Discard"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		b := c.argT(e, st, 0)
		r := boxed("*bufio.Reader", c.fn.Signature.Recv().Type(), b)
		n := c.args[1].(*Term)
		e.fork(st, Le(Zero, n), func(st *State) {
			e.readN(st, r, n, func(st *State, _ *Term) {
				st.setGhost("NoUnread", r, st.ghost("Pos", r))
				k(st, []Val{n, Nil})
			}, func(st *State) {
				st.setGhost("NoUnread", r, st.ghost("Pos", r))
				m := Fresh("nread", RInt(64, true))
				st.assume(And(Le(Zero, m), Lt(m, n)))
				k(st, []Val{m, errVal()})
			})
		}, func(st *State) { k(st, []Val{Zero, errVal()}) })
	}
	// possible exactly when something was read since the last Discard or UnreadByte
	libFuncs["bufio.(*Reader).UnreadByte"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		b := c.argT(e, st, 0)
		r := boxed("*bufio.Reader", c.fn.Signature.Recv().Type(), b)
		p := st.ghost("Pos", r)
		e.fork(st, Lt(st.ghost("NoUnread", r), p), func(st *State) {
			q := Sub(p, One)
			st.setGhost("Pos", r, q)
			st.setGhost("NoUnread", r, q)
			k(st, []Val{Nil})
		}, func(st *State) { k(st, []Val{errVal()}) })
	}
	libFuncs["io.CopyN"] = nil
	delete(libFuncs, "io.CopyN")
	libFuncs["bytes.NewReader"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		s := c.argT(e, st, 0)
		w := Fresh("wm", IntS)
		st.assume(Le(st.wm, w))
		st.wm = w
		b := st.newRef()
		box := boxed("*bytes.Reader", c.fn.Signature.Results().At(0).Type(), b)
		contentAlias.Store(box, s)
		e.newBox(st, box)
		st.setGhost("Pos", box, Zero)
		k(st, []Val{b})
	}
	seek := func(e *Exec, st *State, r, off, wh *Term, k func(*State, []Val)) {
		if wh != Zero {
			panic(unsup("Seek with whence other than SeekStart"))
		}
		ok := App("s:seekok", BoolS, r, off)
		if r.Op == "box" && r.Name == "*bytes.Reader" {
			ok = True
		}
		e.fork(st, And(Le(Zero, off), ok), func(st *State) {
			st.setGhost("Pos", r, off)
			k(st, []Val{off, Nil})
		}, func(st *State) {
			q := Fresh("pos", IntS)
			st.assume(Le(Zero, q))
			st.setGhost("Pos", r, q)
			k(st, []Val{Zero, errVal()})
		})
	}
	libInvoke["Seek"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		seek(e, st, c.argT(e, st, 0), c.args[1].(*Term), c.args[2].(*Term), k)
	}
	libFuncs["bytes.(*Reader).Seek"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		r := boxed("*bytes.Reader", c.fn.Signature.Recv().Type(), c.argT(e, st, 0))
		seek(e, st, r, c.args[1].(*Term), c.args[2].(*Term), k)
	}
	libInvoke["ReadAt"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		r := c.argT(e, st, 0)
		buf, ok := c.args[1].(*BufSlice)
		if !ok || st.frozen[buf.obj] {
			panic(unsup("ReadAt into a shared slice"))
		}
		off := c.args[2].(*Term)
		n := Sub(buf.hi, buf.lo)
		ct := contentOf(r)
		put := func(st *State, data *Term) {
			d := st.cells[buf.obj].(*Term)
			st.cells[buf.obj] = Cat(Cat(SubSeq(d, Zero, buf.lo), data), SubSeq(d, buf.hi, SeqLen(d)))
		}
		e.fork(st, And(Le(Zero, off), Le(Add(off, n), SeqLen(ct))), func(st *State) {
			put(st, SubSeq(ct, off, Add(off, n)))
			k(st, []Val{n, Nil})
		}, func(st *State) {
			g := Fresh("partial", u8Seq())
			st.assume(Eq(SeqLen(g), n))
			put(st, g)
			m := Fresh("nread", RInt(64, true))
			st.assume(And(Le(Zero, m), Lt(m, n)))
			k(st, []Val{m, errVal()})
		})
	}
	// ---- writers
	libInvoke["Write"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		w := c.argT(e, st, 0)
		d := e.peekSlice(st, c.args[1])
		ok := Fresh("writeok", BoolS)
		e.fork(st, ok, func(st *State) {
			st.setGhost("Out", w, Cat(st.ghost("Out", w), d))
			k(st, []Val{SeqLen(d), Nil})
		}, func(st *State) {
			g := Fresh("written", u8Seq())
			st.setGhost("Out", w, Cat(st.ghost("Out", w), g))
			m := Fresh("nwritten", RInt(64, true))
			ioFail(st, w)
			k(st, []Val{m, errVal()})
		})
	}
	libInvoke["Close"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		w := c.argT(e, st, 0)
		if g := ghosts["Closed"]; g != nil {
			st.setGhost("Closed", w, Add(st.ghost("Closed", w), One))
		}
		e.fork(st, Fresh("closeok", BoolS), func(st *State) { k(st, []Val{Nil}) }, func(st *State) { ioFail(st, w); k(st, []Val{errVal()}) })
	}
	libInvoke["Error"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{App("errtext", StrS, c.argT(e, st, 0))})
	}
	libFuncs["fmt.Errorf"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) { k(st, []Val{madeErr()}) }
	libFuncs["errors.New"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) { k(st, []Val{madeErr()}) }
	libFuncs["errors.Is"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		a, b := c.argT(e, st, 0), c.argT(e, st, 1)
		r := Fresh("errIs", BoolS)
		st.assume(Imp(Eq(a, b), r))
		st.assume(Imp(And(Eq(a, Nil), Not(Eq(b, Nil))), Not(r)))
		k(st, []Val{r})
	}
	// ---- text
	libFuncs["fmt.Sprintf"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		e.sprintf(st, c.args[0], c.args[1], func(st *State, s *Term) { k(st, []Val{s}) })
	}
	libFuncs["fmt.Sprint"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		e.sprint(st, c.args[0], false, func(st *State, s *Term) { k(st, []Val{s}) })
	}
	libFuncs["fmt.Sprintln"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		e.sprint(st, c.args[0], true, func(st *State, s *Term) { k(st, []Val{s}) })
	}
	libFuncs["fmt.Fprintf"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		w := c.argT(e, st, 0)
		e.sprintf(st, c.args[1], c.args[2], func(st *State, s *Term) { e.emitText(st, w, s); k(st, []Val{Fresh("n", RInt(64, true)), Nil}) })
	}
	libFuncs["fmt.Fprint"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		w := c.argT(e, st, 0)
		e.sprint(st, c.args[1], false, func(st *State, s *Term) { e.emitText(st, w, s); k(st, []Val{Fresh("n", RInt(64, true)), Nil}) })
	}
	libFuncs["fmt.Fprintln"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		w := c.argT(e, st, 0)
		e.sprint(st, c.args[1], true, func(st *State, s *Term) { e.emitText(st, w, s); k(st, []Val{Fresh("n", RInt(64, true)), Nil}) })
	}
	libFuncs["io.WriteString"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		e.emitText(st, c.argT(e, st, 0), c.argT(e, st, 1))
		k(st, []Val{Fresh("n", RInt(64, true)), Nil})
	}
	stdout := func() *Term { return Box("*os.File", extGlobal("os.Stdout")) }
	libFuncs["fmt.Printf"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		e.sprintf(st, c.args[0], c.args[1], func(st *State, s *Term) { e.emitText(st, stdout(), s); k(st, []Val{Fresh("n", RInt(64, true)), Nil}) })
	}
	libFuncs["fmt.Println"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		e.sprint(st, c.args[0], true, func(st *State, s *Term) { e.emitText(st, stdout(), s); k(st, []Val{Fresh("n", RInt(64, true)), Nil}) })
	}
	libFuncs["fmt.Print"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		e.sprint(st, c.args[0], false, func(st *State, s *Term) { e.emitText(st, stdout(), s); k(st, []Val{Fresh("n", RInt(64, true)), Nil}) })
	}
	libFuncs["strings.Repeat"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		n := c.args[1].(*Term)
		e.emit(st, "bounds", "strings.Repeat count not negative", Le(Zero, n), nil, c.pos())
		k(st, []Val{App("repeat", StrS, c.args[0].(*Term), n)})
	}
	libFuncs["strings.Join"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{App("join", StrS, e.peekSlice(st, c.args[0]), c.args[1].(*Term))})
	}
	libFuncs["strings.ReplaceAll"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{App("replace", StrS, c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term))})
	}
	appSimp["replace"] = func(_ *Sort, a []*Term) *Term {
		if a[0].Op == "strlit" && a[1].Op == "strlit" && a[2].Op == "strlit" {
			return StrLit(strings.ReplaceAll(a[0].Name, a[1].Name, a[2].Name))
		}
		if a[0].Op == "app" && a[0].Name == "replace" && a[0].Args[1] == a[1] && a[0].Args[2] == a[2] && a[1].Op == "strlit" && a[2].Op == "strlit" &&
			len(a[1].Name) == 1 && !strings.Contains(a[2].Name, a[1].Name) {
			return a[0] // nothing is left to replace
		}
		return nil
	}
	libFuncs["strings.TrimSpace"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{App("trim", StrS, c.args[0].(*Term))})
	}
	libFuncs["strings.HasPrefix"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{App("hasprefix", BoolS, c.args[0].(*Term), c.args[1].(*Term))})
	}
	appSimp["hasprefix"] = func(_ *Sort, a []*Term) *Term {
		if a[1].Op != "strlit" {
			return nil
		}
		if a[0].Op == "ite" {
			return Ite(a[0].Args[0], App("hasprefix", BoolS, a[0].Args[1], a[1]), App("hasprefix", BoolS, a[0].Args[2], a[1]))
		}
		f, p := a[0], a[1].Name
		for f.Op == "app" && f.Name == "strcat" {
			f = f.Args[0]
		}
		if f.Op == "strlit" && (f == a[0] || len(f.Name) >= len(p) || !strings.HasPrefix(p, f.Name)) {
			return Bool(strings.HasPrefix(f.Name, p))
		}
		if f == a[0] && len(p) <= 16 {
			// the first bytes of the text
			c := []*Term{Le(Int(int64(len(p))), strLen(f))}
			for i := 0; i < len(p); i++ {
				c = append(c, Eq(SeqAt(strToBytes(f), Int(int64(i))), Int(int64(p[i]))))
			}
			return And(c...)
		}
		return nil
	}
	libFuncs["unicode/utf8.RuneCountInString"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{SeqLen(strRunes(c.args[0].(*Term)))})
	}
	libFuncs["strconv.Itoa"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{itoa(c.args[0].(*Term))})
	}
	// ---- time: instants are nanoseconds since the epoch
	i9 := Int(1000000000)
	libFuncs["time.Unix"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{Add(Mul(c.args[0].(*Term), i9), c.args[1].(*Term))})
	}
	libFuncs["time.UnixMilli"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{Mul(c.args[0].(*Term), Int(1000000))})
	}
	libFuncs["time.Time.Add"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{Add(c.args[0].(*Term), c.args[1].(*Term))})
	}
	libFuncs["time.Time.Sub"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		d := Sub(c.args[0].(*Term), c.args[1].(*Term))
		mn, mx := typeRange(64, true)
		r := Ite(Lt(d, BigInt(mn)), BigInt(mn), Ite(Lt(BigInt(mx), d), BigInt(mx), d))
		k(st, []Val{r})
	}
	libFuncs["time.Duration.String"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{App("durstr", StrS, c.args[0].(*Term))})
	}
	libFuncs["time.Time.String"] = func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) {
		k(st, []Val{App("timestr", StrS, c.args[0].(*Term))})
	}
	srt := func(e *Exec, st *State, c *LibCall, k func(*State, []Val)) { e.sortSlice(st, c, k) }
	libFuncs["sort.Slice"] = srt
	libFuncs["sort.SliceStable"] = srt
}

func (e *Exec) emitText(st *State, w, s *Term) {
	st.setGhost("Txt", w, strCat(st.ghost("Txt", w), s))
}

// peekSlice reads the content of a slice without sharing it.
func (e *Exec) peekSlice(st *State, v Val) *Term {
	switch x := v.(type) {
	case *BufSlice:
		c, ok := st.cells[x.obj].(*Term)
		if !ok {
			panic(unsup("slice of promoted array"))
		}
		return SubSeq(c, x.lo, x.hi)
	case *Term:
		return st.permuted(x)
	}
	panic(unsup("slice value %T", v))
}

// variadic returns the operands passed as ...any.
func (e *Exec) variadic(st *State, v Val) []*Term {
	t := e.peekSlice(st, v)
	xs, ok := seqElems(t)
	if !ok {
		panic(unsup("operands passed as a slice"))
	}
	return xs
}

func (e *Exec) sprint(st *State, args Val, ln bool, k func(*State, *Term)) {
	xs := e.variadic(st, args)
	var rec func(st *State, i int, acc *Term)
	rec = func(st *State, i int, acc *Term) {
		if i == len(xs) {
			if ln {
				acc = strCat(acc, StrLit("\n"))
			}
			k(st, acc)
			return
		}
		if i > 0 {
			isS := func(t *Term) bool { return t.Op == "box" && t.Name == "string" }
			if ln || !isS(xs[i]) && !isS(xs[i-1]) {
				acc = strCat(acc, StrLit(" "))
			}
		}
		e.format(st, "%v", xs[i], func(st *State, s *Term) { rec(st, i+1, strCat(acc, s)) })
	}
	rec(st, 0, StrLit(""))
}

func (e *Exec) sprintf(st *State, f Val, args Val, k func(*State, *Term)) {
	fs, ok := constStr(f)
	if !ok {
		panic(unsup("format string is not constant"))
	}
	xs := e.variadic(st, args)
	// split into pieces
	type piece struct {
		lit  string
		verb string
	}
	var ps []piece
	i := 0
	lit := ""
	for i < len(fs) {
		if fs[i] != '%' {
			lit += string(fs[i])
			i++
			continue
		}
		if i+1 < len(fs) && fs[i+1] == '%' {
			lit += "%"
			i += 2
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			panic(unsup("format %q", fs))
		}
		ps = append(ps, piece{lit, fs[i : j+1]})
		lit = ""
		i = j + 1
	}
	nv := len(ps)
	if nv != len(xs) {
		panic(unsup("format %q with %d operands", fs, len(xs)))
	}
	var rec func(st *State, i int, acc *Term)
	rec = func(st *State, i int, acc *Term) {
		if i == len(ps) {
			k(st, strCat(acc, StrLit(lit)))
			return
		}
		acc = strCat(acc, StrLit(ps[i].lit))
		e.format(st, ps[i].verb, xs[i], func(st *State, s *Term) { rec(st, i+1, strCat(acc, s)) })
	}
	rec(st, 0, StrLit(""))
}

// format renders one operand.
func (e *Exec) format(st *State, verb string, x *Term, k func(*State, *Term)) {
	x = st.simpVal(x)
	if x.Op == "ite" {
		e.fork(st, x.Args[0], func(st *State) { e.format(st, verb, x.Args[1], k) }, func(st *State) { e.format(st, verb, x.Args[2], k) })
		return
	}
	plain := verb == "%v" || verb == "%s" || verb == "%d"
	if x.Op == "box" && plain {
		v := x.Args[0]
		ty := boxType[x.Name]
		if ty != nil && verb != "%d" {
			if f := lookupMethod(ty, "Error"); f != nil {
				if !inModulePkg(f) {
					k(st, App("errtext", StrS, x))
				} else {
					e.callFn(st, f, nil, []Val{Val(v)}, nil, func(st *State, r []Val) { k(st, r[0].(*Term)) })
				}
				return
			}
			if f := lookupString(ty); f != nil {
				args := []Val{Val(v)}
				key := funcKey(f)
				if inModulePkg(f) || libFuncs[key] != nil || contracts[key] != nil {
					e.callFn(st, f, nil, args, nil, func(st *State, r []Val) { k(st, r[0].(*Term)) })
					return
				}
			}
			if typeName(ty) == "time.Time" {
				k(st, App("timestr", StrS, v))
				return
			}
			if typeName(ty) == "time.Duration" {
				k(st, App("durstr", StrS, v))
				return
			}
		}
		if x.Name == "*errors.err" {
			k(st, App("errtext", StrS, x))
			return
		}
		if v.Sort == StrS && verb != "%d" {
			k(st, v)
			return
		}
		if v.Sort.Kind == SInt && verb != "%s" && ty != nil {
			if b, ok := types.Unalias(ty).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				k(st, itoa(v))
				return
			}
		}
		if v.Sort == BoolS && verb == "%v" {
			k(st, Ite(v, StrLit("true"), StrLit("false")))
			return
		}
	}
	k(st, App("fmt:"+verb, StrS, x))
}

func (st *State) simpVal(t *Term) *Term {
	for t.Op == "ite" {
		c := st.simp(t.Args[0])
		if c == True {
			t = t.Args[1]
		} else if c == False {
			t = t.Args[2]
		} else {
			break
		}
	}
	return t
}

func inModulePkg(f *ssa.Function) bool { return f.Pkg != nil && inModule(f.Pkg.Pkg) }

func pkgOf(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func lookupString(t types.Type) *ssa.Function { return lookupMethod(t, "String") }

// lookupMethod finds a method func() string of the given name.
func lookupMethod(t types.Type, name string) *ssa.Function {
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() != name {
			continue
		}
		sig := s.Type().(*types.Signature)
		if sig.Params().Len() == 0 && sig.Results().Len() == 1 && sortOf(sig.Results().At(0).Type()) == StrS {
			return prog.MethodValue(s)
		}
	}
	return nil
}

// sortSlice models sort.Slice: the comparison is proved to be a declared strict order on the
// elements, for any content; the result is that order's sorted permutation.
func (e *Exec) sortSlice(st *State, c *LibCall, k func(*State, []Val)) {
	var s *Term
	var ty types.Type
	switch x := c.args[0].(type) {
	case *Iface:
		s, ty = e.term(st, x.v, x.typ), x.typ
	case *Term:
		if x.Op == "box" {
			s, ty = x.Args[0], boxType[x.Name]
		}
	}
	if s == nil || ty == nil {
		panic(unsup("sort of an unknown slice"))
	}
	s = st.permuted(s)
	if s.Op == "emp" {
		k(st, nil)
		return
	}
	less := c.args[1]
	el := elemOf(ty)
	var names []string
	for _, n := range sortedKeys(orders) {
		if types.Identical(orders[n].ty, el) {
			names = append(names, n)
		}
	}
	s2 := st.clone()
	any_ := Fresh("perm", s.Sort)
	if s2.perm == nil {
		s2.perm = map[*Term]*Term{}
	}
	s2.perm[s] = any_
	s2.assume(Eq(SeqLen(any_), SeqLen(s)))
	i, j := Fresh("i", RInt(64, true)), Fresh("j", RInt(64, true))
	s2.assume(And(Le(Zero, i), Lt(i, SeqLen(s)), Le(Zero, j), Lt(j, SeqLen(s))))
	type res struct {
		st *State
		t  *Term
	}
	var rs []res
	fv, ok := less.(*FnVal)
	if !ok {
		panic(unsup("unknown comparison function"))
	}
	e.callFn(s2, fv.fn, fv.binds, []Val{i, j}, nil, func(st *State, r []Val) {
		rs = append(rs, res{st, e.term(st, r[0], types.Typ[types.Bool])})
	})
	pick := ""
	for _, n := range names {
		good := true
		for _, r := range rs {
			if r.st.pcset[False] {
				continue
			}
			g := Eq(r.t, orderTerm(n, SeqAt(any_, i), SeqAt(any_, j)))
			if !e.prove(r.st, g, houdiniFull) {
				good = false
				break
			}
		}
		if good {
			pick = n
			break
		}
	}
	if pick == "" {
		e.failOb(st, "sort", "comparison of the sort matches a declared strict order", c.pos())
		pick = "unknown"
	} else if e.silent == 0 {
		e.obligs = append(e.obligs, &Oblig{fn: e.c.key, kind: "sort", label: "comparison is the order " + pick, status: "proved", by: "solver", goal: True})
	}
	st.perm[s] = App("sorted:"+pick, s.Sort, s)
	k(st, nil)
}

func orderTerm(n string, a, b *Term) *Term {
	o := orders[n]
	en := pureEnv()
	en.vars = map[string]TV{o.a: {a, o.ty}, o.b: {b, o.ty}}
	return en.bool(o.ast)
}

// orderObligs: the declared orders are strict and total up to ties.
func orderObligs() []*Oblig {
	var obs []*Oblig
	for _, n := range sortedKeys(orders) {
		o := orders[n]
		s := sortOf(o.ty)
		a, b, c := freshVal("oa", s), freshVal("ob", s), freshVal("oc", s)
		lt := func(x, y *Term) *Term { return orderTerm(n, x, y) }
		add := func(l string, g *Term) {
			obs = append(obs, &Oblig{fn: "order " + n, kind: "lemma", label: l, goal: g, depth: 1})
		}
		add("irreflexive", Not(lt(a, a)))
		add("transitive", Imp(And(lt(a, b), lt(b, c)), lt(a, c)))
		add("ties are transitive", Imp(And(Not(lt(a, b)), Not(lt(b, c))), Not(lt(a, c))))
		seqLenFn["sorted:"+n] = func(t *Term) *Term { return SeqLen(t.Args[0]) }
		unfoldFn["sorted:"+n] = func(t *Term) []*Term {
			i, j := BVar("si!", IntS), BVar("sj!", IntS)
			a, b := SeqAt(t, i), SeqAt(t, j)
			if a.Op != "seqat" || b.Op != "seqat" {
				return nil
			}
			return []*Term{Forall([]*Term{i, j}, [][]*Term{{a, b}}, Imp(And(Le(Zero, i), Lt(i, j), Lt(j, SeqLen(t))), Not(orderTerm(n, b, a))))}
		}
	}
	return obs
}

var _ = big.NewInt
var _ = constant.Int
