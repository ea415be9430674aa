package verifreplay

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/java"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/summary"
	"github.com/danielleontiev/neojhat/internal/threads"
)

func init() {
	Props["C15"] = caseC15
	Props["C16"] = caseC16
	Props["C17"] = caseC17
	Props["C18"] = caseC18
	Props["C23"] = caseC23
	Props["C25"] = caseC25
	Props["C26"] = caseC26
	Props["C27"] = caseC27
}

// world builds the dump of a made-up JVM: classes, their instances, strings and threads.
type world struct {
	t       *T
	w       int
	used    map[uint64]bool
	strs    map[string]uint64
	top     []any
	classes []*wclass
	subs    []any // class dumps and roots
	objs    []any
	millis  uint64
	object  *wclass
	str     *wclass
	arr     map[string]*wclass
	serial  uint32
}

type wclass struct {
	id      uint64
	serial  uint32
	super   *wclass
	name    string
	statics []wstatic
	fields  []wfield
	size    int32
	lost    string // what the dump lacks of it
}
type wstatic struct {
	name string
	v    Val
}
type wfield struct {
	name string
	ty   int
}

func (t *T) world() *world {
	w := &world{t: t, w: t.IdSize(), used: map[uint64]bool{0: true}, strs: map[string]uint64{}, arr: map[string]*wclass{}}
	w.millis = uint64(t.R.Int63n(4e12))
	w.object = w.class("java/lang/Object", nil, nil, nil)
	return w
}

// id yields a new identifier.
func (w *world) id() uint64 {
	for {
		v := w.t.Word(w.w)
		if w.t.P(40) {
			v = uint64(w.t.N(1 << 16))
		}
		if !w.used[v] {
			w.used[v] = true
			return v
		}
	}
}

func (w *world) text(s string) uint64 {
	if id, ok := w.strs[s]; ok {
		return id
	}
	id := w.id()
	w.strs[s] = id
	w.top = append(w.top, U8{id, s})
	return id
}

func (w *world) class(name string, super *wclass, statics []wstatic, fields []wfield) *wclass {
	w.serial += 1 + uint32(w.t.N(3))
	c := &wclass{id: w.id(), serial: w.serial, super: super, name: name, statics: statics, fields: fields, size: int32(w.t.N(200))}
	w.classes = append(w.classes, c)
	return c
}

// arrayClass is the class of object arrays of that name: it has only been loaded.
func (w *world) arrayClass(name string) *wclass {
	if c := w.arr[name]; c != nil {
		return c
	}
	c := w.class(name, w.object, nil, nil)
	w.arr[name] = c
	return c
}

func (w *world) fieldNames() []string {
	return []string{"value", "name", "a", "b", "next", "x/y", "é"}
}

func (w *world) randFields(max int) (fs []wfield) {
	for n := w.t.N(max + 1); n > 0; n-- {
		names := w.fieldNames()
		fs = append(fs, wfield{names[w.t.N(len(names))], w.t.ValidType()})
	}
	return
}

func (w *world) randStatics(max int) (fs []wstatic) {
	for n := w.t.N(max + 1); n > 0; n-- {
		names := w.fieldNames()
		fs = append(fs, wstatic{names[w.t.N(len(names))], w.t.Val(w.t.ValidType(), w.w)})
	}
	return
}

// randClasses adds classes in random relation.
func (w *world) randClasses(n int) {
	for ; n > 0; n-- {
		super := w.classes[w.t.N(len(w.classes))]
		if w.t.P(40) {
			super = w.classes[len(w.classes)-1]
		}
		name := "p/" + w.t.Name()
		if w.t.P(20) {
			if o := w.classes[w.t.N(len(w.classes))].name; strings.HasPrefix(o, "p/") {
				name = o // another loader's
			}
		}
		if w.t.P(3) {
			super = nil
		}
		w.class(name, super, w.randStatics(3), w.randFields(4))
	}
}

// layout lists the fields of an instance in the order of their values.
func (c *wclass) layout() (fs []wfield) {
	for ; c != nil; c = c.super {
		fs = append(fs, c.fields...)
	}
	return
}

// instance adds an instance; vals gives values by field name (of the first field of that name), the others are random.
func (w *world) instance(c *wclass, vals map[string]uint64) (uint64, []Val) {
	id := w.id()
	b := &buf{w: w.w}
	var vs []Val
	done := map[string]bool{}
	for _, f := range c.layout() {
		v := w.t.Val(f.ty, w.w)
		if x, ok := vals[f.name]; ok && !done[f.name] {
			v = Val{f.ty, x}
			done[f.name] = true
		}
		vs = append(vs, v)
		b.val(v)
	}
	w.objs = append(w.objs, OBJ{id, uint32(w.t.Word(4)), c.id, b.b})
	return id, vs
}

func (w *world) bytesArray(b []byte) uint64 {
	id := w.id()
	w.objs = append(w.objs, PA{id, uint32(w.t.Word(4)), TByte, len(b), b})
	return id
}

// javaString adds a java.lang.String with its array.
func (w *world) javaString(s string) uint64 {
	if w.str == nil {
		fs := []wfield{{"value", TObject}}
		if w.t.Bool() {
			fs = append(fs, wfield{"coder", TByte})
		}
		if w.t.Bool() {
			fs = append([]wfield{{"hash", TInt}}, fs...)
		}
		super := w.object
		if w.t.P(30) {
			super = w.class("p/Base", w.object, nil, w.randFields(2))
		}
		w.str = w.class("java/lang/String", super, nil, fs)
	}
	id, _ := w.instance(w.str, map[string]uint64{"value": w.bytesArray([]byte(s))})
	return id
}

func (w *world) array(c *wclass, elems []uint64) uint64 {
	id := w.id()
	w.objs = append(w.objs, OA{id, uint32(w.t.Word(4)), c.id, elems})
	return id
}

func (w *world) primArray(ty, n int) uint64 {
	id := w.id()
	w.objs = append(w.objs, PA{id, uint32(w.t.Word(4)), ty, n, w.t.Bytes(n * width(ty, w.w))})
	return id
}

// dump writes everything down: objects by identifier, as the JVM does.
func (w *world) dump() *Dump {
	d := &Dump{W: w.w, Millis: w.millis}
	var cds []any
	for _, c := range w.classes {
		nameId := w.text(c.name)
		if c.lost == "name" {
			nameId = w.id()
		}
		cd := CD{Class: c.id, Stack: uint32(w.t.Word(4)), Loader: w.t.Word(w.w), Signers: w.t.Word(w.w), Prot: w.t.Word(w.w), Size: c.size}
		if c.super != nil {
			cd.Super = c.super.id
		}
		for i, s := range c.statics {
			sf := SF{w.text(s.name), s.v}
			if c.lost == "static field name" && i == len(c.statics)-1 {
				sf.Name = w.id()
			}
			cd.Statics = append(cd.Statics, sf)
		}
		for i, f := range c.fields {
			fr := IF{w.text(f.name), f.ty}
			if c.lost == "field name" && i == len(c.fields)-1 {
				fr.Name = w.id()
			}
			cd.Fields = append(cd.Fields, fr)
		}
		if w.t.P(20) {
			cd.Pool = append(cd.Pool, CP{uint16(w.t.N(9)), w.t.Val(w.t.ValidType(), w.w)})
		}
		if c.lost != "load record" {
			w.top = append(w.top, LC{c.serial, c.id, uint32(w.t.Word(4)), nameId})
		}
		if c.lost != "class dump" {
			cds = append(cds, cd)
		}
	}
	d.Top = w.top
	sort.SliceStable(w.objs, func(i, j int) bool { return objId(w.objs[i]) < objId(w.objs[j]) })
	all := append(append(cds, w.subs...), w.objs...)
	for len(all) > 0 {
		n := 1 + w.t.N(len(all))
		d.Segs = append(d.Segs, all[:n:n])
		all = all[n:]
	}
	return d
}

func objId(r any) uint64 {
	switch x := r.(type) {
	case OBJ:
		return x.Id
	case OA:
		return x.Id
	case PA:
		return x.Id
	}
	return 0
}

// open encodes the dump and gives access to it.
func (w *world) open() (*dump.ParsedAccessor, *Dump, *File) {
	d := w.dump()
	f := d.Encode(1)
	w.t.logDump(d, f)
	a, err := accessor(&slowSeeker{Reader: bytes.NewReader(f.B), t: w.t}, d, f)
	if err != nil {
		w.t.Fail("the index is refused: %v", err)
	}
	return a, d, f
}

// lose takes something of a class away.
func (c *wclass) lose(t *T) {
	c.lost = []string{"class dump", "load record", "name", "static field name", "field name"}[t.N(5)]
	if c.lost == "static field name" && len(c.statics) == 0 || c.lost == "field name" && len(c.fields) == 0 {
		c.lost = "name"
	}
}

func (c *wclass) complete() bool {
	for ; c != nil; c = c.super {
		if c.lost != "" {
			return false
		}
	}
	return true
}

func (c *wclass) want() *java.Class {
	if c == nil {
		return nil
	}
	x := &java.Class{Name: c.name, Superclass: c.super.want()}
	for _, s := range c.statics {
		x.StaticFields = append(x.StaticFields, java.StaticField{Name: s.name, Type: core.JavaType(s.v.Ty), Value: jv(s.v)})
	}
	for _, f := range c.fields {
		x.InstanceFields = append(x.InstanceFields, java.InstanceField{Name: f.name, Type: core.JavaType(f.ty)})
	}
	return x
}

func caseC15(t *T) {
	w := t.world()
	w.randClasses(t.Small(8))
	if t.P(40) {
		w.classes[t.N(len(w.classes))].lose(t)
	}
	a, _, _ := w.open()
	h := java.NewHeap(a)
	for _, c := range w.classes {
		t.Logf("class %d %q", c.id, c.name)
		got, err := h.ParseClass(core.Identifier(c.id))
		if !c.complete() {
			if err == nil {
				t.Fail("class %d: something is missing (%q) but it resolves to %+v", c.id, c.lost, got)
			}
			continue
		}
		if err != nil {
			t.Fail("class %d: %v", c.id, err)
		}
		t.eq(fmt.Sprintf("class %d", c.id), got, *c.want())
	}
	if id := w.id(); true {
		if c, err := h.ParseClass(core.Identifier(id)); err == nil {
			t.Fail("class %d does not exist but resolves to %+v", id, c)
		}
	}
}

func caseC16(t *T) {
	w := t.world()
	w.randClasses(t.Small(7))
	type inst struct {
		id   uint64
		c    *wclass
		vals []Val
		cut  int
		pay  []byte
	}
	var is []inst
	for n := 1 + t.N(6); n > 0; n-- {
		c := w.classes[t.N(len(w.classes))]
		id, vs := w.instance(c, nil)
		o := w.objs[len(w.objs)-1].(OBJ)
		x := inst{id, c, vs, len(o.Payload), nil}
		if t.P(25) && len(o.Payload) > 0 {
			x.cut = t.N(len(o.Payload))
			o.Payload = o.Payload[:x.cut]
		} else if t.P(10) {
			o.Payload = append(o.Payload, t.Bytes(t.N(9))...)
			x.cut = len(o.Payload)
		}
		x.pay = o.Payload
		w.objs[len(w.objs)-1] = o
		is = append(is, x)
	}
	if t.P(20) {
		w.classes[t.N(len(w.classes))].lose(t)
	}
	a, _, _ := w.open()
	h := java.NewHeap(a)
	for _, x := range is {
		t.Logf("instance %d of class %d", x.id, x.c.id)
		o, err := h.ParseNormalObject(core.Identifier(x.id))
		if !x.c.complete() {
			if err == nil {
				t.Fail("instance %d: its class is incomplete but it is read as %+v", x.id, o)
			}
			continue
		}
		if err != nil {
			t.Fail("instance %d: %v", x.id, err)
		}
		t.eq(fmt.Sprintf("class of instance %d", x.id), o.Class, *x.c.want())
		if !bytes.Equal(o.Bytes, x.pay) {
			t.Fail("instance %d: bytes %x, want %x", x.id, o.Bytes, x.pay)
		}
		for _, name := range append(w.fieldNames(), "", "none", "Value") {
			// where the field is
			off, i := 0, 0
			var v Val
			origin, found := "", false
			for c := x.c; c != nil && !found; c = c.super {
				for _, f := range c.fields {
					if f.name == name {
						v, origin, found = x.vals[i], c.name, true
						break
					}
					off += width(f.ty, w.w)
					i++
				}
			}
			got, err := o.GetFieldValueByName(name)
			if !found {
				if err == nil {
					t.Fail("instance %d: there is no field %q but it is read as %+v", x.id, name, got)
				}
				continue
			}
			if off+width(v.Ty, w.w) > x.cut {
				if err == nil {
					t.Fail("instance %d: the data (%d bytes) ends before field %q (at %d) but it is read as %+v", x.id, x.cut, name, off, got)
				}
				continue
			}
			if err != nil {
				t.Fail("instance %d: field %q: %v", x.id, name, err)
			}
			t.eq(fmt.Sprintf("instance %d: field %q", x.id, name), got, java.FieldValue{Value: jv(v), Origin: origin})
		}
	}
	if o, err := h.ParseNormalObject(core.Identifier(w.id())); err == nil {
		t.Fail("a missing instance is read as %+v", o)
	}
}

func caseC17(t *T) {
	w := t.world()
	type arr struct {
		id    uint64
		c     *wclass
		elems []uint64
	}
	var as []arr
	for n := t.N(4); n > 0; n-- {
		c := w.arrayClass("[Lp/" + t.Name() + ";")
		var es []uint64
		for k := t.Small(20); k > 0; k-- {
			es = append(es, t.Word(w.w))
		}
		as = append(as, arr{w.array(c, es), c, es})
	}
	strs := map[uint64]string{}
	bad := map[uint64]string{}
	for n := t.N(4); n > 0; n-- {
		s := t.Text()
		if t.P(30) {
			s = string(t.Bytes(t.Small(300)))
		}
		strs[w.javaString(s)] = s
	}
	if w.str != nil && t.Bool() {
		val := func(v uint64) uint64 {
			id, _ := w.instance(w.str, map[string]uint64{"value": v})
			return id
		}
		var other []int
		for _, ty := range allTypes {
			if ty != TByte && ty != TObject {
				other = append(other, ty)
			}
		}
		bad[val(w.primArray(other[t.N(len(other))], t.N(8)))] = "a backing array not of bytes"
		bad[val(w.id())] = "no backing array"
		bad[val(0)] = "a null backing array"
		bad[val(w.array(w.arrayClass("[Lp/X;"), []uint64{1, 2}))] = "an object array as backing array"
		// the same layout under another name
		c := w.class([]string{"java/lang/StringBuilder", "java/lang/Strin", "java.lang.String", "java/lang/string", "p/java/lang/String"}[t.N(5)], w.str.super, nil, w.str.fields)
		id, _ := w.instance(c, map[string]uint64{"value": w.bytesArray([]byte("abc"))})
		bad[id] = "an instance of another class"
		// a subclass is another class
		sub := w.class("p/Sub", w.str, nil, nil)
		id, _ = w.instance(sub, map[string]uint64{"value": w.bytesArray([]byte("abc"))})
		bad[id] = "an instance of another class"
	}
	bad[w.id()] = "no object"
	bad[0] = "a null reference"
	a, d, f := w.open()
	h := java.NewHeap(a)
	for _, x := range as {
		got, err := h.ParseObjectArrayFull(core.Identifier(x.id))
		if err != nil {
			t.Fail("array %d: %v", x.id, err)
		}
		want := java.ObjectArray{ArrayClassId: core.Identifier(x.c.id)}
		for _, e := range x.elems {
			want.Elements = append(want.Elements, core.Identifier(e))
		}
		t.eq(fmt.Sprintf("array %d", x.id), got, want)
		// cut off in the last element
		if n := len(x.elems); n > 0 && t.P(30) {
			at := f.Bodies[[2]uint64{1, x.id}]
			for _, e := range f.Order {
				if e.Kind == 1 && e.Id == x.id {
					at = e.Offset
				}
			}
			cut := f.B[:at+2*w.w+8+n*w.w-1-t.N(w.w*n)]
			b, err := accessor(bytes.NewReader(cut), d, f)
			if err != nil {
				t.Fail("the index is refused: %v", err)
			}
			if got, err := java.NewHeap(b).ParseObjectArrayFull(core.Identifier(x.id)); err == nil {
				t.Fail("array %d: the dump ends inside but it is read as %+v", x.id, got)
			}
		}
	}
	if got, err := h.ParseObjectArrayFull(core.Identifier(w.id())); err == nil {
		t.Fail("a missing array is read as %+v", got)
	}
	for id, s := range strs {
		got, err := h.ParseJavaString(core.JavaValue{Type: core.Object, Value: core.Identifier(id)})
		if err != nil {
			t.Fail("string %d: %v", id, err)
		}
		if got != s {
			t.Fail("string %d: %q, want %q", id, got, s)
		}
		ty := t.ValidType()
		if ty != TObject {
			if got, err := h.ParseJavaString(jv(t.Val(ty, w.w))); err == nil {
				t.Fail("a value of type %d is read as the string %q", ty, got)
			}
		}
	}
	for id, what := range bad {
		if got, err := h.ParseJavaString(core.JavaValue{Type: core.Object, Value: core.Identifier(id)}); err == nil {
			t.Fail("object %d is %s but is read as the string %q", id, what, got)
		}
	}
}

var typeNames = map[int]string{TObject: "object", TBool: "boolean", TChar: "char", TFloat: "float", TDouble: "double", TByte: "byte", TShort: "short", TInt: "int", TLong: "long"}

// populate adds instances and arrays.
func (w *world) populate(n int) {
	t := w.t
	for ; n > 0; n-- {
		switch t.N(3) {
		case 0:
			c := w.classes[t.N(len(w.classes))]
			if len(c.name) == 0 || c.name[0] != '[' {
				w.instance(c, nil)
			}
		case 1:
			d, _ := t.descriptor(false)
			var es []uint64
			for k := t.Small(6); k > 0; k-- {
				es = append(es, t.Word(w.w))
			}
			w.array(w.arrayClass("["+d), es)
		case 2:
			ty := t.ValidType()
			if ty == TObject {
				ty = TInt
			}
			w.primArray(ty, t.Small(9))
		}
	}
}

func caseC18(t *T) {
	w := t.world()
	w.randClasses(t.Small(5))
	w.populate(t.Small(25))
	a, d, _ := w.open()
	want := map[objects.ObjectItem]int{}
	rows := map[[2]any]*objects.ObjectItem{}
	row := func(kind int, key uint64, name string) *objects.ObjectItem {
		k := [2]any{kind, key}
		if rows[k] == nil {
			rows[k] = &objects.ObjectItem{Name: name}
		}
		rows[k].InstancesCount++
		return rows[k]
	}
	byId := map[uint64]*wclass{}
	for _, c := range w.classes {
		byId[c.id] = c
	}
	for _, r := range d.subs() {
		switch x := r.(type) {
		case OBJ:
			row(0, x.Class, byId[x.Class].name).TotalSize += int(byId[x.Class].size)
		case OA:
			row(1, x.Class, renderArray(byId[x.Class].name)).TotalSize += w.w * len(x.Elems)
		case PA:
			row(2, uint64(x.Ty), typeNames[x.Ty]+"[]").TotalSize += width(x.Ty, w.w) * x.Count
		}
	}
	var total objects.ObjectItem
	for _, r := range rows {
		want[*r]++
		total.TotalSize += r.TotalSize
		total.InstancesCount += r.InstancesCount
	}
	by := objects.SortBy(t.N(2))
	got, err := objects.GetObjects(a, by)
	if err != nil {
		t.Fail("objects: %v", err)
	}
	n := map[objects.ObjectItem]int{}
	for _, r := range got.Items {
		n[r]++
		if n[r] > want[r] {
			t.Fail("objects: row %+v appears %d times, want %d times; rows wanted: %v", r, n[r], want[r], want)
		}
	}
	if len(got.Items) != len(rows) {
		t.Fail("objects: rows %+v, want %v", got.Items, want)
	}
	if got.TotalSize != total.TotalSize || got.TotalCount != total.InstancesCount {
		t.Fail("objects: totals %d and %d, want %d and %d", got.TotalCount, got.TotalSize, total.InstancesCount, total.TotalSize)
	}
	if got.SortBy != by {
		t.Fail("objects: order %v, want %v", got.SortBy, by)
	}
}

// renderArray renders an array class name that is a descriptor.
func renderArray(s string) string {
	n := 0
	for s[n] == '[' {
		n++
	}
	base := ""
	switch s[n] {
	case 'L':
		base = strings.ReplaceAll(s[n+1:len(s)-1], "/", ".")
	default:
		base = map[byte]string{'Z': "boolean", 'C': "char", 'F': "float", 'D': "double", 'B': "byte", 'S': "short", 'I': "int", 'J': "long"}[s[n]]
	}
	return base + strings.Repeat("[]", n)
}

func caseC23(t *T) {
	w := t.world()
	// the thread class, its fields spread over superclasses
	fs := []wfield{{"name", TObject}, {"daemon", TBool}, {"priority", TInt}, {"tid", TLong}, {"threadStatus", TInt}}
	t.R.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	var own []wfield
	super := w.object
	for i, f := range fs {
		own = append(own, f)
		if t.P(40) {
			own = append(own, wfield{"o" + fmt.Sprint(i), t.ValidType()})
		}
		if t.P(25) {
			super = w.class("p/T"+fmt.Sprint(i), super, nil, own)
			own = nil
		}
	}
	thread := w.class("java/lang/Thread", super, nil, own)
	classes := []*wclass{thread}
	if t.Bool() {
		// a subclass with a field of its own that shadows
		sub := w.class("p/Worker", thread, w.randStatics(1), []wfield{{"extra", t.ValidType()}})
		classes = append(classes, sub)
	}
	w.randClasses(t.N(3))
	// things locals refer to
	var refs []uint64
	refName := map[uint64]string{}
	ref := func(id uint64, name string) { refs = append(refs, id); refName[id] = name }
	for n := 1 + t.N(4); n > 0; n-- {
		switch t.N(4) {
		case 0:
			c := w.classes[t.N(len(w.classes))]
			id, _ := w.instance(c, nil)
			ref(id, c.name)
		case 1:
			d, _ := t.descriptor(false)
			c := w.arrayClass("[" + d)
			ref(w.array(c, []uint64{1}), c.name)
		case 2:
			ty := t.ValidType()
			if ty == TObject {
				ty = TLong
			}
			ref(w.primArray(ty, t.N(4)), "["+map[int]string{TBool: "Z", TChar: "C", TFloat: "F", TDouble: "D", TByte: "B", TShort: "S", TInt: "I", TLong: "J"}[ty])
		case 3:
			c := w.classes[t.N(len(w.classes))]
			ref(c.id, "class "+c.name)
		}
	}
	var want []threads.StackTrace
	var at [][2]uint32
	n := t.N(5)
	serial := uint32(t.Word(4) % (1<<32 - 64))
	var roots, traces []any
	for i := 0; i < n; i++ {
		serial += 1 + uint32(t.N(3))
		name := t.Text()
		prio, st := int32(t.Word(4)), int32(t.Word(4))
		tid := int64(t.Word(8))
		daemon := t.N(2)
		id, _ := w.instance(classes[t.N(len(classes))], map[string]uint64{"name": w.javaString(name), "daemon": uint64(daemon), "priority": uint64(uint32(prio)), "tid": uint64(tid), "threadStatus": uint64(uint32(st))})
		roots = append(roots, RT{id, serial, uint32(t.Word(4))})
		tr := threads.StackTrace{ThreadName: name, ThreadId: int(tid), ThreadDaemon: daemon != 0, ThreadPriority: int(prio), ThreadStatus: threads.ThreadStatus(st)}
		rec := TR{uint32(t.Word(4)), serial, nil}
		for k := t.Small(5); k > 0; k-- {
			c := w.classes[t.N(len(w.classes))]
			line := []int32{1, 42, int32(t.Word(4) >> 1), 0, -1, -2, -3}[t.N(7)]
			fr := FR{w.id(), 0, 0, 0, c.serial, line}
			nm := func(s string) (uint64, string) {
				if t.P(12) {
					return w.id(), "<unknown string>"
				}
				return w.text(s), s
			}
			sf := threads.StackFrame{ClassName: c.name}
			fr.Method, sf.MethodName = nm(t.Name())
			d, _, _ := t.methodDescriptor()
			fr.Sig, sf.MethodSignature = nm(d)
			fr.File, sf.FileName = nm(t.Name() + ".java")
			if s, ok := wantLine(line); ok {
				sf.LineNumber = s
			} else {
				fr.Line, sf.LineNumber = 7, "7"
			}
			w.top = append(w.top, fr)
			rec.Frames = append(rec.Frames, fr.Id)
			at = append(at, [2]uint32{serial, uint32(len(tr.Frames))})
			tr.Frames = append(tr.Frames, sf)
		}
		tr.NumberOfFrames = uint32(len(tr.Frames))
		traces = append(traces, rec)
		want = append(want, tr)
	}
	t.R.Shuffle(len(traces), func(i, j int) { traces[i], traces[j] = traces[j], traces[i] })
	w.top = append(w.top, traces...)
	// locals
	pos := func() (uint32, uint32) {
		if len(at) > 0 && t.P(85) {
			p := at[t.N(len(at))]
			return p[0], p[1]
		}
		return uint32(t.Word(4)), uint32(t.Word(4))
	}
	var jni, jav []any
	for k := t.Small(8); k > 0; k-- {
		id := refs[t.N(len(refs))]
		s, p := pos()
		if t.Bool() {
			jni = append(jni, RL{id, s, p})
		} else {
			jav = append(jav, RJ{id, s, p})
		}
	}
	add := func(id uint64, s, p uint32, ty threads.FrameType) {
		for i := range roots {
			if roots[i].(RT).Thread == s && int(p) < len(want[i].Frames) {
				f := &want[i].Frames[p]
				f.LocalFrames = append(f.LocalFrames, threads.LocalFrame{ObjectId: int(id), ObjectTypeSignature: refName[id], Type: ty})
			}
		}
	}
	for _, r := range jni {
		x := r.(RL)
		add(x.Obj, x.Thread, x.Frame, threads.JniLocal)
	}
	for _, r := range jav {
		x := r.(RJ)
		add(x.Obj, x.Thread, x.Frame, threads.Frame)
	}
	// the roots of the kinds mixed, each kind in order
	lists := [][]any{jni, jav, roots}
	for len(lists[0])+len(lists[1])+len(lists[2]) > 0 {
		k := t.N(3)
		if len(lists[k]) > 0 {
			w.subs = append(w.subs, lists[k][0])
			lists[k] = lists[k][1:]
		}
	}
	a, _, _ := w.open()
	got, err := threads.GetThreadDump(a)
	if err != nil {
		t.Fail("threads: %v", err)
	}
	if len(got.StackTraces) != len(want) {
		t.Fail("threads: %d entries, want %d", len(got.StackTraces), len(want))
	}
	for i := range want {
		t.eq(fmt.Sprintf("thread %d", i), got.StackTraces[i], want[i])
	}
}

// jvm makes a world with system properties and a runtime bean.
type jvm struct {
	*world
	props  map[string]string
	start  int64
	system *wclass
	helper *wclass
	broken string
}

func (w *world) between(fs []wfield, super *wclass, name string, statics []wstatic) *wclass {
	t := w.t
	var own []wfield
	for i, f := range fs {
		if t.P(30) {
			own = append(own, wfield{"f" + fmt.Sprint(i), t.ValidType()})
		}
		own = append(own, f)
		if t.P(20) {
			super = w.class(name+"Base"+fmt.Sprint(i), super, nil, own)
			own = nil
		}
	}
	return w.class(name, super, statics, own)
}

var wellKnown = []string{"os.name", "os.arch", "java.home", "java.version", "java.vm.name", "java.vm.version", "java.vm.info", "java.vm.vendor"}

func (t *T) jvm() *jvm {
	w := t.world()
	j := &jvm{world: w, props: map[string]string{}}
	w.randClasses(t.N(3))
	// the property table
	for _, k := range wellKnown {
		if t.P(80) {
			j.props[k] = t.Text()
		}
	}
	for n := t.Small(6); n > 0; n-- {
		j.props[t.Text()] = t.Text()
	}
	nodeFields := []wfield{{"key", TObject}, {"val", TObject}, {"next", TObject}, {"hash", TInt}}
	t.R.Shuffle(len(nodeFields), func(a, b int) { nodeFields[a], nodeFields[b] = nodeFields[b], nodeFields[a] })
	node := w.between(nodeFields, w.object, "java/util/concurrent/ConcurrentHashMap$Node", nil)
	buckets := make([]uint64, 1+t.N(6))
	var keys []string
	for k := range j.props {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	t.R.Shuffle(len(keys), func(a, b int) { keys[a], keys[b] = keys[b], keys[a] })
	for _, k := range keys {
		b := t.N(len(buckets))
		buckets[b], _ = w.instance(node, map[string]uint64{"key": w.javaString(k), "val": w.javaString(j.props[k]), "next": buckets[b]})
	}
	table := w.array(w.arrayClass("[Ljava/util/concurrent/ConcurrentHashMap$Node;"), buckets)
	mc := w.between([]wfield{{"table", TObject}}, w.object, "java/util/concurrent/ConcurrentHashMap", nil)
	m, _ := w.instance(mc, map[string]uint64{"table": table})
	pc := w.between([]wfield{{"map", TObject}}, w.object, "java/util/Properties", nil)
	p, _ := w.instance(pc, map[string]uint64{"map": m})
	ss := append(w.randStatics(2), wstatic{"props", Val{TObject, p}})
	ss = append(ss, w.randStatics(2)...)
	j.system = w.class("java/lang/System", w.object, ss, nil)
	// the bean
	j.start = t.R.Int63n(4e12)
	if t.P(50) {
		j.start = int64(w.millis) - t.R.Int63n(1e9) // a plausible one
	}
	bean := []wfield{{"vmStartupTime", TLong}}
	j.broken = ""
	if t.P(15) {
		j.broken = []string{"no start time", "no bean", "no bean field", "no helper class", "start time of another type"}[t.N(5)]
	}
	if j.broken == "no start time" {
		bean[0].name = "vmStartupTim"
	}
	if j.broken == "start time of another type" {
		bean[0].ty = []int{TInt, TObject, TDouble}[t.N(3)]
	}
	bc := w.between(bean, w.object, "sun/management/RuntimeImpl", nil)
	b, _ := w.instance(bc, map[string]uint64{"vmStartupTime": uint64(j.start)})
	if j.broken == "no bean" {
		b = w.id()
		if t.Bool() {
			b = 0
		}
	}
	hs := append(w.randStatics(2), wstatic{"runtimeMBean", Val{TObject, b}})
	hn := "sun/management/ManagementFactoryHelper"
	if j.broken == "no bean field" {
		hs[len(hs)-1].name = "runtimeMBea"
	}
	if j.broken == "no helper class" {
		hn = "sun/management/ManagementFactory"
	}
	j.helper = w.class(hn, w.object, append(hs, w.randStatics(1)...), nil)
	w.randClasses(t.N(3))
	w.populate(t.N(8))
	for n := t.Small(6); n > 0; n-- {
		w.subs = append(w.subs, []any{RG{t.Word(w.w), 1}, RL{t.Word(w.w), 1, 1}, RJ{t.Word(w.w), 1, 1}, RS{t.Word(w.w)}, RT{t.Word(w.w), 1, 1}}[t.N(5)])
	}
	t.R.Shuffle(len(w.classes), func(a, b int) { w.classes[a], w.classes[b] = w.classes[b], w.classes[a] })
	t.Logf("properties %q, dump time %d, start time %d, %s", j.props, w.millis, j.start, j.broken)
	return j
}

func caseC25(t *T) {
	j := t.jvm()
	if j.broken != "" {
		return
	}
	if t.P(30) {
		// loaded twice
		c := j.classes[t.N(len(j.classes))]
		j.top = append(j.top, LC{c.serial + 1000, c.id, 0, j.text(c.name)})
	}
	a, d, _ := j.open()
	s, err := summary.GetSummary(a, t.Bool())
	if err != nil {
		t.Fail("summary: %v", err)
	}
	size := map[uint64]int{}
	ids := map[uint64]bool{}
	want := summary.HeapProperties{}
	for _, r := range d.Top {
		if l, ok := r.(LC); ok && !ids[l.Class] {
			ids[l.Class] = true
			want.Classes++
		}
	}
	for _, c := range j.classes {
		size[c.id] = int(c.size)
	}
	for _, r := range d.subs() {
		switch x := r.(type) {
		case OBJ:
			want.Instances++
			want.HeapSize += size[x.Class]
		case OA:
			want.Instances++
			want.HeapSize += d.W * len(x.Elems)
		case PA:
			want.Instances++
			want.HeapSize += width(x.Ty, d.W) * x.Count
		case RG, RL, RJ, RS, RT:
			want.GcRoots++
		}
	}
	t.eq("heap statistics", s.Heap, want)
}

func caseC26(t *T) {
	j := t.jvm()
	if j.broken != "" {
		return
	}
	a, _, _ := j.open()
	s, err := summary.GetSummary(a, true)
	if err != nil {
		t.Fail("summary: %v", err)
	}
	var want []summary.Kv
	for k, v := range j.props {
		want = append(want, summary.Kv{Key: k, Val: v})
	}
	sort.Slice(want, func(a, b int) bool { return want[a].Key < want[b].Key })
	if !same(s.Properties, want) {
		t.Fail("properties: %q, want %q", s.Properties, want)
	}
	p := j.props
	t.eq("environment", s.Env, summary.EnvProperties{System: p["os.name"], Architecture: p["os.arch"], JavaHome: p["java.home"], JavaVersion: p["java.version"],
		JavaName: p["java.vm.name"] + " (" + p["java.vm.version"] + ", " + p["java.vm.info"] + ")", JavaVendor: p["java.vm.vendor"]})
	// without the properties the environment is the same
	q, err := summary.GetSummary(a, false)
	if err != nil {
		t.Fail("summary: %v", err)
	}
	t.eq("environment", q.Env, s.Env)
}

func caseC27(t *T) {
	j := t.jvm()
	a, _, _ := j.open()
	s, err := summary.GetSummary(a, t.Bool())
	if j.broken != "" {
		if err == nil {
			t.Fail("%s, but the uptime is given as %s", j.broken, s.System.JvmUptime)
		}
		return
	}
	if err != nil {
		t.Fail("summary: %v", err)
	}
	want := (time.Duration(int64(j.millis)-j.start) * time.Millisecond).String()
	if s.System.JvmUptime != want {
		t.Fail("uptime %s, want %s: dumped at %d ms, started at %d ms", s.System.JvmUptime, want, j.millis, j.start)
	}
}
