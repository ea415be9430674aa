package verifreplay

import (
	"fmt"
	"math"
)

// An independent encoder of the hprof 1.0.2 format.

type buf struct {
	b []byte
	w int // identifier size
}

func (b *buf) n(v uint64, width int) {
	for i := width - 1; i >= 0; i-- {
		b.b = append(b.b, byte(v>>(8*uint(i))))
	}
}
func (b *buf) u1(v uint64)  { b.n(v, 1) }
func (b *buf) u2(v uint64)  { b.n(v, 2) }
func (b *buf) u4(v uint64)  { b.n(v, 4) }
func (b *buf) u8(v uint64)  { b.n(v, 8) }
func (b *buf) id(v uint64)  { b.n(v, b.w) }
func (b *buf) raw(x []byte) { b.b = append(b.b, x...) }

// java types
const (
	TObject = 2
	TBool   = 4
	TChar   = 5
	TFloat  = 6
	TDouble = 7
	TByte   = 8
	TShort  = 9
	TInt    = 10
	TLong   = 11
)

var allTypes = []int{TObject, TBool, TChar, TFloat, TDouble, TByte, TShort, TInt, TLong}

func width(ty, w int) int {
	switch ty {
	case TObject:
		return w
	case TBool, TByte:
		return 1
	case TChar, TShort:
		return 2
	case TFloat, TInt:
		return 4
	case TDouble, TLong:
		return 8
	}
	return -1
}

// Val is a typed value given by its bits.
type Val struct {
	Ty   int
	Bits uint64
}

func (b *buf) val(v Val) { b.n(v.Bits, width(v.Ty, b.w)) }

// goVal is the Go value the tool documents for a typed value: identifiers as numbers here.
func (v Val) goVal() any {
	switch v.Ty {
	case TObject:
		return v.Bits
	case TBool:
		return v.Bits != 0
	case TChar:
		return string([]byte{byte(v.Bits >> 8), byte(v.Bits)})
	case TFloat:
		return math.Float32frombits(uint32(v.Bits))
	case TDouble:
		return math.Float64frombits(v.Bits)
	case TByte:
		return int8(uint8(v.Bits))
	case TShort:
		return int16(uint16(v.Bits))
	case TInt:
		return int32(uint32(v.Bits))
	case TLong:
		return int64(v.Bits)
	}
	return nil
}

// sameGo compares values, floats by their bits.
func sameGo(a, b any) bool {
	if x, ok := a.(float32); ok {
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	}
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return a == b
}

func (t *T) Val(ty, w int) Val {
	v := Val{ty, t.Word(width(ty, w))}
	if ty == TBool && t.P(80) {
		v.Bits &= 1
	}
	return v
}

func (t *T) ValidType() int { return allTypes[t.N(len(allTypes))] }

func (t *T) IdSize() int {
	if t.P(50) {
		return 4
	}
	return 8
}

// records

type U8 struct {
	Id   uint64
	Text string
}
type LC struct {
	Serial uint32
	Class  uint64
	Stack  uint32
	Name   uint64
}
type FR struct {
	Id, Method, Sig, File uint64
	Class                 uint32
	Line                  int32
}
type TR struct {
	Serial, Thread uint32
	Frames         []uint64
}

// roots
type RG struct{ Obj, Ref uint64 }
type RL struct {
	Obj           uint64
	Thread, Frame uint32
}
type RJ struct {
	Obj           uint64
	Thread, Frame uint32
}
type RS struct{ Obj uint64 }
type RT struct {
	Obj           uint64
	Thread, Stack uint32
}
type CP struct {
	Index uint16
	V     Val
}
type SF struct {
	Name uint64
	V    Val
}
type IF struct {
	Name uint64
	Ty   int
}
type CD struct {
	Class                        uint64
	Stack                        uint32
	Super, Loader, Signers, Prot uint64
	Size                         int32
	Pool                         []CP
	Statics                      []SF
	Fields                       []IF
}
type OBJ struct {
	Id      uint64
	Stack   uint32
	Class   uint64
	Payload []byte
}
type OA struct {
	Id    uint64
	Stack uint32
	Class uint64
	Elems []uint64
}
type PA struct {
	Id      uint64
	Stack   uint32
	Ty      int
	Count   int
	Payload []byte
}

// body encodes what follows the record header or the sub-record type.
func body(r any, w int) []byte {
	b := &buf{w: w}
	switch x := r.(type) {
	case U8:
		b.id(x.Id)
		b.raw([]byte(x.Text))
	case LC:
		b.u4(uint64(x.Serial))
		b.id(x.Class)
		b.u4(uint64(x.Stack))
		b.id(x.Name)
	case FR:
		b.id(x.Id)
		b.id(x.Method)
		b.id(x.Sig)
		b.id(x.File)
		b.u4(uint64(x.Class))
		b.u4(uint64(uint32(x.Line)))
	case TR:
		b.u4(uint64(x.Serial))
		b.u4(uint64(x.Thread))
		b.u4(uint64(len(x.Frames)))
		for _, f := range x.Frames {
			b.id(f)
		}
	case RG:
		b.id(x.Obj)
		b.id(x.Ref)
	case RL:
		b.id(x.Obj)
		b.u4(uint64(x.Thread))
		b.u4(uint64(x.Frame))
	case RJ:
		b.id(x.Obj)
		b.u4(uint64(x.Thread))
		b.u4(uint64(x.Frame))
	case RS:
		b.id(x.Obj)
	case RT:
		b.id(x.Obj)
		b.u4(uint64(x.Thread))
		b.u4(uint64(x.Stack))
	case CD:
		b.id(x.Class)
		b.u4(uint64(x.Stack))
		b.id(x.Super)
		b.id(x.Loader)
		b.id(x.Signers)
		b.id(x.Prot)
		b.id(0)
		b.id(0)
		b.u4(uint64(uint32(x.Size)))
		b.u2(uint64(len(x.Pool)))
		for _, c := range x.Pool {
			b.u2(uint64(c.Index))
			b.u1(uint64(c.V.Ty))
			b.val(c.V)
		}
		b.u2(uint64(len(x.Statics)))
		for _, s := range x.Statics {
			b.id(s.Name)
			b.u1(uint64(s.V.Ty))
			b.val(s.V)
		}
		b.u2(uint64(len(x.Fields)))
		for _, f := range x.Fields {
			b.id(f.Name)
			b.u1(uint64(f.Ty))
		}
	case OBJ:
		b.id(x.Id)
		b.u4(uint64(x.Stack))
		b.id(x.Class)
		b.u4(uint64(len(x.Payload)))
		b.raw(x.Payload)
	case OA:
		b.id(x.Id)
		b.u4(uint64(x.Stack))
		b.u4(uint64(len(x.Elems)))
		b.id(x.Class)
		for _, e := range x.Elems {
			b.id(e)
		}
	case PA:
		b.id(x.Id)
		b.u4(uint64(x.Stack))
		b.u4(uint64(x.Count))
		b.u1(uint64(x.Ty))
		b.raw(x.Payload)
	default:
		panic(fmt.Sprintf("encoder: %T", r))
	}
	return b.b
}

func tagOf(r any) byte {
	switch r.(type) {
	case U8:
		return 1
	case LC:
		return 2
	case FR:
		return 4
	case TR:
		return 5
	case RG:
		return 1
	case RL:
		return 2
	case RJ:
		return 3
	case RS:
		return 5
	case RT:
		return 8
	case CD:
		return 0x20
	case OBJ:
		return 0x21
	case OA:
		return 0x22
	case PA:
		return 0x23
	}
	panic("encoder: tag")
}

// Dump is a heap dump in terms of records.
type Dump struct {
	W      int
	Millis uint64
	Top    []any
	Segs   [][]any
}

// File is an encoded dump with the places of its records.
type File struct {
	B      []byte
	Bodies map[[2]uint64]int // kind, object id -> offset of the body (last definition)
	Order  []Entry           // in file order
	Bounds []int             // offsets of all record and sub-record starts
	End    int               // just past the end record
}
type Entry struct {
	Kind   int // 0 instance, 1 object array, 2 primitive array
	Id     uint64
	Offset int
}

func header(w int, millis uint64) []byte {
	b := &buf{w: w}
	b.raw([]byte("JAVA PROFILE 1.0.2"))
	b.u1(0)
	b.u4(uint64(w))
	b.u4(millis >> 32)
	b.u4(millis & 0xffffffff)
	return b.b
}

// Encode writes the dump; the time fields of record headers are taken from tick.
func (d *Dump) Encode(tick uint32) *File {
	f := &File{Bodies: map[[2]uint64]int{}}
	b := &buf{w: d.W}
	b.raw(header(d.W, d.Millis))
	for _, r := range d.Top {
		f.Bounds = append(f.Bounds, len(b.b))
		bd := body(r, d.W)
		b.u1(uint64(tagOf(r)))
		b.u4(uint64(tick))
		b.u4(uint64(len(bd)))
		b.raw(bd)
	}
	for _, s := range d.Segs {
		f.Bounds = append(f.Bounds, len(b.b))
		sb := &buf{w: d.W}
		base := len(b.b) + 9
		for _, r := range s {
			f.Bounds = append(f.Bounds, base+len(sb.b))
			sb.u1(uint64(tagOf(r)))
			at := base + len(sb.b)
			switch x := r.(type) {
			case OBJ:
				f.Order = append(f.Order, Entry{0, x.Id, at})
			case OA:
				f.Order = append(f.Order, Entry{1, x.Id, at})
			case PA:
				f.Order = append(f.Order, Entry{2, x.Id, at})
			}
			sb.raw(body(r, d.W))
		}
		b.u1(0x1c)
		b.u4(uint64(tick))
		b.u4(uint64(len(sb.b)))
		b.raw(sb.b)
	}
	f.Bounds = append(f.Bounds, len(b.b))
	b.u1(0x2c)
	b.u4(uint64(tick))
	b.u4(0)
	f.End = len(b.b)
	f.B = b.b
	for _, e := range f.Order {
		f.Bodies[[2]uint64{uint64(e.Kind), e.Id}] = e.Offset
	}
	return f
}

func (d *Dump) subs() (r []any) {
	for _, s := range d.Segs {
		r = append(r, s...)
	}
	return
}

// RandDump yields a well-formed dump; object identifiers never go backward per kind.
func (t *T) RandDump(size int) *Dump {
	w := t.IdSize()
	d := &Dump{W: w, Millis: t.Word(8) % 9000000000000}
	pool := []uint64{0, 1, 2}
	for i := 0; i < 4; i++ {
		pool = append(pool, t.Word(w))
	}
	id := func() uint64 {
		if t.P(50) {
			return pool[t.N(len(pool))]
		}
		return t.Word(w)
	}
	u4 := func() uint32 {
		if t.P(40) {
			return uint32(t.N(4))
		}
		return uint32(t.Word(4))
	}
	n := t.Small(size)
	for i := 0; i < n; i++ {
		switch t.N(4) {
		case 0:
			d.Top = append(d.Top, U8{id(), t.Text()})
		case 1:
			d.Top = append(d.Top, LC{u4(), id(), u4(), id()})
		case 2:
			d.Top = append(d.Top, FR{id(), id(), id(), id(), u4(), int32(t.Word(4))})
		case 3:
			tr := TR{Serial: u4(), Thread: u4()}
			for k := t.Small(8); k > 0; k-- {
				tr.Frames = append(tr.Frames, id())
			}
			d.Top = append(d.Top, tr)
		}
	}
	var last [3]uint64
	next := func(k int) uint64 {
		switch t.N(5) {
		case 0:
			return last[k]
		case 1:
			if t.P(10) {
				v := t.Word(w)
				if v > last[k] {
					last[k] = v
				}
				return last[k]
			}
		}
		max := ^uint64(0)
		if w == 4 {
			max = 0xffffffff
		}
		step := uint64(t.In(1, 40))
		if last[k] <= max-step {
			last[k] += step
		}
		return last[k]
	}
	for s := t.Small(4); s > 0; s-- {
		var seg []any
		for k := t.Small(size); k > 0; k-- {
			switch t.N(9) {
			case 0:
				seg = append(seg, RG{id(), id()})
			case 1:
				seg = append(seg, RL{id(), u4(), u4()})
			case 2:
				seg = append(seg, RJ{id(), u4(), u4()})
			case 3:
				seg = append(seg, RS{id()})
			case 4:
				seg = append(seg, RT{id(), u4(), u4()})
			case 5:
				seg = append(seg, t.RandClass(w, id, u4))
			case 6:
				seg = append(seg, OBJ{next(0), u4(), id(), t.Bytes(t.Small(30))})
			case 7:
				oa := OA{Id: next(1), Stack: u4(), Class: id()}
				for i := t.Small(9); i > 0; i-- {
					oa.Elems = append(oa.Elems, id())
				}
				seg = append(seg, oa)
			case 8:
				ty := allTypes[1+t.N(8)]
				c := t.Small(9)
				if t.P(3) {
					c = t.In(4000, 9000)
				}
				seg = append(seg, PA{next(2), u4(), ty, c, t.Bytes(c * width(ty, w))})
			}
		}
		d.Segs = append(d.Segs, seg)
	}
	return d
}

func (t *T) RandClass(w int, id func() uint64, u4 func() uint32) CD {
	c := CD{Class: id(), Stack: u4(), Super: id(), Loader: id(), Signers: id(), Prot: id(), Size: int32(t.Word(4))}
	for i := t.Small(4); i > 0; i-- {
		c.Pool = append(c.Pool, CP{uint16(t.Word(2)), t.Val(t.ValidType(), w)})
	}
	for i := t.Small(5); i > 0; i-- {
		c.Statics = append(c.Statics, SF{id(), t.Val(t.ValidType(), w)})
	}
	for i := t.Small(6); i > 0; i-- {
		c.Fields = append(c.Fields, IF{id(), t.ValidType()})
	}
	return c
}
