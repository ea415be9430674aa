package verifreplay

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"reflect"
	"time"

	"github.com/danielleontiev/neojhat/internal/core"
)

// chunked delivers its data in pieces, sometimes together with the final error.
type chunked struct {
	t     *T
	b     []byte
	at    int
	err   error
	early bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if c.at >= len(c.b) {
		return 0, c.err
	}
	n := len(c.b) - c.at
	if n > len(p) {
		n = len(p)
	}
	if n > 1 {
		n = 1 + c.t.N(n)
	}
	copy(p, c.b[c.at:c.at+n])
	c.at += n
	if c.early && c.at == len(c.b) {
		return n, c.err
	}
	return n, nil
}

var errBroken = errors.New("broken medium")

// reader presents data as some kind of reader together with a way to tell how much was consumed.
func (t *T) reader(data []byte) (io.Reader, func() int) {
	switch t.N(5) {
	case 0:
		c := &chunked{t: t, b: data, err: io.EOF, early: t.Bool()}
		t.Logf("reader: chunked (final error early: %v)", c.early)
		return c, func() int { return c.at }
	case 1:
		c := &chunked{t: t, b: data, err: errBroken}
		t.Logf("reader: chunked, ends with a read error")
		return c, func() int { return c.at }
	case 2:
		c := &chunked{t: t, b: data, err: io.EOF}
		size := 16 << uint(t.N(5))
		b := bufio.NewReaderSize(c, size)
		t.Logf("reader: bufio of size %d over chunked", size)
		return b, func() int { return c.at - b.Buffered() }
	}
	r := bytes.NewReader(data)
	return r, func() int { return len(data) - r.Len() }
}

func goCore(v Val) any {
	if v.Ty == TObject {
		return core.Identifier(v.Bits)
	}
	return v.goVal()
}

// same compares decoded structures, floats by their bits and empty slices like nil ones.
func same(a, b any) bool { return sameV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func sameV(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if tm, ok := a.Interface().(time.Time); ok {
		return tm.Equal(b.Interface().(time.Time))
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !a.Type().Field(i).IsExported() {
				continue
			}
			if !sameV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !sameV(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Interface, reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameV(a.Elem(), b.Elem())
	case reflect.Float32, reflect.Float64:
		return sameGo(a.Interface(), b.Interface())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// ---- C01

func init() {
	Props["C01"] = caseC01
	Props["C02"] = caseC02
	Props["C03"] = caseC03
	Props["C04"] = caseC04
	Props["C05"] = caseC05
}

func caseC01(t *T) {
	w := t.IdSize()
	idSize := uint32(w)
	if t.P(15) {
		idSize = []uint32{0, 1, 2, 3, 5, 7, 9, 16, 12, 0xffffffff, uint32(t.Word(4))}[t.N(11)]
		if idSize == 4 || idSize == 8 {
			idSize = 6
		}
	}
	type op struct {
		name string
		need int // -1: must fail
		want any
		run  func(p *core.PrimitiveParser, r *core.RecordParser) (any, error)
	}
	data := &buf{w: w}
	var ops []op
	n := t.In(1, 6)
	for i := 0; i < n; i++ {
		switch t.N(9) {
		case 0:
			v := t.Word(1)
			data.u1(v)
			ops = append(ops, op{"ParseUint8", 1, uint8(v), func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
				return either(p.ParseUint8())
			}})
		case 1:
			v := t.Word(2)
			data.u2(v)
			ops = append(ops, op{"ParseUint16", 2, uint16(v), func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
				return either(p.ParseUint16())
			}})
		case 2:
			v := t.Word(4)
			data.u4(v)
			ops = append(ops, op{"ParseUint32", 4, uint32(v), func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
				return either(p.ParseUint32())
			}})
		case 3:
			v := t.Word(4)
			data.u4(v)
			if t.Bool() {
				ops = append(ops, op{"ParseInt32", 4, int32(uint32(v)), func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
					return either(p.ParseInt32())
				}})
			} else {
				ops = append(ops, op{"ParseLineNumber", 4, core.LineNumber(int32(uint32(v))), func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
					return either(p.ParseLineNumber())
				}})
			}
		case 4:
			v := t.Word(w)
			data.id(v)
			need := w
			if idSize != uint32(w) {
				need = -1
			}
			ops = append(ops, op{"ParseIdentifier", need, core.Identifier(v), func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
				return either(p.ParseIdentifier())
			}})
		case 5:
			v := t.Word(1)
			data.u1(v)
			ops = append(ops, op{"ParseJavaType", 1, core.JavaType(v), func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
				return either(p.ParseJavaType())
			}})
		case 6:
			ty := t.ValidType()
			if t.P(10) {
				ty = []int{0, 1, 3, 12, 255, 16, 34, int(t.Word(1))}[t.N(8)]
			}
			need := width(ty, w)
			v := Val{Ty: ty}
			if need >= 0 {
				v = t.Val(ty, w)
				data.val(v)
			}
			if ty == TObject && idSize != uint32(w) {
				need = -1
			}
			ops = append(ops, op{"ParseJavaValue", need, core.JavaValue{Type: core.JavaType(ty), Value: goCore(v)}, func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
				return either(p.ParseJavaValue(core.JavaType(ty)))
			}})
		case 7:
			b := t.Bytes(t.Small(40))
			if t.P(5) {
				b = t.Bytes(t.In(4000, 9000))
			}
			data.raw(b)
			k := len(b)
			ops = append(ops, op{"ParseByteSeq", k, b, func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
				return either(p.ParseByteSeq(k))
			}})
		case 8:
			b := t.Bytes(t.Small(40))
			if t.P(5) {
				b = t.Bytes(t.In(4000, 9000))
			}
			data.raw(b)
			k := len(b)
			ops = append(ops, op{"ReadBytes", k, b, func(p *core.PrimitiveParser, r *core.RecordParser) (any, error) {
				return either(r.ReadBytes(k))
			}})
		}
	}
	in := data.b
	switch t.N(4) {
	case 0:
		in = in[:t.N(len(in)+1)]
	case 1:
		in = append(append([]byte{}, in...), t.Bytes(t.In(1, 5))...)
	}
	t.Logf("identifier size %d, input %d bytes: % x", idSize, len(in), head(in))
	rd, used := t.reader(in)
	p := core.NewPrimitiveParser(rd, idSize)
	r := core.NewRecordParser(rd, idSize)
	at := 0
	for _, o := range ops {
		t.Logf("%s needs %d at %d", o.name, o.need, at)
		got, err := o.run(p, r)
		if o.need < 0 || o.need > 0 && at+o.need > len(in) {
			if err == nil {
				t.Fail("%s at %d of %d bytes succeeded with %v, it must fail", o.name, at, len(in), got)
			}
			return
		}
		if err != nil {
			t.Fail("%s at %d of %d bytes failed: %v", o.name, at, len(in), err)
		}
		if !same(got, o.want) {
			t.Fail("%s at %d returned %#v, the input says %#v", o.name, at, got, o.want)
		}
		at += o.need
		if used() != at {
			t.Fail("%s consumed up to byte %d instead of %d", o.name, used(), at)
		}
	}
}

func either[X any](x X, err error) (any, error) { return x, err }

func head(b []byte) []byte {
	if len(b) > 160 {
		return b[:160]
	}
	return b
}

// ---- C02, C03

func conv(r any, w int) any {
	switch x := r.(type) {
	case U8:
		return core.HprofUtf8{Identifier: core.Identifier(x.Id), Characters: x.Text}
	case LC:
		return core.HprofLoadClass{ClassSerialNumber: x.Serial, ClassObjectId: core.Identifier(x.Class),
			StackTraceSerialNumber: x.Stack, ClassNameId: core.Identifier(x.Name)}
	case FR:
		return core.HprofFrame{StackFrameId: core.Identifier(x.Id), MethodNameId: core.Identifier(x.Method),
			MethodSignatureId: core.Identifier(x.Sig), SourceFileNameId: core.Identifier(x.File),
			ClassSerialNumber: x.Class, LineNumber: core.LineNumber(x.Line)}
	case TR:
		v := core.HprofTrace{StackTraceSerialNumber: x.Serial, ThreadSerialNumber: x.Thread, NumberOfFrames: uint32(len(x.Frames))}
		for _, f := range x.Frames {
			v.StackFrameIds = append(v.StackFrameIds, core.Identifier(f))
		}
		return v
	case RG:
		return core.HprofGcRootJniGlobal{ObjectId: core.Identifier(x.Obj), JniGlobalRefId: core.Identifier(x.Ref)}
	case RL:
		return core.HprofGcRootJniLocal{ObjectId: core.Identifier(x.Obj), ThreadSerialNumber: x.Thread, FrameNumberInStackTrace: x.Frame}
	case RJ:
		return core.HprofGcRootJavaFrame{ObjectId: core.Identifier(x.Obj), ThreadSerialNumber: x.Thread, FrameNumberInStackTrace: x.Frame}
	case RS:
		return core.HprofGcRootStickyClass{ObjectId: core.Identifier(x.Obj)}
	case RT:
		return core.HprofGcRootThreadObj{ThreadObjectId: core.Identifier(x.Obj), ThreadSequenceNumber: x.Thread, StackTraceSequenceNumber: x.Stack}
	case CD:
		v := core.HprofGcClassDump{ClassObjectId: core.Identifier(x.Class), StackTraceSerialNumber: x.Stack,
			SuperclassObjectId: core.Identifier(x.Super), ClassloaderObjectId: core.Identifier(x.Loader),
			SignersObjectId: core.Identifier(x.Signers), ProtectionDomainObjectId: core.Identifier(x.Prot),
			InstanceSize: x.Size, SizeOfConstantPool: uint16(len(x.Pool)), NumberOfStaticFields: uint16(len(x.Statics)),
			NumberOfInstanceFields: uint16(len(x.Fields))}
		for _, c := range x.Pool {
			v.ConstantPoolRecords = append(v.ConstantPoolRecords, core.HprofGcClassDumpConstantPoolRecord{
				ConstantPoolIndex: c.Index, Ty: core.JavaType(c.V.Ty), Value: jv(c.V)})
		}
		for _, s := range x.Statics {
			v.StaticFieldRecords = append(v.StaticFieldRecords, core.HprofGcClassDumpStaticFieldsRecord{
				StaticFieldName: core.Identifier(s.Name), Ty: core.JavaType(s.V.Ty), Value: jv(s.V)})
		}
		for _, f := range x.Fields {
			v.InstanceFieldRecords = append(v.InstanceFieldRecords, core.HprofGcClassDumpInstanceFieldsRecord{
				InstanceFieldName: core.Identifier(f.Name), Ty: core.JavaType(f.Ty)})
		}
		return v
	case OBJ:
		return core.HprofGcClassDumpInstanceDumpHeader{ObjectId: core.Identifier(x.Id), StackTraceSerialNumber: x.Stack,
			ClassObjectId: core.Identifier(x.Class), NumberOfBytesThatFollow: uint32(len(x.Payload))}
	case OA:
		return core.HprofGcObjArrayDumpHeader{ArrayObjectId: core.Identifier(x.Id), StackTraceSerialNumber: x.Stack,
			NumberOfElements: uint32(len(x.Elems)), ArrayClassId: core.Identifier(x.Class)}
	case PA:
		return core.HprofGcPrimArrayDumpHeader{ArrayObjectId: core.Identifier(x.Id), StackTraceSerialNumber: x.Stack,
			NumberOfElements: uint32(x.Count), ElementType: core.JavaType(x.Ty)}
	}
	panic("conv")
}

func jv(v Val) core.JavaValue { return core.JavaValue{Type: core.JavaType(v.Ty), Value: goCore(v)} }

// headerLen is the number of bytes decoding the record consumes.
func headerLen(r any, w int) int {
	switch r.(type) {
	case OBJ, OA:
		return 2*w + 8
	case PA:
		return w + 9
	}
	return len(body(r, w))
}

func decode(r any, p *core.RecordParser, w int) (any, error) {
	switch r.(type) {
	case U8:
		return either(p.ParseHprofUtf8(uint32(len(body(r, w)))))
	case LC:
		return either(p.ParseHprofLoadClass())
	case FR:
		return either(p.ParseHprofFrame())
	case TR:
		return either(p.ParseHprofTrace())
	case RG:
		return either(p.ParseHprofGcRootJniGlobal())
	case RL:
		return either(p.ParseHprofGcRootJniLocal())
	case RJ:
		return either(p.ParseHprofGcRootJavaFrame())
	case RS:
		return either(p.ParseHprofGcRootStickyClass())
	case RT:
		return either(p.ParseHprofGcRootThreadObj())
	case CD:
		return either(p.ParseHprofGcClassDump())
	case OBJ:
		return either(p.ParseHprofGcClassDumpInstanceDumpHeader())
	case OA:
		return either(p.ParseHprofGcObjArrayDumpHeader())
	case PA:
		return either(p.ParseHprofGcPrimArrayDumpHeader())
	}
	panic("decode")
}

func (t *T) randRecord(w int) any {
	id := func() uint64 { return t.Word(w) }
	u4 := func() uint32 { return uint32(t.Word(4)) }
	switch t.N(12) {
	case 0, 1:
		s := t.Text()
		if t.P(10) {
			s = string(t.Bytes(t.In(3000, 9000)))
		}
		return U8{id(), s}
	case 2:
		return LC{u4(), id(), u4(), id()}
	case 3:
		return FR{id(), id(), id(), id(), u4(), int32(t.Word(4))}
	case 4:
		return RG{id(), id()}
	case 5:
		return RL{id(), u4(), u4()}
	case 6:
		return RJ{id(), u4(), u4()}
	case 7:
		return RS{id()}
	case 8:
		return RT{id(), u4(), u4()}
	case 9:
		return OBJ{id(), u4(), id(), t.Bytes(t.Small(20))}
	case 10:
		oa := OA{Id: id(), Stack: u4(), Class: id()}
		for k := t.Small(5); k > 0; k-- {
			oa.Elems = append(oa.Elems, id())
		}
		return oa
	}
	ty := allTypes[1+t.N(8)]
	if t.P(10) {
		ty = int(t.Word(1))
	}
	c := t.Small(9)
	return PA{id(), u4(), ty, c, t.Bytes(c)}
}

// decodeMany runs decoders over concatenated records and compares.
func (t *T) decodeMany(w int, recs []any) {
	for i, r := range recs {
		t.Logf("record %d: %#v", i, r)
	}
	type step struct {
		at, hdr, end int
		r            any
	}
	var in []byte
	var steps []step
	for _, r := range recs {
		switch r.(type) {
		case OBJ, OA, PA:
		}
		b := body(r, w)
		at := len(in)
		in = append(in, b...)
		steps = append(steps, step{at, headerLen(r, w), len(in), r})
	}
	full := len(in)
	switch t.N(3) {
	case 0:
		cut := t.N(full + 1)
		if t.Bool() && len(steps) > 0 {
			cut = steps[t.N(len(steps))].end - t.N(3)
			if cut < 0 {
				cut = 0
			}
		}
		in = in[:cut]
		t.Logf("truncated to %d of %d bytes", cut, full)
	case 1:
		in = append(in, t.Bytes(t.In(1, 9))...)
	}
	rd, used := t.reader(in)
	p := core.NewRecordParser(rd, uint32(w))
	for i, s := range steps {
		got, err := decode(s.r, p, w)
		if s.at+s.hdr > len(in) {
			if err == nil {
				t.Fail("record %d (%T) is truncated, decoding it succeeded with %+v", i, s.r, got)
			}
			return
		}
		want := conv(s.r, w)
		if err != nil {
			t.Fail("record %d (%T) is complete, decoding it failed: %v", i, s.r, err)
		}
		if !same(got, want) {
			t.Fail("record %d: decoded %+v, the input says %+v", i, got, want)
		}
		if used() != s.at+s.hdr {
			t.Fail("record %d (%T): decoding consumed up to byte %d instead of %d", i, s.r, used(), s.at+s.hdr)
		}
		// payloads
		rest := s.end - s.at - s.hdr
		if rest > 0 {
			b := make([]byte, rest)
			n, err := io.ReadFull(rd, b)
			if s.end > len(in) {
				return
			}
			if err != nil || n != rest || !bytes.Equal(b, in[s.at+s.hdr:s.end]) {
				t.Fail("record %d: the bytes after the header are not the payload", i)
			}
		}
	}
}

func caseC02(t *T) {
	w := t.IdSize()
	switch t.N(6) {
	case 0: // record headers
		tag, tick, rem := t.Word(1), t.Word(4), t.Word(4)
		b := &buf{w: w}
		b.u1(tag)
		b.u4(tick)
		b.u4(rem)
		in := b.b
		if t.P(30) {
			in = in[:t.N(9)]
		} else if t.Bool() {
			in = append(in, t.Bytes(3)...)
		}
		t.Logf("record header % x", in)
		rd, used := t.reader(in)
		h, err := core.NewRecordParser(rd, uint32(w)).ParseRecordHeader()
		if len(in) < 9 {
			if err == nil {
				t.Fail("a truncated record header was accepted")
			}
			return
		}
		if err != nil {
			t.Fail("a complete record header failed: %v", err)
		}
		if uint64(h.Tag) != tag || uint64(h.Remaining) != rem {
			t.Fail("record header %+v, the input says tag %d remaining %d", h, tag, rem)
		}
		if used() != 9 {
			t.Fail("record header consumed %d bytes", used())
		}
		return
	case 1: // sub-record types and too short strings
		if t.Bool() {
			in := t.Bytes(t.N(3))
			t.Logf("sub-record type % x", in)
			rd, used := t.reader(in)
			h, err := core.NewRecordParser(rd, uint32(w)).ParseSubRecordHeader()
			if (err == nil) != (len(in) > 0) {
				t.Fail("sub-record type of %d bytes: error %v", len(in), err)
			}
			if err == nil && (byte(h.SubRecordType) != in[0] || used() != 1) {
				t.Fail("sub-record type %v, consumed %d", h, used())
			}
			return
		}
		in := t.Bytes(t.N(30))
		rem := t.N(w)
		t.Logf("string record with %d remaining bytes, input % x", rem, in)
		rd, _ := t.reader(in)
		if got, err := core.NewRecordParser(rd, uint32(w)).ParseHprofUtf8(uint32(rem)); err == nil {
			t.Fail("a string record shorter than its identifier was accepted: %+v", got)
		}
		return
	case 2: // unsupported identifier size
		bad := []uint32{0, 1, 2, 3, 5, 6, 7, 9, 16}[t.N(9)]
		r := t.randRecord(8)
		in := append(body(r, 8), make([]byte, 80)...)
		t.Logf("identifier size %d for %#v", bad, r)
		if got, err := decode(r, core.NewRecordParser(bytes.NewReader(in), bad), 8); err == nil {
			t.Fail("a record was decoded with identifier size %d: %+v", bad, got)
		}
		return
	}
	var recs []any
	for k := t.In(1, 4); k > 0; k-- {
		recs = append(recs, t.randRecord(w))
	}
	t.Logf("identifier size %d", w)
	t.decodeMany(w, recs)
}

func caseC03(t *T) {
	w := t.IdSize()
	var recs []any
	id := func() uint64 { return t.Word(w) }
	u4 := func() uint32 { return uint32(t.Word(4)) }
	for k := t.In(1, 3); k > 0; k-- {
		if t.P(35) {
			tr := TR{Serial: u4(), Thread: u4()}
			n := t.Small(20)
			if t.P(5) {
				n = t.In(250, 3000)
			} else if t.N(300) == 0 {
				n = t.In(65530, 70000)
			}
			for i := 0; i < n; i++ {
				tr.Frames = append(tr.Frames, id())
			}
			recs = append(recs, tr)
			continue
		}
		c := t.RandClass(w, id, u4)
		if t.N(200) == 0 {
			t.hugeClass(&c, id)
		} else if t.P(4) {
			n := t.In(250, 1500)
			for i := 0; i < n; i++ {
				switch t.N(3) {
				case 0:
					c.Fields = append(c.Fields, IF{id(), int(t.Word(1))})
				case 1:
					c.Statics = append(c.Statics, SF{id(), t.Val(t.ValidType(), w)})
				case 2:
					c.Pool = append(c.Pool, CP{uint16(t.Word(2)), t.Val(t.ValidType(), w)})
				}
			}
		}
		if t.P(10) && len(c.Statics) > 0 {
			// an invalid type code: the rest cannot be understood
			c.Statics[t.N(len(c.Statics))].V.Ty = TByte
			b := body(c, w)
			at := 7*w + 10
			for _, x := range c.Pool {
				at += 3 + width(x.V.Ty, w)
			}
			at += 2 + w // type of the first static
			b[at] = []byte{0, 1, 3, 12, 99, 255}[t.N(6)]
			t.Logf("class dump %#v with type code %d for its first static field", c, b[at])
			if got, err := core.NewRecordParser(bytes.NewReader(append(b, make([]byte, 64)...)), uint32(w)).ParseHprofGcClassDump(); err == nil {
				t.Fail("a class dump with an invalid type code was decoded: %+v", got)
			}
			return
		}
		recs = append(recs, c)
	}
	t.Logf("identifier size %d", w)
	t.decodeMany(w, recs)
}

func caseC04(t *T) {
	w := uint32(t.Word(4))
	if t.P(60) {
		w = uint32(t.IdSize())
	}
	ms := t.Word(8) % 9223372036854
	if t.P(30) {
		ms = t.Word(4)
	}
	b := &buf{}
	name := []byte("JAVA PROFILE 1.0.2")
	valid := true
	b.raw(name)
	b.u1(0)
	b.u4(uint64(w))
	b.u4(ms >> 32)
	b.u4(ms & 0xffffffff)
	in := b.b
	switch t.N(6) {
	case 0:
		in = in[:t.N(31)]
		valid = false
	case 1:
		i := t.N(18)
		x := byte(t.In(1, 255))
		in[i] ^= x
		valid = false
	case 2:
		copy(in, []string{"JAVA PROFILE 1.0.1", "JAVA PROFILE 1.0.3", "JAVA PROFILE 1.0.\x00", "java profile 1.0.2", "JAVA PROFILE 1.0.2"}[t.N(5)])
		valid = string(in[:18]) == "JAVA PROFILE 1.0.2"
	case 3:
		in = append(in, t.Bytes(t.In(1, 20))...)
	}
	t.Logf("header %q", in)
	rd, used := t.reader(in)
	h, err := core.ParseFileHeader(rd)
	if !valid {
		if err == nil {
			t.Fail("an invalid header was accepted: %+v", h)
		}
		return
	}
	if err != nil {
		t.Fail("a valid header was refused: %v", err)
	}
	if h.Header != core.ValidProfileVersion || h.Header != "JAVA PROFILE 1.0.2" {
		t.Fail("profile name %q", h.Header)
	}
	if h.IdentifierSize != w {
		t.Fail("identifier size %d, the header says %d", h.IdentifierSize, w)
	}
	if !h.Timestamp.Equal(time.UnixMilli(int64(ms))) {
		t.Fail("timestamp %v, the header says %d ms after the epoch (%v)", h.Timestamp.UTC(), ms, time.UnixMilli(int64(ms)).UTC())
	}
	if used() != 31 {
		t.Fail("the header consumed %d bytes", used())
	}
}

func caseC05(t *T) {
	w := t.IdSize()
	s := core.NewSizeInfo(uint32(w))
	id := func() uint64 { return t.Word(w) }
	u4 := func() uint32 { return uint32(t.Word(4)) }
	if t.P(10) {
		ty := t.ValidType()
		t.Logf("size of type %d with identifier size %d", ty, w)
		if got := s.OfType(core.JavaType(ty)); got != width(ty, w) {
			t.Fail("size of type %d is %d, values of it take %d bytes", ty, got, width(ty, w))
		}
		return
	}
	var r any
	if t.P(40) {
		c := t.RandClass(w, id, u4)
		if t.P(10) {
			for i := t.In(100, 400); i > 0; i-- {
				c.Statics = append(c.Statics, SF{id(), t.Val(t.ValidType(), w)})
				c.Pool = append(c.Pool, CP{uint16(t.Word(2)), t.Val(t.ValidType(), w)})
				c.Fields = append(c.Fields, IF{id(), t.ValidType()})
			}
		} else if t.N(60) == 0 {
			t.hugeClass(&c, id)
		}
		r = c
	} else {
		for {
			r = t.randRecord(w)
			switch x := r.(type) {
			case RG, RL, RJ, RS, RT, OBJ, OA:
			case PA:
				if width(x.Ty, w) < 0 {
					continue
				}
			default:
				continue
			}
			break
		}
	}
	t.Logf("size of %#v with identifier size %d", r, w)
	wire := len(body(r, w))
	d := conv(r, w)
	switch x := r.(type) {
	case OBJ, OA, PA:
		// the counts of a header need not be backed by data to have a size
		count, payload := 0, 0
		if y, ok := r.(PA); ok {
			count = int(uint32(t.Word(4)))
			if t.Bool() {
				count = y.Count
			}
			payload = count * width(y.Ty, w)
			h := d.(core.HprofGcPrimArrayDumpHeader)
			h.NumberOfElements = uint32(count)
			d = h
			wire = w + 9 + payload
		} else if y, ok := r.(OA); ok {
			count = len(y.Elems)
			if t.Bool() {
				count = int(uint32(t.Word(4)))
			}
			h := d.(core.HprofGcObjArrayDumpHeader)
			h.NumberOfElements = uint32(count)
			d = h
			payload = count * w
			wire = 2*w + 8 + payload
		} else {
			h := d.(core.HprofGcClassDumpInstanceDumpHeader)
			if t.Bool() {
				h.NumberOfBytesThatFollow = uint32(t.Word(4))
			}
			d = h
			payload = int(h.NumberOfBytesThatFollow)
			wire = 2*w + 8 + payload
		}
		_ = x
		full, recs := s.OfObject(d)
		if full != wire || recs != payload {
			t.Fail("sizes (%d, %d) computed for %+v, it takes %d bytes with a payload of %d", full, recs, d, wire, payload)
		}
	default:
		if got := s.Of(d); got != wire {
			t.Fail("size %d computed for %+v, it takes %d bytes", got, d, wire)
		}
	}
}

// hugeClass fills one of the tables of a class dump towards its limit of 65535 entries.
func (t *T) hugeClass(c *CD, id func() uint64) {
	n := t.In(7000, 65535)
	if t.P(30) {
		n = 65535 - t.N(3)
	}
	ty := t.ValidType()
	switch t.N(3) {
	case 0:
		c.Fields = nil
		for i := 0; i < n; i++ {
			c.Fields = append(c.Fields, IF{uint64(i), ty})
		}
	case 1:
		c.Statics = nil
		for i := 0; i < n; i++ {
			c.Statics = append(c.Statics, SF{uint64(i), Val{ty, uint64(i) & 1}})
		}
	default:
		c.Pool = nil
		for i := 0; i < n; i++ {
			c.Pool = append(c.Pool, CP{uint16(i), Val{ty, uint64(i) & 1}})
		}
	}
}
