package verifreplay

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/dump"
	"github.com/danielleontiev/neojhat/internal/storage"
)

func init() {
	Props["C06"] = caseC06
	Props["C07"] = caseC07
	Props["C08"] = caseC08
	Props["C09"] = caseC09
	Props["C10"] = caseC10
	Props["C11"] = caseC11
	Props["C12"] = caseC12
	Props["C13"] = caseC13
	Props["C14"] = caseC14
	Props["C32"] = caseC32
}

var errDisk = errors.New("disk full")

// disk is an index file in memory that can fail.
type disk struct {
	b         []byte
	writes    int
	failWrite int // fail from that write on, 0: never
	once      bool
	failClose bool
	closed    int
	failed    bool
}

func (d *disk) Write(p []byte) (int, error) {
	d.writes++
	if d.failWrite > 0 && (d.writes == d.failWrite || !d.once && d.writes > d.failWrite) {
		d.failed = true
		n := len(p) / 2
		d.b = append(d.b, p[:n]...)
		return n, errDisk
	}
	d.b = append(d.b, p...)
	return len(p), nil
}

func (d *disk) Close() error {
	d.closed++
	if d.failClose {
		d.failed = true
		return errDisk
	}
	return nil
}

type indexing struct {
	small *storage.SmallRecordsWriteStorage
	meta  *storage.MetaWriteStorage
	d     [3]*disk
	p     *dump.Parser
	err   error
}

func newIndexing(r io.Reader) *indexing {
	x := &indexing{small: storage.NewSmallRecordsWriteStorage(), meta: storage.NewMetaWriteStorage()}
	for i := range x.d {
		x.d[i] = &disk{}
	}
	x.p = dump.NewParser(r, x.small, storage.NewBigRecordsWriteStorage(x.d[0], x.d[1], x.d[2]), x.meta)
	return x
}

// source delivers the bytes of a dump in one of several ways.
func (t *T) source(b []byte) io.Reader {
	switch t.N(3) {
	case 0:
		return &chunked{t: t, b: b, err: io.EOF, early: t.Bool()}
	case 1:
		return &chunked{t: t, b: b, err: errBroken}
	}
	return bytes.NewReader(b)
}

// what a dump holds
type held struct {
	utf8   map[core.Identifier]core.HprofUtf8
	load   []core.HprofLoadClass
	frame  map[core.Identifier]core.HprofFrame
	trace  map[uint32]core.HprofTrace
	global []core.HprofGcRootJniGlobal
	local  []core.HprofGcRootJniLocal
	jframe []core.HprofGcRootJavaFrame
	sticky []core.HprofGcRootStickyClass
	thread []core.HprofGcRootThreadObj
	class  map[core.Identifier]core.HprofGcClassDump
	inst   map[core.Identifier]int
	oa     map[core.Identifier]int
	oae    map[core.Identifier]int
	pa     map[core.JavaType]int
	pae    map[core.JavaType]int
}

func heldBy(d *Dump) *held {
	h := &held{utf8: map[core.Identifier]core.HprofUtf8{}, frame: map[core.Identifier]core.HprofFrame{}, trace: map[uint32]core.HprofTrace{},
		class: map[core.Identifier]core.HprofGcClassDump{}, inst: map[core.Identifier]int{}, oa: map[core.Identifier]int{}, oae: map[core.Identifier]int{},
		pa: map[core.JavaType]int{}, pae: map[core.JavaType]int{}}
	for _, r := range d.Top {
		switch v := conv(r, d.W).(type) {
		case core.HprofUtf8:
			h.utf8[v.Identifier] = v
		case core.HprofLoadClass:
			h.load = append(h.load, v)
		case core.HprofFrame:
			h.frame[v.StackFrameId] = v
		case core.HprofTrace:
			h.trace[v.ThreadSerialNumber] = v
		}
	}
	for _, r := range d.subs() {
		switch x := r.(type) {
		case OBJ:
			h.inst[core.Identifier(x.Class)]++
			continue
		case OA:
			h.oa[core.Identifier(x.Class)]++
			h.oae[core.Identifier(x.Class)] += len(x.Elems)
			continue
		case PA:
			h.pa[core.JavaType(x.Ty)]++
			h.pae[core.JavaType(x.Ty)] += x.Count
			continue
		}
		switch v := conv(r, d.W).(type) {
		case core.HprofGcRootJniGlobal:
			h.global = append(h.global, v)
		case core.HprofGcRootJniLocal:
			h.local = append(h.local, v)
		case core.HprofGcRootJavaFrame:
			h.jframe = append(h.jframe, v)
		case core.HprofGcRootStickyClass:
			h.sticky = append(h.sticky, v)
		case core.HprofGcRootThreadObj:
			h.thread = append(h.thread, v)
		case core.HprofGcClassDump:
			h.class[v.ClassObjectId] = v
		}
	}
	return h
}

func (t *T) eq(what string, got, want any) {
	if !same(got, want) {
		t.Fail("%s: got %s, want %s", what, trim(fmt.Sprintf("%+v", got), 600), trim(fmt.Sprintf("%+v", want), 600))
	}
}

func (f *File) index(kind int) []byte {
	var b []byte
	for _, e := range f.Order {
		if e.Kind == kind {
			b = binary.BigEndian.AppendUint64(b, e.Id)
			b = binary.BigEndian.AppendUint64(b, uint64(e.Offset))
		}
	}
	return b
}

func (t *T) logDump(d *Dump, f *File) {
	t.Logf("dump: id size %d, %d top records, %d segments, %d sub-records, %d bytes: %x", d.W, len(d.Top), len(d.Segs), len(d.subs()), len(f.B), f.B)
}

func (t *T) checkIndexes(x *indexing, f *File) {
	for k, name := range []string{"instance", "object array", "primitive array"} {
		if !bytes.Equal(x.d[k].b, f.index(k)) {
			t.Fail("%s index holds %x, want %x", name, head(x.d[k].b), head(f.index(k)))
		}
	}
}

func (t *T) indexed() (*Dump, *File, *indexing) {
	d := t.RandDump(14)
	f := d.Encode(uint32(t.Word(4)))
	t.logDump(d, f)
	b := f.B
	if t.P(20) {
		b = append(append([]byte{}, b...), t.Bytes(t.Small(20))...)
		t.Logf("followed by %d more bytes", len(b)-len(f.B))
	}
	x := newIndexing(t.source(b))
	if err := x.p.ParseHeapDump(); err != nil {
		t.Fail("a well-formed dump was refused: %v", err)
	}
	return d, f, x
}

func caseC06(t *T) {
	_, f, x := t.indexed()
	t.checkIndexes(x, f)
	if x.p.GetPosition() != f.End {
		t.Fail("final position %d, want %d", x.p.GetPosition(), f.End)
	}
}

func caseC07(t *T) {
	d, f, x := t.indexed()
	h := heldBy(d)
	s := x.small
	t.eq("identifier size", s.IdSize, uint32(d.W))
	t.eq("timestamp", s.Timestamp.UnixMilli(), int64(d.Millis))
	t.eq("strings", s.HprofUtf8, h.utf8)
	t.eq("loaded classes", s.HprofLoadClass, h.load)
	t.eq("frames", s.HprofFrame, h.frame)
	t.eq("traces", s.HprofTrace, h.trace)
	t.eq("JNI globals", s.HprofGcRootJniGlobal, h.global)
	t.eq("JNI locals", s.HprofGcRootJniLocal, h.local)
	t.eq("Java frames", s.HprofGcRootJavaFrame, h.jframe)
	t.eq("sticky classes", s.HprofGcRootStickyClass, h.sticky)
	t.eq("thread objects", s.HprofGcRootThreadObj, h.thread)
	t.eq("class dumps", s.HprofGcClassDump, h.class)
	t.eqCounters(x.meta.Counters, h)
	t.checkIndexes(x, f)
}

func (t *T) eqCounters(c storage.Counters, h *held) {
	t.eq("instances per class", c.InstancesCount, h.inst)
	t.eq("object arrays per class", c.ObjArraysCount, h.oa)
	t.eq("object array elements per class", c.ObjArrayElementsCount, h.oae)
	t.eq("primitive arrays per type", c.PrimArraysCount, h.pa)
	t.eq("primitive array elements per type", c.PrimArrayElementsCount, h.pae)
}

var knownTags = map[byte]bool{1: true, 2: true, 4: true, 5: true, 0x1c: true, 0x2c: true}
var knownSubs = map[byte]bool{1: true, 2: true, 3: true, 5: true, 8: true, 0x20: true, 0x21: true, 0x22: true, 0x23: true, 0x1c: true, 0x2c: true}

func (t *T) mustFail(what string, x *indexing) {
	if err := x.p.ParseHeapDump(); err == nil {
		t.Fail("indexing reported success for a dump with %s", what)
	}
}

func caseC08(t *T) {
	if t.Case == 2 {
		bigIndex(t)
		return
	}
	d := t.RandDump(10)
	switch t.N(9) {
	case 0, 1: // truncation
		f := d.Encode(7)
		t.logDump(d, f)
		for k := 0; k < 12; k++ {
			n := t.N(len(f.B))
			if k < 4 && t.Bool() {
				n = f.Bounds[t.N(len(f.Bounds))]
			}
			if k < 3 {
				n = f.End - 1 - t.N(12)
			}
			t.Logf("cut to %d bytes", n)
			t.mustFail(fmt.Sprintf("only %d of %d bytes", n, len(f.B)), newIndexing(t.source(f.B[:n])))
		}
	case 2: // unknown top-level record
		f := d.Encode(7)
		tag := byte(t.N(256))
		if t.P(60) {
			tag = []byte{0, 3, 6, 7, 10, 11, 13, 14, 12, 0x0c, 0xff, 0x2b, 0x1b, 0x1d}[t.N(14)]
		}
		if knownTags[tag] {
			return
		}
		// at the start of a top-level record
		at := 31
		for i := t.N(len(d.Top) + 1); i > 0; i-- {
			at += 9 + int(binary.BigEndian.Uint32(f.B[at+5:]))
		}
		extra := t.Bytes(t.Small(12))
		rec := append([]byte{tag, 0, 0, 0, 0, 0, 0, 0, byte(len(extra))}, extra...)
		b := append(append(append([]byte{}, f.B[:at]...), rec...), f.B[at:]...)
		t.Logf("unknown tag %d at %d of %x", tag, at, b)
		t.mustFail(fmt.Sprintf("an unknown record type %d", tag), newIndexing(t.source(b)))
	case 3: // unknown sub-record
		if len(d.Segs) == 0 {
			d.Segs = append(d.Segs, nil)
		}
		f := d.Encode(7)
		sub := byte(t.N(256))
		if t.P(60) {
			sub = []byte{0, 4, 6, 7, 9, 0xff, 0xfe, 0x24, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x90, 0xc3}[t.N(15)]
		}
		if knownSubs[sub] {
			return
		}
		// the place after a whole sub-record of a segment
		at := 31
		for range d.Top {
			at += 9 + int(binary.BigEndian.Uint32(f.B[at+5:]))
		}
		s := t.N(len(d.Segs))
		for i := 0; i <= s; i++ {
			at += 9
			if i < s {
				for _, r := range d.Segs[i] {
					at += 1 + len(body(r, d.W))
				}
			}
		}
		for i, n := 0, t.N(len(d.Segs[s])+1); i < n; i++ {
			at += 1 + len(body(d.Segs[s][i], d.W))
		}
		b := append(append([]byte{}, f.B[:at]...), sub)
		if t.Bool() {
			b = append(b, t.Bytes(t.Small(8))...)
		}
		b = append(b, f.B[at:]...)
		t.Logf("unknown sub-record type %d at %d of %x", sub, at, b)
		t.mustFail(fmt.Sprintf("an unknown sub-record type %d", sub), newIndexing(t.source(b)))
	case 4: // invalid element type
		ty := t.N(256)
		for _, v := range allTypes {
			if v == ty {
				return
			}
		}
		w := d.W
		seg := []any{PA{1 << 31, 1, ty, t.Small(6), t.Bytes(t.Small(40))}}
		if len(d.Segs) > 0 && t.Bool() {
			seg = append(d.Segs[0], seg...)
		}
		d2 := &Dump{W: w, Millis: d.Millis, Top: d.Top, Segs: [][]any{seg}}
		f := d2.Encode(7)
		t.logDump(d2, f)
		t.mustFail(fmt.Sprintf("a primitive array of type %d", ty), newIndexing(t.source(f.B)))
	case 5: // identifiers going backward
		k := t.N(3)
		mk := func(id uint64) any {
			switch k {
			case 0:
				return OBJ{id, 1, 2, t.Bytes(t.Small(9))}
			case 1:
				return OA{id, 1, 2, []uint64{1, 2}}
			}
			return PA{id, 1, TByte, 3, t.Bytes(3)}
		}
		hi := 1 + t.Word(d.W)%0xfffffffe
		lo := t.Word(d.W) % hi
		if t.P(40) {
			lo = hi - 1
		}
		d2 := &Dump{W: d.W, Top: d.Top}
		if t.Bool() {
			d2.Segs = [][]any{{mk(hi), mk(lo)}}
		} else {
			d2.Segs = [][]any{{mk(hi), RS{5}}, {RG{1, 2}, mk(lo)}}
		}
		f := d2.Encode(7)
		t.logDump(d2, f)
		t.mustFail("object identifiers out of order", newIndexing(t.source(f.B)))
	case 6: // failing index files
		if len(d.Segs) == 0 {
			d.Segs = [][]any{{OBJ{1, 1, 1, nil}}}
		}
		f := d.Encode(7)
		t.logDump(d, f)
		x := newIndexing(t.source(f.B))
		k := t.N(3)
		dk := x.d[k]
		if t.Bool() {
			dk.failWrite = 1
			dk.once = t.Bool()
		} else {
			dk.failClose = true
		}
		t.Logf("index file %d fails: write %d (once %v), close %v", k, dk.failWrite, dk.once, dk.failClose)
		err := x.p.ParseHeapDump()
		if err == nil && dk.failed {
			t.Fail("indexing reported success although the index file could not be written or closed")
		}
		if err == nil && dk.failClose {
			t.Fail("indexing reported success without closing the index file")
		}
	case 7: // bad header
		f := d.Encode(7)
		b := append([]byte{}, f.B...)
		switch t.N(3) {
		case 0:
			b[t.N(18)] ^= byte(1 << t.N(8))
		case 1:
			copy(b, []byte("JAVA PROFILE 1.0.1\x00"))
		case 2:
			b[17] = byte('0' + []int{0, 1, 3, 4, 9}[t.N(5)])
		}
		t.Logf("header %q", b[:31])
		t.mustFail("a header that is not of profile 1.0.2", newIndexing(t.source(b)))
	default: // success means complete and durable
		f := d.Encode(7)
		t.logDump(d, f)
		x := newIndexing(t.source(f.B))
		if err := x.p.ParseHeapDump(); err != nil {
			t.Fail("a well-formed dump was refused: %v", err)
		}
		t.checkIndexes(x, f)
		for k := range x.d {
			if x.d[k].closed == 0 {
				t.Fail("index file %d was not closed", k)
			}
		}
	}
}

// bigIndex has more objects than one batch of the index, so that batches are flushed while reading.
func bigIndex(t *T) {
	n := 1_000_003 + t.N(5)
	kind := t.N(3)
	b := &buf{w: 4}
	b.raw(header(4, 0))
	b.u1(0x1c)
	b.u4(0)
	b.u4(0)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			b.u1(0x21)
			b.id(uint64(i))
			b.u4(0)
			b.id(9)
			b.u4(0)
		case 1:
			b.u1(0x22)
			b.id(uint64(i))
			b.u4(0)
			b.u4(0)
			b.id(9)
		case 2:
			b.u1(0x23)
			b.id(uint64(i))
			b.u4(0)
			b.u4(0)
			b.u1(8)
		}
	}
	b.u1(0x2c)
	b.u4(0)
	b.u4(0)
	x := newIndexing(bytes.NewReader(b.b))
	fail := t.P(75)
	if fail {
		x.d[kind].failWrite = 1
		x.d[kind].once = true
	}
	t.Logf("%d objects of kind %d, first write of its index fails: %v", n, kind, fail)
	err := x.p.ParseHeapDump()
	if fail {
		if err == nil {
			t.Fail("indexing reported success although a write of the index failed")
		}
		return
	}
	if err != nil {
		t.Fail("a well-formed dump was refused: %v", err)
	}
	if len(x.d[kind].b) != 16*n {
		t.Fail("index of %d bytes for %d objects", len(x.d[kind].b), n)
	}
}

func caseC09(t *T) {
	dk := &disk{}
	batch := 1 + t.Small(9)
	if t.P(25) {
		dk.failWrite = 1 + t.N(5)
		dk.once = true
	}
	if t.P(8) {
		dk.failClose = true
	}
	w := storage.NewIndexRecordsWriteStorage(dk, storage.BatchSize(batch))
	t.Logf("batch size %d, write %d fails, close fails %v", batch, dk.failWrite, dk.failClose)
	var want []byte
	var last uint64
	first := true
	n := t.Small(40)
	for i := 0; i < n; i++ {
		key := last
		switch t.N(6) {
		case 0:
		case 1:
			key = t.Word(8)
		case 2:
			if last > 0 {
				key = last - 1 - uint64(t.N(3))%last
			}
		default:
			key += uint64(t.N(5))
		}
		val := t.Word(8)
		before := append([]byte{}, dk.b...)
		err := w.Put(key, val)
		t.Logf("put %d %d: %v", key, val, err)
		if !first && key < last {
			if err == nil {
				t.Fail("key %d after %d was accepted", key, last)
			}
			if !bytes.Equal(before, dk.b) {
				t.Fail("refusing key %d after %d changed the file", key, last)
			}
			continue
		}
		if err != nil {
			if dk.failed {
				return
			}
			t.Fail("put of key %d after %d refused: %v", key, last, err)
		}
		first = false
		last = key
		want = binary.BigEndian.AppendUint64(want, key)
		want = binary.BigEndian.AppendUint64(want, val)
	}
	err := w.Close()
	if err != nil {
		if dk.failed {
			return
		}
		t.Fail("close failed: %v", err)
	}
	if dk.failClose || dk.failed {
		t.Fail("close reported success although the file failed")
	}
	if dk.closed == 0 {
		t.Fail("the file was not closed")
	}
	if !bytes.Equal(dk.b, want) {
		t.Fail("file holds %x, want %x", dk.b, want)
	}
}

// indexFile is an index file with computed content.
type indexFile struct {
	t     *T
	n     int64
	key   func(i int64) uint64
	val   func(i int64) uint64
	reads int
	fail  bool
}

func (x *indexFile) Close() error { return nil }
func (x *indexFile) ReadAt(p []byte, off int64) (int, error) {
	x.reads++
	if x.reads > 400 {
		panic(failure{"lookup makes more than 400 reads"})
	}
	if x.fail {
		return 0, errDisk
	}
	if off < 0 || off > 16*x.n || int64(len(p)) > 16*x.n-off {
		panic(failure{fmt.Sprintf("lookup reads %d bytes at %d of a file of %d bytes", len(p), off, 16*x.n)})
	}
	for k := range p {
		a := off + int64(k)
		v := x.key(a / 16)
		if a%16 >= 8 {
			v = x.val(a / 16)
		}
		p[k] = byte(v >> (8 * uint(7-a%8)))
	}
	return len(p), nil
}

func caseC10(t *T) {
	x := &indexFile{t: t}
	if t.P(15) {
		size := t.Small(100)
		if t.Bool() {
			size = int(t.Word(8) >> 1)
		}
		_, err := storage.NewIndexRecordsReadStorage(x, size)
		t.Logf("file size %d", size)
		if (size%16 != 0) != (err != nil) {
			t.Fail("a file of %d bytes: error %v", size, err)
		}
		return
	}
	var keys []uint64
	if t.P(75) {
		n := t.Small(40)
		k := t.Word(8) >> uint(t.N(64))
		for i := 0; i < n; i++ {
			keys = append(keys, k)
			s := uint64(1 + t.N(1+t.N(6)))
			if t.P(3) {
				s = 1 + t.Word(8)>>3
			}
			if k+s < k {
				break
			}
			k += s
		}
		x.n = int64(len(keys))
		x.key = func(i int64) uint64 { return keys[i] }
	} else {
		// a huge virtual file
		x.n = int64(t.Word(8) >> uint(5+t.N(40)))
		mul := uint64(1 + t.N(8))
		if x.n > 1<<58 {
			mul = 1
		}
		base := uint64(t.N(100))
		x.key = func(i int64) uint64 { return base + mul*uint64(i) }
	}
	x.val = func(i int64) uint64 { return uint64(i)*2654435761 + 17 }
	s, err := storage.NewIndexRecordsReadStorage(x, int(16*x.n))
	if err != nil {
		t.Fail("a file of %d entries was refused: %v", x.n, err)
	}
	t.Logf("%d entries, keys %v", x.n, keys)
	for q := 0; q < 12; q++ {
		var key uint64
		switch {
		case x.n == 0 || t.P(10):
			key = t.Word(8)
		case t.P(20):
			key = x.key([]int64{0, x.n - 1}[t.N(2)])
		default:
			key = x.key(int64(t.R.Uint64() % uint64(x.n)))
			if t.P(30) {
				key += uint64(t.N(3)) - 1
			}
		}
		// find it by arithmetic or scan
		at := int64(-1)
		if keys != nil {
			for i, k := range keys {
				if k == key {
					at = int64(i)
				}
			}
		} else if x.n > 0 {
			lo, step := x.key(0), uint64(1)
			if x.n > 1 {
				step = x.key(1) - lo
			}
			if key >= lo && (key-lo)%step == 0 && (key-lo)/step < uint64(x.n) {
				at = int64((key - lo) / step)
			}
		}
		x.reads = 0
		v, err := s.Get(key)
		switch {
		case at < 0 && err == nil:
			t.Fail("key %d is not in the file but lookup gave %d", key, v)
		case at >= 0 && err != nil:
			t.Fail("key %d is entry %d of %d but lookup failed: %v", key, at, x.n, err)
		case at >= 0 && v != x.val(at):
			t.Fail("key %d: value %d, want %d", key, v, x.val(at))
		}
	}
	if x.n > 0 {
		x.fail, x.reads = true, 0
		if v, err := s.Get(x.key(0)); err == nil {
			t.Fail("lookup gave %d although the file is not readable", v)
		}
	}
}

// stored yields read storage holding what a dump holds.
func stored(d *Dump) (*storage.SmallRecordsReadStorage, *held) {
	h := heldBy(d)
	s := storage.NewSmallRecordsReadStorage()
	s.IdSize = uint32(d.W)
	s.Timestamp = time.UnixMilli(int64(d.Millis))
	s.HprofUtf8, s.HprofLoadClass, s.HprofFrame, s.HprofTrace = h.utf8, h.load, h.frame, h.trace
	s.HprofGcRootJniGlobal, s.HprofGcRootJniLocal, s.HprofGcRootJavaFrame = h.global, h.local, h.jframe
	s.HprofGcRootStickyClass, s.HprofGcRootThreadObj, s.HprofGcClassDump = h.sticky, h.thread, h.class
	return s, h
}

// quiet makes NaNs quiet: the saved form does not tell NaNs apart.
func quiet(d *Dump) {
	q := func(v *Val) {
		if v.Ty == TFloat && v.Bits&0x7f800000 == 0x7f800000 && v.Bits&0x7fffff != 0 {
			v.Bits |= 0x400000
		}
		if v.Ty == TDouble && v.Bits>>52&0x7ff == 0x7ff && v.Bits<<12 != 0 {
			v.Bits |= 1 << 51
		}
	}
	for _, s := range d.Segs {
		for _, r := range s {
			if c, ok := r.(CD); ok {
				for i := range c.Pool {
					q(&c.Pool[i].V)
				}
				for i := range c.Statics {
					q(&c.Statics[i].V)
				}
			}
		}
	}
}

func caseC11(t *T) {
	d := t.RandDump(16)
	quiet(d)
	s, h := stored(d)
	if t.Bool() {
		// through the writing side and a file
		w := storage.NewSmallRecordsWriteStorage()
		for _, r := range append(append([]any{}, d.Top...), d.subs()...) {
			put(w, r, d.W)
		}
		var b bytes.Buffer
		if err := w.SerializeTo(&b); err != nil {
			t.Fail("saving failed: %v", err)
		}
		s = storage.NewSmallRecordsReadStorage()
		if err := s.RestoreFrom(&b); err != nil {
			t.Fail("restoring failed: %v", err)
		}
		t.Logf("stored through a file")
	}
	t.logDump(d, d.Encode(1))
	check := func(what string, key any, got any, err error, want any, found bool) {
		t.Logf("%s %v", what, key)
		if found != (err == nil) {
			t.Fail("%s %v: stored %v, lookup error %v", what, key, found, err)
		}
		if found {
			t.eq(fmt.Sprintf("%s %v", what, key), got, want)
		}
	}
	var ids []uint64
	for _, r := range append(append([]any{}, d.Top...), d.subs()...) {
		switch x := r.(type) {
		case U8:
			ids = append(ids, x.Id)
		case LC:
			ids = append(ids, x.Class, uint64(x.Serial))
		case FR:
			ids = append(ids, x.Id)
		case TR:
			ids = append(ids, uint64(x.Serial), uint64(x.Thread))
		case CD:
			ids = append(ids, x.Class)
		}
	}
	for k := 0; k < 20; k++ {
		var id uint64
		if len(ids) == 0 || t.P(15) {
			id = t.Word(d.W)
		} else {
			id = ids[t.N(len(ids))]
		}
		i := core.Identifier(id)
		{
			got, err := s.GetHprofUtf8(i)
			want, ok := h.utf8[i]
			check("string", i, got, err, want, ok)
		}
		{
			got, err := s.GetHprofFrame(i)
			want, ok := h.frame[i]
			check("frame", i, got, err, want, ok)
		}
		{
			got, err := s.GetHprofTrace(uint32(id))
			want, ok := h.trace[uint32(id)]
			check("trace", uint32(id), got, err, want, ok)
		}
		{
			got, err := s.GetHprofGcClassDump(i)
			want, ok := h.class[i]
			check("class dump", i, got, err, want, ok)
		}
		var byId, bySerial *core.HprofLoadClass
		for n := len(h.load) - 1; n >= 0; n-- {
			if h.load[n].ClassObjectId == i {
				byId = &h.load[n]
			}
			if h.load[n].ClassSerialNumber == uint32(id) {
				bySerial = &h.load[n]
			}
		}
		lc := func(p *core.HprofLoadClass) core.HprofLoadClass {
			if p == nil {
				return core.HprofLoadClass{}
			}
			return *p
		}
		{
			got, err := s.GetHprofLoadClassByClassObjectId(i)
			check("loaded class by id", i, got, err, lc(byId), byId != nil)
		}
		{
			got, err := s.GetHprofLoadClassByClassSerialNumer(uint32(id))
			check("loaded class by serial number", uint32(id), got, err, lc(bySerial), bySerial != nil)
		}
	}
	t.eq("loaded classes", s.ListHprofLoadClass(), h.load)
	t.eq("JNI globals", s.ListHprofGcRootJniGlobal(), h.global)
	t.eq("JNI locals", s.ListHprofGcRootJniLocal(), h.local)
	t.eq("Java frames", s.ListHprofGcRootJavaFrame(), h.jframe)
	t.eq("sticky classes", s.ListHprofGcRootStickyClass(), h.sticky)
	t.eq("thread objects", s.ListHprofGcRootThreadObj(), h.thread)
}

func put(w *storage.SmallRecordsWriteStorage, r any, width int) {
	switch r.(type) {
	case OBJ, OA, PA:
		return
	}
	switch v := conv(r, width).(type) {
	case core.HprofUtf8:
		w.PutHprofUtf8(v)
	case core.HprofLoadClass:
		w.PutHprofLoadClass(v)
	case core.HprofFrame:
		w.PutHprofFrame(v)
	case core.HprofTrace:
		w.PutHprofTrace(v)
	case core.HprofGcRootJniGlobal:
		w.PutHprofGcRootJniGlobal(v)
	case core.HprofGcRootJniLocal:
		w.PutHprofGcRootJniLocal(v)
	case core.HprofGcRootJavaFrame:
		w.PutHprofGcRootJavaFrame(v)
	case core.HprofGcRootStickyClass:
		w.PutHprofGcRootStickyClass(v)
	case core.HprofGcRootThreadObj:
		w.PutHprofGcRootThreadObj(v)
	case core.HprofGcClassDump:
		w.PutHprofGcClassDump(v)
	}
}

// readAt is a file in memory.
type memIndex struct{ *bytes.Reader }

func (memIndex) Close() error { return nil }

// slowSeeker reads in pieces; it can refuse to seek.
type slowSeeker struct {
	*bytes.Reader
	t       *T
	refuse  int64
	refused bool
}

func (s *slowSeeker) Read(p []byte) (int, error) {
	if len(p) > 1 && s.t.Bool() {
		p = p[:1+s.t.N(len(p))]
	}
	return s.Reader.Read(p)
}
func (s *slowSeeker) Seek(off int64, wh int) (int64, error) {
	if s.refuse > 0 && wh == io.SeekStart && off == s.refuse {
		s.refused = true
		return 0, errBroken
	}
	return s.Reader.Seek(off, wh)
}

func accessor(r io.ReadSeeker, d *Dump, f *File) (*dump.ParsedAccessor, error) {
	s, h := stored(d)
	m := storage.NewMetaReadStorage()
	m.Counters = storage.Counters{InstancesCount: h.inst, PrimArraysCount: h.pa, PrimArrayElementsCount: h.pae, ObjArraysCount: h.oa, ObjArrayElementsCount: h.oae}
	var x [3]memIndex
	var n [3]int
	for k := range x {
		b := f.index(k)
		x[k], n[k] = memIndex{bytes.NewReader(b)}, len(b)
	}
	big, err := storage.NewBigRecordsReadStorage(x[0], n[0], x[1], n[1], x[2], n[2])
	if err != nil {
		return nil, err
	}
	return dump.NewParsedAccessor(r, big, s, m), nil
}

// uniqueIds drops objects whose identifier their kind already had.
func uniqueIds(d *Dump) {
	seen := map[[2]uint64]bool{}
	for i, s := range d.Segs {
		var out []any
		for _, r := range s {
			k := [2]uint64{9, 0}
			switch x := r.(type) {
			case OBJ:
				k = [2]uint64{0, x.Id}
			case OA:
				k = [2]uint64{1, x.Id}
			case PA:
				k = [2]uint64{2, x.Id}
			}
			if k[0] != 9 {
				if seen[k] {
					continue
				}
				seen[k] = true
			}
			out = append(out, r)
		}
		d.Segs[i] = out
	}
}

func caseC12(t *T) {
	d := t.RandDump(25)
	uniqueIds(d)
	f := d.Encode(3)
	src := &slowSeeker{Reader: bytes.NewReader(f.B), t: t}
	if t.P(15) && len(f.Order) > 0 {
		src.refuse = int64(f.Order[t.N(len(f.Order))].Offset)
	}
	a, err := accessor(src, d, f)
	if err != nil {
		t.Fail("index refused: %v", err)
	}
	t.logDump(d, f)
	byId := [3]map[uint64]any{{}, {}, {}}
	for _, r := range d.subs() {
		switch x := r.(type) {
		case OBJ:
			byId[0][x.Id] = r
		case OA:
			byId[1][x.Id] = r
		case PA:
			byId[2][x.Id] = r
		}
	}
	for k := 0; k < 16; k++ {
		kind := t.N(3)
		var id uint64
		if len(f.Order) > 0 && t.P(85) {
			e := f.Order[t.N(len(f.Order))]
			id = e.Id
			if t.P(80) {
				kind = e.Kind
			}
		} else {
			id = t.Word(d.W)
		}
		src.refused = false
		t.Logf("kind %d id %d", kind, id)
		var got any
		var err error
		switch kind {
		case 0:
			got, err = either(a.GetHprofGcInstanceDump(core.Identifier(id)))
		case 1:
			got, err = either(a.GetHprofGcObjArray(core.Identifier(id)))
		case 2:
			got, err = either(a.GetHprofGcPrimArray(core.Identifier(id)))
		}
		want, ok := byId[kind][id]
		if src.refused || !ok {
			if err == nil {
				t.Fail("kind %d id %d: present %v, reachable %v, but a record was returned: %+v", kind, id, ok, !src.refused, got)
			}
			continue
		}
		if err != nil {
			t.Fail("kind %d id %d: %v", kind, id, err)
		}
		t.eq(fmt.Sprintf("kind %d id %d", kind, id), got, conv(want, d.W))
		var pay []byte
		switch x := want.(type) {
		case OBJ:
			pay = x.Payload
		case OA:
			b := &buf{w: d.W}
			for _, e := range x.Elems {
				b.id(e)
			}
			pay = b.b
		case PA:
			pay = x.Payload
		}
		// in one or several reads
		for len(pay) > 0 {
			n := len(pay)
			if t.Bool() {
				n = 1 + t.N(n)
			}
			b, err := a.GetBytesFromCurrent(n)
			if err != nil || !bytes.Equal(b, pay[:n]) {
				t.Fail("kind %d id %d: payload bytes %x (error %v), want %x", kind, id, b, err, pay[:n])
			}
			pay = pay[n:]
		}
	}
	// an offset that is not readable
	if len(f.Order) > 0 {
		e := f.Order[t.N(len(f.Order))]
		cut := f.B[:e.Offset+t.N(d.W+4)]
		a, err := accessor(bytes.NewReader(cut), d, f)
		if err != nil {
			t.Fail("index refused: %v", err)
		}
		switch e.Kind {
		case 0:
			_, err = a.GetHprofGcInstanceDump(core.Identifier(e.Id))
		case 1:
			_, err = a.GetHprofGcObjArray(core.Identifier(e.Id))
		case 2:
			_, err = a.GetHprofGcPrimArray(core.Identifier(e.Id))
		}
		if err == nil {
			t.Fail("kind %d id %d: a record was returned from beyond the end of the dump", e.Kind, e.Id)
		}
	}
}

func (t *T) eqSmall(s *storage.SmallRecordsReadStorage, d *Dump, h *held) {
	t.eq("identifier size", s.IdSize, uint32(d.W))
	if s.Timestamp.UnixMilli() != int64(d.Millis) {
		t.Fail("timestamp %v, want %d ms", s.Timestamp, d.Millis)
	}
	eqMap := func(what string, n, m int, get func() (any, any)) {
		if n != m {
			t.Fail("%s: %d entries, want %d", what, n, m)
		}
		if n > 0 {
			a, b := get()
			t.eq(what, a, b)
		}
	}
	eqMap("strings", len(s.HprofUtf8), len(h.utf8), func() (any, any) { return s.HprofUtf8, h.utf8 })
	eqMap("frames", len(s.HprofFrame), len(h.frame), func() (any, any) { return s.HprofFrame, h.frame })
	eqMap("traces", len(s.HprofTrace), len(h.trace), func() (any, any) { return s.HprofTrace, h.trace })
	eqMap("class dumps", len(s.HprofGcClassDump), len(h.class), func() (any, any) { return s.HprofGcClassDump, h.class })
	t.eq("loaded classes", s.HprofLoadClass, h.load)
	t.eq("JNI globals", s.HprofGcRootJniGlobal, h.global)
	t.eq("JNI locals", s.HprofGcRootJniLocal, h.local)
	t.eq("Java frames", s.HprofGcRootJavaFrame, h.jframe)
	t.eq("sticky classes", s.HprofGcRootStickyClass, h.sticky)
	t.eq("thread objects", s.HprofGcRootThreadObj, h.thread)
}

func caseC13(t *T) {
	fill := func(d *Dump) (*storage.SmallRecordsWriteStorage, *storage.MetaWriteStorage) {
		w, m := storage.NewSmallRecordsWriteStorage(), storage.NewMetaWriteStorage()
		w.PutIdSize(uint32(d.W))
		w.PutTimestamp(time.UnixMilli(int64(d.Millis)))
		for _, r := range append(append([]any{}, d.Top...), d.subs()...) {
			put(w, r, d.W)
			switch r.(type) {
			case OBJ, OA, PA:
				m.AddInstance(conv(r, d.W))
			}
		}
		return w, m
	}
	d := t.RandDump(14)
	quiet(d)
	t.logDump(d, d.Encode(1))
	w, m := fill(d)
	h := heldBy(d)
	var sb, mb bytes.Buffer
	if err := w.SerializeTo(&sb); err != nil {
		t.Fail("saving records failed: %v", err)
	}
	if err := m.SerializeTo(&mb); err != nil {
		t.Fail("saving counters failed: %v", err)
	}
	rs, rm := storage.NewSmallRecordsReadStorage(), storage.NewMetaReadStorage()
	if t.P(25) {
		d0 := t.RandDump(14)
		w0, m0 := fill(d0)
		var b0, c0 bytes.Buffer
		w0.SerializeTo(&b0)
		m0.SerializeTo(&c0)
		if rs.RestoreFrom(&b0) != nil || rm.RestoreFrom(&c0) != nil {
			t.Fail("restoring failed")
		}
		t.Logf("restored over the contents of another dump")
	}
	sd, md := append([]byte{}, sb.Bytes()...), append([]byte{}, mb.Bytes()...)
	if err := rs.RestoreFrom(&chunked{t: t, b: sd, err: io.EOF}); err != nil {
		t.Fail("restoring records failed: %v", err)
	}
	if err := rm.RestoreFrom(&chunked{t: t, b: md, err: io.EOF}); err != nil {
		t.Fail("restoring counters failed: %v", err)
	}
	t.eqSmall(rs, d, h)
	norm := func(c storage.Counters) storage.Counters {
		if c.InstancesCount == nil {
			c.InstancesCount = map[core.Identifier]int{}
		}
		if c.ObjArraysCount == nil {
			c.ObjArraysCount = map[core.Identifier]int{}
		}
		if c.ObjArrayElementsCount == nil {
			c.ObjArrayElementsCount = map[core.Identifier]int{}
		}
		if c.PrimArraysCount == nil {
			c.PrimArraysCount = map[core.JavaType]int{}
		}
		if c.PrimArrayElementsCount == nil {
			c.PrimArrayElementsCount = map[core.JavaType]int{}
		}
		return c
	}
	t.eqCounters(norm(rm.Counters), h)
	for k := 0; k < 6; k++ {
		n := t.N(len(sd))
		if k == 0 {
			n = len(sd) - 1
		}
		if err := storage.NewSmallRecordsReadStorage().RestoreFrom(bytes.NewReader(sd[:n])); err == nil {
			t.Fail("%d of %d bytes of saved records were restored without an error", n, len(sd))
		}
		n = t.N(len(md))
		if k == 0 {
			n = len(md) - 1
		}
		if err := storage.NewMetaReadStorage().RestoreFrom(bytes.NewReader(md[:n])); err == nil {
			t.Fail("%d of %d bytes of saved counters were restored without an error", n, len(md))
		}
	}
	for k := 1; k <= 3; k++ {
		if err := w.SerializeTo(&disk{failWrite: k}); err == nil && k == 1 {
			t.Fail("saving records to a failing file reported success")
		}
		if err := m.SerializeTo(&disk{failWrite: k}); err == nil && k == 1 {
			t.Fail("saving counters to a failing file reported success")
		}
	}
}

func caseC14(t *T) {
	m := storage.NewMetaWriteStorage()
	h := heldBy(&Dump{W: 8})
	pool := []uint64{0, 1, 2, t.Word(8), t.Word(8)}
	n := t.Small(60)
	for i := 0; i < n; i++ {
		cls := pool[t.N(len(pool))]
		cnt := uint32(t.Word(4))
		switch t.N(3) {
		case 0:
			m.AddInstance(core.HprofGcClassDumpInstanceDumpHeader{ObjectId: core.Identifier(t.Word(8)), ClassObjectId: core.Identifier(cls)})
			h.inst[core.Identifier(cls)]++
			t.Logf("instance of %d", cls)
		case 1:
			m.AddInstance(core.HprofGcObjArrayDumpHeader{ArrayObjectId: core.Identifier(t.Word(8)), ArrayClassId: core.Identifier(cls), NumberOfElements: cnt})
			h.oa[core.Identifier(cls)]++
			h.oae[core.Identifier(cls)] += int(cnt)
			t.Logf("object array of %d with %d elements", cls, cnt)
		case 2:
			ty := core.JavaType(t.ValidType())
			m.AddInstance(core.HprofGcPrimArrayDumpHeader{ArrayObjectId: core.Identifier(t.Word(8)), ElementType: ty, NumberOfElements: cnt})
			h.pa[ty]++
			h.pae[ty] += int(cnt)
			t.Logf("array of type %d with %d elements", ty, cnt)
		}
	}
	t.eqCounters(m.Counters, h)
}

// tame keeps the lengths of strings small: the memory for a string is requested before it is read.
func tame(b []byte) {
	at := 31
	for at+9 <= len(b) {
		n := int(binary.BigEndian.Uint32(b[at+5:]))
		if b[at] == 1 && n > 1<<20 {
			b[at+5], b[at+6] = 0, 0
			n = int(binary.BigEndian.Uint32(b[at+5:]))
		}
		switch b[at] {
		case 1, 2, 4, 5:
		default:
			return
		}
		w := int(binary.BigEndian.Uint32(b[19:]))
		if b[at] != 1 && w <= 8 {
			switch b[at] {
			case 2:
				n = 8 + 2*w
			case 4:
				n = 8 + 4*w
			case 5:
				if at+21 > len(b) {
					return
				}
				n = 12 + w*int(binary.BigEndian.Uint32(b[at+17:]))
			}
		}
		at += 9 + n
	}
}

func caseC32(t *T) {
	var b []byte
	switch t.N(8) {
	case 0:
		b = t.Bytes(t.Small(300))
	case 1:
		b = append(header(t.IdSize(), 0), t.Bytes(t.Small(300))...)
	case 2:
		// any sub-records
		b = append(header(t.IdSize(), 0), 0x1c, 0, 0, 0, 0, 0, 0, 0, 0)
		b = append(b, t.Bytes(t.Small(300))...)
	case 3:
		// one record of a kind followed by anything
		b = append(header(t.IdSize(), 0))
		if t.Bool() {
			b = append(b, 0x1c, 0, 0, 0, 0, 0, 0, 0, 0)
			b = append(b, []byte{1, 2, 3, 5, 8, 0x20, 0x21, 0x22, 0x23, 0x1c, 0x2c}[t.N(11)])
		} else {
			b = append(b, []byte{1, 2, 4, 5, 0x1c, 0x2c}[t.N(6)], 0, 0, 0, 0, 0, 0, 0, byte(t.N(30)))
		}
		b = append(b, t.Bytes(t.Small(120))...)
	default:
		d := t.RandDump(8)
		f := d.Encode(uint32(t.Word(4)))
		b = f.B
		for k := t.Small(4); k >= 0; k-- {
			switch t.N(7) {
			case 0:
				b = b[:t.N(len(b)+1)]
			case 1:
				if len(b) > 0 {
					b[t.N(len(b))] = byte(t.Word(1))
				}
			case 2:
				at := f.Bounds[t.N(len(f.Bounds))]
				if at < len(b) {
					b[at] = byte([]int{1, 2, 3, 4, 5, 8, 0x1c, 0x20, 0x21, 0x22, 0x23, 0x2c, 0xff, 6, 7}[t.N(15)])
				}
			case 3:
				// a count, size or type somewhere in a record
				at := f.Bounds[t.N(len(f.Bounds))] + t.In(1, 40)
				if at+4 < len(b) {
					binary.BigEndian.PutUint32(b[at:], uint32(t.Word(4)))
				}
			case 4:
				at := t.N(len(b) + 1)
				b = append(append(append([]byte{}, b[:at]...), t.Bytes(t.Small(9))...), b[at:]...)
			case 5:
				if len(b) >= 23 {
					binary.BigEndian.PutUint32(b[19:], []uint32{0, 1, 2, 3, 5, 7, 9, 16, 0x7fffffff, 0x80000000, 0xffffffff, 4, 8}[t.N(13)])
				}
			case 6:
				if len(b) > 0 {
					at := t.N(len(b))
					n := t.N(len(b) - at + 1)
					b = append(append([]byte{}, b[:at]...), b[at+n:]...)
				}
			}
			if len(b) == 0 {
				break
			}
		}
	}
	b = append([]byte{}, b...)
	if len(b) > 31 {
		tame(b)
	}
	t.Logf("bytes %x", b)
	x := newIndexing(t.source(b))
	for k := range x.d {
		if t.P(20) {
			x.d[k].failWrite = 1 + t.N(2)
		}
		if t.P(10) {
			x.d[k].failClose = true
		}
	}
	x.p.ParseHeapDump()
}
