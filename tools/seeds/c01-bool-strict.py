prop = "C01"
pkg = "internal/core"
edits = [("internal/core/primitive_parsers.go", '''		var result bool
		err := binary.Read(parser.heapDump, binary.BigEndian, &result)
		if err != nil {
			return JavaValue{}, fmt.Errorf("error in ParseJavaValue(Boolean): %w", err)
		}
		return JavaValue{Type: ty, Value: result}, nil''', '''		var raw uint16
		err := binary.Read(parser.heapDump, binary.BigEndian, &raw)
		if err == io.ErrUnexpectedEOF {
			err = nil
		}
		if err != nil {
			return JavaValue{}, fmt.Errorf("error in ParseJavaValue(Boolean): %w", err)
		}
		return JavaValue{Type: ty, Value: raw>>8 != 0}, nil''')]
edits = [("internal/core/primitive_parsers.go", '''		_, err := io.ReadFull(parser.heapDump, buf)
		if err != nil {
			return JavaValue{}, fmt.Errorf("error in ParseJavaValue(Char): %w", err)
		}''', '''		_, err := io.ReadAtLeast(parser.heapDump, buf, 1)
		if err != nil {
			return JavaValue{}, fmt.Errorf("error in ParseJavaValue(Char): %w", err)
		}''')]
needs = "a char value whose two bytes are split between two reads of the underlying reader, or a dump that ends after its first byte"
breaks = "a char value is fabricated from one byte of input and a zero; the second byte is taken for the next value"
demo = '''package core

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewPrimitiveParser(bytes.NewReader([]byte{'a'}), 8)
	if v, err := p.ParseJavaValue(Char); err == nil {
		t.Fatalf("one byte of input gave the char %#v", v)
	}
}
'''
