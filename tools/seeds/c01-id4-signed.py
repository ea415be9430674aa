prop = "C01"
pkg = "internal/core"
edits = [("internal/core/primitive_parsers.go", '''		var shortIdentifier uint32
''', '''		var shortIdentifier int32
''')]
needs = "4-byte identifiers with the top bit set (heap addresses above 2 GiB)"
breaks = "such identifiers are sign-extended instead of zero-extended, so lookups by them miss"
demo = '''package core

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewPrimitiveParser(bytes.NewReader([]byte{0x80, 0, 0, 1}), 4)
	v, err := p.ParseIdentifier()
	if err != nil || v != 0x80000001 {
		t.Fatalf("%x %v", v, err)
	}
}
'''
