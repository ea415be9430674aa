prop = "C03"
pkg = "internal/core"
edits = [("internal/core/base_parsers.go", '''	for i := numberOfFrames; i > 0; i-- {''', '''	for i := uint16(numberOfFrames); i > 0; i-- {''')]
needs = "a stack trace of 65536 or more frames (deep recursion)"
breaks = "the number of decoded frames is the declared count modulo 65536, and the rest of the record is taken for the next record"
demo = '''package core

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	n := 65537
	b := []byte{0, 0, 0, 1, 0, 0, 0, 2, 0, 1, 0, 1}
	b = append(b, make([]byte, 4*n)...)
	tr, err := NewRecordParser(bytes.NewReader(b), 4).ParseHprofTrace()
	if err != nil || len(tr.StackFrameIds) != n {
		t.Fatalf("%d frames %v", len(tr.StackFrameIds), err)
	}
}
'''
