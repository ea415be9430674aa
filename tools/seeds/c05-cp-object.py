prop = "C05"
pkg = "internal/core"
edits = [("internal/core/sizes.go", '''		instanceFieldsSize := int(v.NumberOfInstanceFields) * (s.idSize + 1)''', '''		instanceFieldsSize := int(v.NumberOfInstanceFields * uint16(s.idSize+1))''')]
needs = "a class with more than 7281 instance fields (8-byte identifiers)"
breaks = "the computed size of the class dump wraps at 16 bits, so every later recorded offset is wrong"
demo = '''package core

import "testing"

func TestDemo(t *testing.T) {
	d := HprofGcClassDump{NumberOfInstanceFields: 8000}
	if got := NewSizeInfo(8).Of(d); got != 7*8+14+8000*9 {
		t.Fatalf("%d", got)
	}
}
'''
