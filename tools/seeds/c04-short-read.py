prop = "C04"
pkg = "internal/core"
edits = [("internal/core/file_header_parser.go", """	_, err := io.ReadFull(heapDump, str)""", """	_, err := heapDump.Read(str)""")]
needs = "a reader that delivers the first bytes of the dump in several pieces (a pipe, a decompressor)"
breaks = "a valid header is refused, because the profile name was read only partly"
demo = r"""package core

import (
	"bytes"
	"testing"
	"testing/iotest"
)

func TestDemo(t *testing.T) {
	b := append([]byte("JAVA PROFILE 1.0.2\x00"), 0, 0, 0, 8, 0, 0, 1, 0x7f, 0x90, 0, 0, 0)
	h, err := ParseFileHeader(iotest.HalfReader(bytes.NewReader(b)))
	if err != nil || h.IdentifierSize != 8 {
		t.Fatalf("%v %v", h, err)
	}
}
"""
