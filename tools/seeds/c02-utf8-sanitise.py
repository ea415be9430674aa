prop = "C02"
pkg = "internal/core"
edits = [("internal/core/base_parsers.go", """		Characters: string(buf),""", """		Characters: strings.ToValidUTF8(string(buf), ""),"""),
         ("internal/core/base_parsers.go", """	"fmt"
""", """	"fmt"
	"strings"
""")]
needs = "a string record whose bytes are not strictly valid UTF-8 (the JVM writes modified UTF-8: surrogates, NUL as two bytes)"
breaks = "the bytes of the text are dropped, so the decoded text differs from the record"
demo = r"""package core

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	b := []byte{0, 0, 0, 1, 'a', 0xc0, 0x80, 'b'}
	u, err := NewRecordParser(bytes.NewReader(b), 4).ParseHprofUtf8(uint32(len(b)))
	if err != nil || u.Characters != "a\xc0\x80b" {
		t.Fatalf("%q %v", u.Characters, err)
	}
}
"""
