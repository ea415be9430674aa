package verifreplay

import (
	"math/bits"
	"strings"

	"github.com/danielleontiev/neojhat/internal/cmd"
)

func init() { Props["C30"] = caseC30 }

func caseC30(t *T) {
	max := int(t.Word(8) >> 1)
	if t.P(70) {
		max = int(t.Word(8) >> uint(25+t.N(38)))
	}
	if t.P(8) {
		max = 0
	}
	pos := int(t.Word(8))
	switch {
	case t.P(60) && max > 0:
		// at and around the steps of the bar
		k := uint64(t.N(53))
		hi, lo := bits.Mul64(uint64(max), k)
		q, _ := bits.Div64(hi%50, lo, 50)
		pos = int(q) + t.N(3) - 1
	case t.P(50) && max > 0:
		pos = int(t.R.Int63n(int64(max)))
	}
	t.Logf("position %d of %d", pos, max)
	s := cmd.VerifProgressBar(max, func() int { return pos }, "x")()
	full, empty := strings.Count(s, "▮"), strings.Count(s, "▯")
	if full+empty != 50 {
		t.Fail("position %d of %d: %d cells: %s", pos, max, full+empty, s)
	}
	if i, j := strings.Index(s, "▯"), strings.LastIndex(s, "▮"); i >= 0 && j > i {
		t.Fail("position %d of %d: the filled cells do not come first: %s", pos, max, s)
	}
	if max <= 0 {
		return
	}
	want := 0
	if pos >= max {
		want = 50
	} else if pos > 0 {
		hi, lo := bits.Mul64(uint64(pos), 50)
		q, _ := bits.Div64(hi, lo, uint64(max))
		want = int(q)
	}
	slack := 0
	if max > 1<<40 {
		slack = 1 // floating point
	}
	if full < want-slack || full > want+slack {
		t.Fail("position %d of %d: %d filled cells, want %d: %s", pos, max, full, want, s)
	}
}
