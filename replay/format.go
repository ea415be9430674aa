package verifreplay

import (
	"fmt"
	"strings"

	"github.com/danielleontiev/neojhat/internal/cmd"
	"github.com/danielleontiev/neojhat/internal/core"
	"github.com/danielleontiev/neojhat/internal/format"
	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/threads"
)

func init() {
	Props["C20"] = caseC20
	Props["C21"] = caseC21
	Props["C22"] = caseC22
	Props["C29"] = caseC29
}

func wantSize(n int) string {
	units := []string{"B", "K", "M", "G"}
	u := 0
	for u < 3 && n >= 1024 {
		n >>= 10
		u++
	}
	return fmt.Sprintf("%d%s", n, units[u])
}

func wantClassName(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] == '/' {
			b[i] = '.'
		}
	}
	return string(b)
}

func caseC20(t *T) {
	var n int
	switch t.N(4) {
	case 0:
		n = int(t.Word(8) >> 1)
	case 1:
		n = t.Small(5000)
	default:
		n = 1 << uint(t.N(62))
		n += t.N(5) - 2
		if n < 0 {
			n = 0
		}
	}
	t.Logf("size %d", n)
	if got := format.Size(n); got != wantSize(n) {
		t.Fail("size %d prints %q, want %q", n, got, wantSize(n))
	}
	s := t.Text()
	for k := t.Small(4); k > 0; k-- {
		s += []string{"/", "//", "$", ".", t.Text()}[t.N(5)] + t.Name()
	}
	t.Logf("class name %q", s)
	if got := format.ClassName(s); got != wantClassName(s) {
		t.Fail("class name %q prints %q, want %q", s, got, wantClassName(s))
	}
}

// descriptor yields a type descriptor and its rendering.
func (t *T) descriptor(ret bool) (string, string) {
	dims := 0
	if t.P(35) {
		dims = 1 + t.Small(4)
	}
	var d, r string
	switch {
	case ret && t.P(30):
		return "V", "void"
	case t.P(45):
		for k := t.Small(4); k >= 0; k-- {
			seg := t.Name()
			switch t.N(6) {
			case 0:
				seg = "L" + seg
			case 1:
				seg += []string{"é", "日本", "𝒳", "<b>", "&", "-", " ", "$1", "V", "LV"}[t.N(10)]
			}
			d += seg
			r += seg
			if k > 0 {
				d += "/"
				r += "."
			}
		}
		d = "L" + d + ";"
	default:
		i := t.N(8)
		d = "BCDFIJSZ"[i : i+1]
		r = []string{"byte", "char", "double", "float", "int", "long", "short", "boolean"}[i]
	}
	for ; dims > 0; dims-- {
		d = "[" + d
		r += "[]"
	}
	return d, r
}

func (t *T) methodDescriptor() (d, args, ret string) {
	var as []string
	d = "("
	for k := t.Small(6); k > 0; k-- {
		x, r := t.descriptor(false)
		d += x
		as = append(as, r)
	}
	x, r := t.descriptor(true)
	return d + ")" + x, strings.Join(as, ", "), r
}

func caseC21(t *T) {
	if t.P(15) {
		d, r := t.descriptor(false)
		t.Logf("descriptor %q", d)
		a, rt := format.Signature(d)
		if a != r || rt != "" {
			t.Fail("descriptor %q renders as %q and %q, want %q", d, a, rt, r)
		}
		return
	}
	d, args, ret := t.methodDescriptor()
	t.Logf("descriptor %q", d)
	a, r := format.Signature(d)
	if a != args || r != ret {
		t.Fail("descriptor %q renders as (%q, %q), want (%q, %q)", d, a, r, args, ret)
	}
}

func wantStatus(s uint64) (string, bool) {
	switch {
	case s&0x4 != 0:
		return "RUNNABLE", true
	case s&0x400 != 0:
		return "BLOCKED", true
	case s&0x10 != 0:
		return "WAITING", true
	case s&0x20 != 0:
		return "TIMED_WAITING", true
	case s&0x2 != 0:
		return "TERMINATED", true
	}
	return "", false
}

func wantLine(n int32) (string, bool) {
	switch {
	case n > 0:
		return fmt.Sprint(n), true
	case n == -1:
		return "Unknown", true
	case n == -2:
		return "CompiledMethod", true
	case n == -3:
		return "NativeMethod", true
	}
	return "", false
}

func caseC22(t *T) {
	var s uint64
	switch t.N(3) {
	case 0:
		s = t.Word(8)
	case 1:
		s = t.Word(4)
	case 2:
		for k := t.N(4); k >= 0; k-- {
			s |= 1 << uint(t.N(14))
		}
	}
	if want, ok := wantStatus(s); ok {
		t.Logf("status %#x", s)
		if got := threads.ThreadStatus(int(s)).String(); got != want {
			t.Fail("status %#x prints %q, want %q", s, got, want)
		}
	}
	n := int32(t.Word(4))
	if t.P(30) {
		n = int32(t.N(5)) - 3
	}
	if want, ok := wantLine(n); ok {
		t.Logf("line %d", n)
		if got := core.LineNumber(n).String(); got != want {
			t.Fail("line %d prints %q, want %q", n, got, want)
		}
	}
}

func (t *T) optionText(words ...string) string {
	w := words[t.N(len(words))]
	switch t.N(7) {
	case 0, 1, 2:
		return w
	case 3:
		return ""
	case 4:
		return strings.ToUpper(w)
	case 5:
		if len(w) > 1 {
			return w[:t.N(len(w))]
		}
		return w + " "
	}
	switch t.N(3) {
	case 0:
		return w + string(t.Bytes(1))
	case 1:
		return " " + w
	}
	return t.Text()
}

func caseC29(t *T) {
	words := []string{"count", "size", "plain", "html", "counts", "unknown", "text"}
	{
		v := objects.SortBy(t.N(2))
		before := v
		s := t.optionText(words...)
		err := v.Set(s)
		t.Logf("sort-by %q over %v", s, before)
		want := map[string]objects.SortBy{"count": objects.Count, "size": objects.Size, "": objects.Count}
		w, ok := want[s]
		if ok != (err == nil) {
			t.Fail("sort-by %q: error %v", s, err)
		}
		if !ok {
			w = before
		}
		if v != w {
			t.Fail("sort-by %q leaves %v, want %v", s, v, w)
		}
		name := "count"
		if w == objects.Size {
			name = "size"
		}
		if v.String() != name {
			t.Fail("sort-by %v prints as %q, want %q", int(v), v.String(), name)
		}
	}
	{
		v := cmd.OutputType(t.N(2))
		before := v
		s := t.optionText(words...)
		err := v.Set(s)
		t.Logf("output %q over %v", s, before)
		want := map[string]cmd.OutputType{"plain": cmd.Plain, "html": cmd.Html, "": cmd.Plain}
		w, ok := want[s]
		if ok != (err == nil) {
			t.Fail("output %q: error %v", s, err)
		}
		if !ok {
			w = before
		}
		if v != w {
			t.Fail("output %q leaves %v, want %v", s, v, w)
		}
		name := "plain"
		if w == cmd.Html {
			name = "html"
		}
		if v.String() != name {
			t.Fail("output %v prints as %q, want %q", int(v), v.String(), name)
		}
	}
}
