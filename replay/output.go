package verifreplay

import (
	"bytes"
	"fmt"
	"html"
	"io"
	"os"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"github.com/danielleontiev/neojhat/internal/objects"
	"github.com/danielleontiev/neojhat/internal/output"
	"github.com/danielleontiev/neojhat/internal/summary"
	"github.com/danielleontiev/neojhat/internal/threads"
)

func init() {
	Props["C19"] = caseC19
	Props["C24"] = caseC24
	Props["C28"] = caseC28
	Props["C31"] = caseC31
}

// stdout yields what f prints to standard output.
func stdout(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	ch := make(chan []byte)
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		ch <- b
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	return string(<-ch)
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// line is text without control characters.
func (t *T) line() string {
	return strings.Map(func(r rune) rune {
		if unicode.IsControl(r) || r == unicode.ReplacementChar || r == '|' || r == 0x2028 {
			return -1
		}
		return r
	}, strings.ToValidUTF8(t.Text(), ""))
}

// markup is sometimes a text which a page must escape.
func (t *T) markup() string {
	if t.P(90) {
		return ""
	}
	return []string{"<i>", "&lt", "\"'", "<!--"}[t.N(4)]
}

type row struct{ name, count, size string }

func (t *T) report() (objects.Objects, []row) {
	o := objects.Objects{SortBy: objects.SortBy(t.N(2))}
	names := map[string]bool{}
	for n := t.Small(12); n > 0; n-- {
		name := t.line() + "[]"
		if t.P(70) {
			name = "p/" + t.Name()
		}
		if names[wantClassName(name)] {
			continue
		}
		names[wantClassName(name)] = true
		it := objects.ObjectItem{Name: name, InstancesCount: t.N(4), TotalSize: t.N(4)}
		if t.P(60) {
			it.InstancesCount, it.TotalSize = int(t.Word(8)>>uint(14+t.N(50))), int(t.Word(8)>>uint(14+t.N(50)))
		}
		if t.P(5) {
			it.TotalSize = 0
		}
		k := 1
		if t.P(5) {
			k = 2 // two classes of that name
		}
		for ; k > 0; k-- {
			o.Items = append(o.Items, it)
			o.TotalCount += it.InstancesCount
			o.TotalSize += it.TotalSize
		}
	}
	sorted := append([]objects.ObjectItem{}, o.Items...)
	sort.Slice(sorted, func(i, j int) bool {
		a, b := sorted[i], sorted[j]
		x, y := a.InstancesCount, b.InstancesCount
		if o.SortBy == objects.Size {
			x, y = a.TotalSize, b.TotalSize
		}
		if x != y {
			return x > y
		}
		return a.Name < b.Name
	})
	pc := func(a, b int) int {
		if b == 0 {
			return 0
		}
		return 100 * a / b
	}
	var rs []row
	for _, i := range sorted {
		rs = append(rs, row{wantClassName(i.Name), fmt.Sprintf("%d (%d%%)", i.InstancesCount, pc(i.InstancesCount, o.TotalCount)),
			fmt.Sprintf("%s (%d%%)", wantSize(i.TotalSize), pc(i.TotalSize, o.TotalSize))})
	}
	t.Logf("order %d, total %d and %d, items %+v", o.SortBy, o.TotalCount, o.TotalSize, o.Items)
	return o, rs
}

func headers(by objects.SortBy) row {
	if by == objects.Size {
		return row{"Class Name", "Count", "Size ↓"}
	}
	return row{"Class Name", "Count ↓", "Size"}
}

func caseC19(t *T) {
	o, rows := t.report()
	o2 := o
	o2.Items = append([]objects.ObjectItem{}, o.Items...)
	var b bytes.Buffer
	output.ObjectsPlain(o, &b)
	texts := map[string]string{"listing": b.String()}
	if t.P(25) {
		texts["coloured listing"] = ansi.ReplaceAllString(stdout(func() { output.ObjectsPlainColor(o2) }), "")
	}
	for what, s := range texts {
		ls := strings.Split(strings.TrimRight(s, "\n"), "\n")
		if len(ls) != 5+len(rows) {
			t.Fail("%s: %d lines for %d rows:\n%s", what, len(ls), len(rows), s)
		}
		for i, w := range []string{fmt.Sprintf("Instances: %d", o.TotalCount), "Total Size: " + wantSize(o.TotalSize), ""} {
			if strings.TrimSpace(ls[i]) != w {
				t.Fail("%s: line %q, want %q", what, ls[i], w)
			}
		}
		for i, r := range append([]row{headers(o.SortBy)}, rows...) {
			l := ls[3]
			if i > 0 {
				l = ls[4+i]
			}
			c := strings.Split(l, "|")
			if len(c) != 4 || strings.TrimSpace(c[0]) != strings.TrimSpace(r.name) || strings.TrimSpace(c[1]) != r.count || strings.TrimSpace(c[2]) != r.size {
				t.Fail("%s: row %d is %q, want %+v:\n%s", what, i, l, r, s)
			}
		}
	}
}

type frameText struct {
	ret, class, method, args, loc string
	locals                        []string
}
type threadText struct {
	head   string
	frames []frameText
}

func (t *T) threadDump() (threads.ThreadDump, []threadText) {
	type both struct {
		d threads.StackTrace
		s threadText
	}
	var all []both
	ids := map[int]bool{}
	for n := t.Small(5); n > 0; n-- {
		id := int(t.Word(8))
		if t.P(50) {
			id = t.N(20)
		}
		if ids[id] {
			continue
		}
		ids[id] = true
		var st uint64
		var status string
		for {
			var ok bool
			st = t.Word(4)
			if status, ok = wantStatus(st); ok {
				break
			}
		}
		name := t.line()
		x := both{threads.StackTrace{ThreadName: name, ThreadId: id, ThreadDaemon: t.Bool(), ThreadPriority: t.N(11), ThreadStatus: threads.ThreadStatus(st)}, threadText{}}
		x.s.head = fmt.Sprintf("\"%s\", ID=%d, prio=%d, status=%s", name, id, x.d.ThreadPriority, status)
		if x.d.ThreadDaemon {
			x.s.head += " (daemon)"
		}
		for k := t.Small(5); k > 0; k-- {
			class := "p/" + t.markup() + t.Name()
			if t.P(20) {
				class = t.line()
			}
			desc, args, ret := t.methodDescriptor()
			method := t.markup() + t.Name()
			if t.P(20) {
				method = []string{"<init>", "<clinit>", "a b", "lambda$0"}[t.N(4)]
			}
			file := t.markup() + t.Name() + ".java"
			lineNo := int32(t.In(1, 5000))
			if t.P(30) {
				lineNo = []int32{0, -1, -2, -3}[t.N(4)]
			}
			ln, ok := wantLine(lineNo)
			if !ok {
				lineNo, ln = 7, "7"
			}
			loc := file + ":" + ln
			if lineNo == -1 {
				loc = file
			}
			if t.P(15) {
				file, loc = "<unknown string>", ""
			}
			f := threads.StackFrame{MethodName: method, MethodSignature: desc, FileName: file, ClassName: class, LineNumber: ln}
			s := frameText{ret, wantClassName(class), method, args, loc, nil}
			for m := t.Small(3); m > 0; m-- {
				l := threads.LocalFrame{ObjectId: m, Type: threads.FrameType(t.N(2))}
				r := ""
				switch t.N(3) {
				case 0:
					cn := t.Name() + "/" + t.markup() + t.Name()
					l.ObjectTypeSignature, r = cn, wantClassName(cn)
				case 1:
					d, x := t.descriptor(false)
					l.ObjectTypeSignature, r = "["+d, x+"[]"
				case 2:
					cn := t.Name() + "/" + t.markup() + t.Name()
					l.ObjectTypeSignature, r = "class "+cn, "class "+wantClassName(cn)
				}
				f.LocalFrames = append(f.LocalFrames, l)
				s.locals = append(s.locals, r)
			}
			x.d.Frames = append(x.d.Frames, f)
			x.s.frames = append(x.s.frames, s)
		}
		x.d.NumberOfFrames = uint32(len(x.d.Frames))
		all = append(all, x)
	}
	var d threads.ThreadDump
	for _, x := range all {
		d.StackTraces = append(d.StackTraces, x.d)
	}
	t.Logf("thread dump %+v", d)
	sort.Slice(all, func(i, j int) bool { return all[i].d.ThreadId < all[j].d.ThreadId })
	var s []threadText
	for _, x := range all {
		s = append(s, x.s)
	}
	return d, s
}

// trimmed lists the lines without indentation and blank ends.
func trimmed(s string) (ls []string) {
	for _, l := range strings.Split(s, "\n") {
		ls = append(ls, strings.TrimSpace(l))
	}
	return
}

func caseC24(t *T) {
	d, want := t.threadDump()
	locals := t.Bool()
	var wl []string
	for _, x := range want {
		wl = append(wl, strings.TrimSpace(x.head))
		for _, f := range x.frames {
			wl = append(wl, strings.TrimSpace(f.ret+" "+f.class+"."+f.method+"("+f.args+") "+f.loc))
			if locals {
				for _, l := range f.locals {
					wl = append(wl, strings.TrimSpace("local "+l))
				}
			}
		}
		wl = append(wl, "")
	}
	wl = append(wl, "")
	d2 := threads.ThreadDump{StackTraces: append([]threads.StackTrace{}, d.StackTraces...)}
	var b bytes.Buffer
	output.ThreadsPlain(d, locals, &b)
	texts := map[string]string{"listing": b.String()}
	if t.P(25) {
		texts["coloured listing"] = ansi.ReplaceAllString(stdout(func() { output.ThreadsPlainColor(d2, locals) }), "")
	}
	for what, s := range texts {
		ls := trimmed(s)
		for i := 0; i < len(ls) || i < len(wl); i++ {
			if i >= len(ls) || i >= len(wl) || ls[i] != wl[i] {
				got, w := "nothing", "nothing"
				if i < len(ls) {
					got = ls[i]
				}
				if i < len(wl) {
					w = wl[i]
				}
				t.Fail("%s (locals: %v): line %d is %q, want %q:\n%s", what, locals, i+1, got, w, trim(s, 3000))
			}
		}
	}
}

type section struct {
	name string
	kv   []summary.Kv
}

func (t *T) summaryReport(keys func() string) (summary.Summary, []section) {
	s := summary.Summary{
		Env:    summary.EnvProperties{System: t.line(), Architecture: t.line(), JavaHome: t.line(), JavaVersion: t.line(), JavaName: t.line(), JavaVendor: t.line()},
		Heap:   summary.HeapProperties{Classes: int(t.Word(8) >> 1), GcRoots: int(t.Word(4)), Instances: int(t.Word(4)), HeapSize: int(t.Word(8) >> uint(1+t.N(60)))},
		System: summary.SystemProperties{JvmUptime: t.Name()},
	}
	w := []section{
		{"Environment", []summary.Kv{{Key: "Architecture", Val: s.Env.Architecture}, {Key: "JavaHome", Val: s.Env.JavaHome}, {Key: "JavaName", Val: s.Env.JavaName},
			{Key: "JavaVendor", Val: s.Env.JavaVendor}, {Key: "JavaVersion", Val: s.Env.JavaVersion}, {Key: "System", Val: s.Env.System}}},
		{"Heap", []summary.Kv{{Key: "Classes", Val: fmt.Sprint(s.Heap.Classes)}, {Key: "GC Roots", Val: fmt.Sprint(s.Heap.GcRoots)}, {Key: "Instances", Val: fmt.Sprint(s.Heap.Instances)},
			{Key: "Heap Size", Val: wantSize(s.Heap.HeapSize)}}},
		{"System", []summary.Kv{{Key: "JVM Uptime", Val: s.System.JvmUptime}}},
	}
	if t.P(70) {
		for n := 1 + t.Small(8); n > 0; n-- {
			s.Properties = append(s.Properties, summary.Kv{Key: keys(), Val: t.line()})
		}
		w = append(w, section{"Properties", s.Properties})
	}
	t.Logf("summary %+v", s)
	return s, w
}

func caseC28(t *T) {
	s, want := t.summaryReport(func() string {
		k := strings.Map(func(r rune) rune {
			if r >= 128 || r == ':' {
				return -1
			}
			return r
		}, t.line())
		for t.P(40) {
			k += "abcdefghij"
		}
		return k
	})
	max := 0
	for _, x := range want {
		for _, kv := range x.kv {
			if len(kv.Key) > max {
				max = len(kv.Key)
			}
		}
	}
	var b bytes.Buffer
	output.SummaryPlain(s, &b)
	texts := map[string]string{"listing": b.String()}
	if t.P(25) {
		texts["coloured listing"] = ansi.ReplaceAllString(stdout(func() { output.SummaryPlainColor(s) }), "")
	}
	for what, out := range texts {
		ls := strings.Split(out, "\n")
		next := func(w string, exact bool) {
			for !exact && len(ls) > 0 && strings.TrimSpace(ls[0]) == "" {
				ls = ls[1:]
			}
			if len(ls) == 0 {
				t.Fail("%s: no line %q:\n%s", what, w, out)
			}
			if strings.TrimRight(ls[0], " ") != strings.TrimRight(w, " ") {
				t.Fail("%s: line %q, want %q:\n%s", what, ls[0], w, out)
			}
			ls = ls[1:]
		}
		for _, x := range want {
			next("- "+x.name, false)
			for _, kv := range x.kv {
				next(kv.Key+":"+strings.Repeat(" ", max+10-len(kv.Key))+strings.TrimSpace(kv.Val), true)
			}
		}
		for _, l := range ls {
			if strings.TrimSpace(l) != "" {
				t.Fail("%s: line %q is too much:\n%s", what, l, out)
			}
		}
	}
}

var tags = regexp.MustCompile(`(?s)<style>.*?</style>|<[^<>]*>`)

// bodyText is the text of the page below its heading, without blanks.
func bodyText(page string) string {
	if i := strings.Index(page, "</h1>"); i >= 0 {
		page = page[i:]
	}
	return unblank(html.UnescapeString(tags.ReplaceAllString(page, " ")))
}

func unblank(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

func (t *T) htmlEq(page string, want []string) {
	g, w := bodyText(page), unblank(strings.Join(want, ""))
	if g != w {
		i := 0
		for i < len(g) && i < len(w) && g[i] == w[i] {
			i++
		}
		from := max(0, i-40)
		t.Fail("the page's text differs at %d: ...%s, want ...%s; page: %s", i, trim(g[min(from, len(g)):], 160), trim(w[min(from, len(w)):], 160), trim(page, 200))
	}
}

func caseC31(t *T) {
	var b bytes.Buffer
	var want []string
	var err error
	switch t.N(3) {
	case 0:
		o, rows := t.report()
		h := headers(o.SortBy)
		want = append(want, "Instances", fmt.Sprint(o.TotalCount), "Total Size", wantSize(o.TotalSize), h.name, h.count, h.size)
		for _, r := range rows {
			want = append(want, r.name, r.count, r.size)
		}
		err = output.ObjectsHtml(o, &b)
	case 1:
		s, secs := t.summaryReport(t.line)
		want = append(want, "Property", "Value")
		for _, x := range secs {
			want = append(want, x.name)
			for _, kv := range x.kv {
				want = append(want, kv.Key, kv.Val)
			}
		}
		err = output.SummaryHtml(s, &b)
	case 2:
		d, ths := t.threadDump()
		locals := t.Bool()
		for _, x := range ths {
			want = append(want, x.head)
			for _, f := range x.frames {
				want = append(want, f.ret, f.class, ".", f.method, "(", f.args, ")", f.loc)
				if locals {
					for _, l := range f.locals {
						want = append(want, "local", l)
					}
				}
			}
		}
		err = output.ThreadsHtml(d, locals, &b)
	}
	if err != nil {
		t.Fail("page: %v", err)
	}
	t.htmlEq(b.String(), want)
}
