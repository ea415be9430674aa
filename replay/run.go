// Package verifreplay exercises the real code of the repository with generated inputs and
// compares it with expectations computed from the inputs' construction, never by the code
// under test. It is compiled into the module of the repository through a build overlay.
package verifreplay

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// T is one generated case.
type T struct {
	R    *rand.Rand
	Case int
	desc []string
	h    uint64
	log  []string
}

type failure struct{ msg string }

// Fail reports that the code under test broke the property on this case.
func (t *T) Fail(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Logf records how the case was made.
func (t *T) Logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	t.log = append(t.log, s)
}

func (t *T) Bool() bool      { return t.R.Intn(2) == 0 }
func (t *T) P(p int) bool    { return t.R.Intn(100) < p }
func (t *T) N(n int) int     { return t.R.Intn(n) }
func (t *T) In(a, b int) int { return a + t.R.Intn(b-a+1) }

var litInts []uint64
var litStrs []string

// harvest collects the literals of the sources: values the code compares with are the ones
// most likely to be treated specially.
func harvest(root string) {
	is := map[uint64]bool{}
	ss := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if im, ok := n.(*ast.ImportSpec); ok {
				_ = im
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			switch l.Kind {
			case token.INT:
				if v, err := strconv.ParseUint(strings.ReplaceAll(l.Value, "_", ""), 0, 64); err == nil {
					is[v] = true
				}
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) < 60 {
					ss[s] = true
				}
			case token.CHAR:
				if r, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
					ss[string(r)] = true
				}
			}
			return true
		})
		return nil
	})
	for v := range is {
		litInts = append(litInts, v)
	}
	for s := range ss {
		litStrs = append(litStrs, s)
	}
	sort.Slice(litInts, func(i, j int) bool { return litInts[i] < litInts[j] })
	sort.Strings(litStrs)
}

// Word yields an interesting unsigned number of the given width in bytes.
func (t *T) Word(width int) uint64 {
	mask := ^uint64(0)
	if width < 8 {
		mask = 1<<(8*uint(width)) - 1
	}
	var v uint64
	switch t.N(10) {
	case 0:
		v = 0
	case 1:
		v = uint64(t.N(4))
	case 2:
		v = ^uint64(0) - uint64(t.N(3))
	case 3:
		v = 1<<uint(t.N(64)) - uint64(t.N(2))
	case 4, 5:
		if len(litInts) > 0 {
			v = litInts[t.N(len(litInts))] + uint64(t.N(3)) - 1
		}
	case 6:
		v = uint64(t.N(300))
	case 7:
		// distinct bytes
		for i := 0; i < 8; i++ {
			v = v<<8 | uint64(t.In(1, 255))
		}
	default:
		v = t.R.Uint64()
	}
	return v & mask
}

// Small yields a small count, occasionally a literal of the sources.
func (t *T) Small(max int) int {
	if len(litInts) > 0 && t.P(15) {
		v := litInts[t.N(len(litInts))]
		if v <= uint64(max) {
			n := int(v) + t.N(3) - 1
			if n >= 0 && n <= max {
				return n
			}
		}
	}
	switch t.N(4) {
	case 0:
		return t.N(min(max, 2) + 1)
	case 1:
		return t.N(min(max, 5) + 1)
	}
	return t.N(max + 1)
}

func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch t.N(6) {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		default:
			b[i] = byte(t.R.Intn(256))
		}
	}
	return b
}

// Text yields text, sometimes one of the literals of the sources.
func (t *T) Text() string {
	switch t.N(8) {
	case 0:
		return ""
	case 1, 2:
		if len(litStrs) > 0 {
			s := litStrs[t.N(len(litStrs))]
			if t.P(30) {
				s += "x"
			}
			return s
		}
	case 3:
		return string(t.Bytes(t.In(0, 6)))
	case 4:
		return []string{"é", "日本", "a\nb", " lead", "trail ", "<b>&\"'</b>", "${x}", "a:b", "\u2028", "{{.}}"}[t.N(10)]
	}
	n := t.In(1, 12)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte("abcdefgXYZ/$_.09"[t.N(16)])
	}
	return sb.String()
}

// Name yields an identifier-like text.
func (t *T) Name() string {
	n := t.In(1, 10)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte("abcdefgLVXYZBCDFIJS$_09"[t.N(23)])
	}
	return sb.String()
}

// Props maps property ids to their case generators.
var Props = map[string]func(t *T){}

// Setup, when present for a property, checks a fixed list of cases before the random ones.
var Fixed = map[string]func(t *T){}

type result struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Cases    int      `json:"cases"`
	Distinct int      `json:"distinct"`
	Ms       int64    `json:"ms"`
	Failed   bool     `json:"failed"`
	Case     int      `json:"case"`
	Message  string   `json:"message,omitempty"`
	Input    []string `json:"input,omitempty"`
	Samples  []string `json:"samples,omitempty"`
}

func runCase(f func(*T), seed int64, i int, limit time.Duration) (t *T, msg string) {
	t = &T{R: rand.New(rand.NewSource(seed*1000003 + int64(i))), Case: i}
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if fl, ok := r.(failure); ok {
					ch <- fl.msg
				} else {
					ch <- fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()), 3000))
				}
			}
		}()
		f(t)
		ch <- ""
	}()
	select {
	case msg = <-ch:
	case <-time.After(limit):
		return &T{log: []string{"(the case was still running)"}, Case: i}, fmt.Sprintf("the code did not finish within %v", limit)
	}
	return t, msg
}

func trim(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

// Main runs the cases of one property as the environment says.
func Main() {
	prop := os.Getenv("VERIF_PROP")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.Atoi(os.Getenv("VERIF_MS"))
	if ms == 0 {
		ms = 5000
	}
	maxCases, _ := strconv.Atoi(os.Getenv("VERIF_CASES"))
	if maxCases == 0 {
		maxCases = 1 << 30
	}
	harvest(os.Getenv("VERIF_REPO"))
	f := Props[prop]
	if f == nil {
		fmt.Println("no generator for", prop)
		os.Exit(3)
	}
	res := result{Property: prop, Seed: seed}
	out := func() {
		b, _ := json.MarshalIndent(res, "", " ")
		if p := os.Getenv("VERIF_OUT"); p != "" {
			os.WriteFile(p, b, 0644)
		} else {
			os.Stdout.Write(append(b, '\n'))
		}
	}
	start := time.Now()
	limit := 60 * time.Second
	first, last := 0, maxCases
	if c := os.Getenv("VERIF_CASE"); c != "" {
		first, _ = strconv.Atoi(c)
		last = first + 1
	}
	seen := map[uint64]bool{}
	for i := first; i < last; i++ {
		if i > first && time.Since(start) > time.Duration(ms)*time.Millisecond {
			break
		}
		t, msg := runCase(f, seed, i, limit)
		res.Cases++
		h := fnv.New64a()
		for _, l := range t.log {
			h.Write([]byte(l))
		}
		seen[h.Sum64()] = true
		if len(res.Samples) < 3 && len(t.log) > 0 && i%7 == 3 {
			res.Samples = append(res.Samples, trim(strings.Join(t.log, " ; "), 600))
		}
		if msg != "" {
			res.Failed, res.Case, res.Message, res.Input = true, i, msg, t.log
			break
		}
	}
	res.Distinct = len(seen)
	res.Ms = time.Since(start).Milliseconds()
	out()
	if res.Failed {
		fmt.Println("FAILED", prop, "case", res.Case, ":", trim(res.Message, 2000))
		os.Exit(1)
	}
}
