package main

// Running SMT solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type backend struct {
	name string
	argv func(ms int, file string) []string
}

var backends = []backend{
	{"z3-5", func(ms int, f string) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:3000", f}
	}},
	{"cvc5", func(ms int, f string) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant", f}
	}},
	{"z3-4.8", func(ms int, f string) []string {
		return []string{"z3", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:3000", f}
	}},
	{"z3-5-noMBQI", func(ms int, f string) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-t:%d", ms), "-memory:3000", "smt.mbqi=false", "smt.auto_config=false", f}
	}},
}

var (
	solverSem = make(chan struct{}, 8)
	statMu    sync.Mutex
	statQ     int
	statTime  time.Duration
	statByWho = map[string]int{}
	resCache  = map[[32]byte]solveRes{}
	tmpDir    string
	deadline  time.Time
)

type solveRes struct {
	res string // unsat sat unknown
	by  string
	out string
	dur time.Duration
}

func runOne(ctx context.Context, b backend, file string, ms int) (string, string) {
	if !deadline.IsZero() {
		left := int(time.Until(deadline).Milliseconds())
		if left < 100 {
			return "unknown", "deadline"
		}
		if left < ms {
			ms = left
		}
	}
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown", "cancelled"
	}
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	a := b.argv(ms, file)
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	statMu.Lock()
	statQ++
	statTime += time.Since(t0)
	statMu.Unlock()
	s := out.String()
	first := strings.TrimSpace(s)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = strings.TrimSpace(first[:i])
	}
	switch first {
	case "unsat", "sat":
		return first, s
	}
	return "unknown", s
}

var fileN int
var fileMu sync.Mutex

// solve decides one script with a portfolio.
func solve(script string, quick, full time.Duration) solveRes {
	h := sha256.Sum256([]byte(script))
	statMu.Lock()
	if r, ok := resCache[h]; ok && (r.res != "unknown") {
		statMu.Unlock()
		return r
	}
	statMu.Unlock()
	fileMu.Lock()
	fileN++
	fn := fmt.Sprintf("%s/q%d.smt2", tmpDir, fileN)
	fileMu.Unlock()
	os.WriteFile(fn, []byte(script), 0644)
	defer os.Remove(fn)
	t0 := time.Now()
	r := solveRes{res: "unknown"}
	ctx := context.Background()
	res, out := runOne(ctx, backends[0], fn, int(quick.Milliseconds()))
	r.res, r.out, r.by = res, out, backends[0].name
	if strings.Contains(out, "(error") {
		fmt.Fprintln(os.Stderr, "solver error:", firstLines(out, 3))
		if keepBad != "" {
			os.WriteFile(keepBad, []byte(script), 0644)
		}
	}
	if res == "unknown" && full > 0 {
		c2, cancel := context.WithCancel(ctx)
		type ans struct{ res, out, by string }
		ch := make(chan ans, len(backends))
		for _, b := range backends {
			b := b
			go func() {
				x, o := runOne(c2, b, fn, int(full.Milliseconds()))
				ch <- ans{x, o, b.name}
			}()
		}
		for range backends {
			a := <-ch
			if a.res == "unsat" || a.res == "sat" && a.by != "cvc5" && r.res == "unknown" {
				r.res, r.out, r.by = a.res, a.out, a.by
				if a.res == "unsat" {
					break
				}
			}
		}
		cancel()
	}
	r.dur = time.Since(t0)
	if slowDir != "" && r.dur > 300*time.Millisecond {
		fileMu.Lock()
		slowN++
		os.WriteFile(fmt.Sprintf("%s/slow%d.%s.%dms.smt2", slowDir, slowN, r.res, r.dur.Milliseconds()), []byte(script), 0644)
		fileMu.Unlock()
	}
	statMu.Lock()
	resCache[h] = r
	if r.res == "unsat" {
		statByWho[r.by]++
	}
	statMu.Unlock()
	return r
}

var keepAll = os.Getenv("GOV_KEEPALL") != ""
var slowDir = os.Getenv("GOV_SLOW")
var slowN int
var keepBad = os.Getenv("GOV_KEEPBAD")

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func (e *Exec) depth() int {
	if e.c != nil && e.c.unfold > 0 {
		return e.c.unfold
	}
	return 1
}

// prove asks whether goal follows from the path condition.
func (e *Exec) prove(st *State, goal *Term, to time.Duration) bool {
	g := st.simp(goal)
	if g == True {
		return true
	}
	r := solve(SMT(st.pc, g, false, e.depth()), to, 0)
	return r.res == "unsat"
}

// proveEach proves goals one by one, trying the conjunction first.
func (e *Exec) proveEach(st *State, goals []*Term) []bool {
	res := make([]bool, len(goals))
	if len(goals) > 1 {
		if r := solve(SMT(st.pc, And(goals...), false, e.depth()), houdiniQuick, 0); r.res == "unsat" {
			for i := range res {
				res[i] = true
			}
			return res
		}
	}
	var wg sync.WaitGroup
	for i, g := range goals {
		s := SMT(st.pc, g, false, e.depth())
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := solve(s, houdiniQuick, houdiniFull)
			res[i] = r.res == "unsat"
		}()
	}
	wg.Wait()
	return res
}

var houdiniQuick = 1500 * time.Millisecond
var houdiniFull = 4 * time.Second

// discharge decides all open obligations in parallel.
func discharge(obs []*Oblig, quick, full time.Duration) {
	expensive.Store(0)
	var wg sync.WaitGroup
	for _, o := range obs {
		if o.status != "" {
			continue
		}
		if o.goal == False && o.kind == "unsupported" {
			o.status = "failed"
			continue
		}
		d := max(o.depth, 1)
		s := o.pre
		if s == "" {
			smtMu.Lock()
			s = SMT(o.hyps, o.goal, false, d)
			smtMu.Unlock()
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			s2 := ""
			deeper := func() string {
				if s2 == "" {
					smtMu.Lock()
					s2 = SMT(o.hyps, o.goal, false, d+1)
					smtMu.Unlock()
				}
				return s2
			}
			// cheap attempts first: the solver for a short time, then with definitions
			// unfolded once more, then the portfolio
			var r solveRes
			sat := false
			for step := 0; step < 4; step++ {
				if step > 0 && full == 0 || step%2 == 1 && o.pre != "" {
					continue
				}
				if step == 2 && expensive.Add(1) > 24 {
					break
				}
				switch step {
				case 0:
					r = solve(s, quick, 0)
				case 1:
					r = solve(deeper(), quick, 0)
				case 2:
					r = solve(s, quick/4, full)
				case 3:
					r = solve(deeper(), quick/4, full)
				}
				o.dur += r.dur
				sat = sat || r.res == "sat"
				if r.res == "unsat" {
					if step%2 == 1 {
						s = s2
					}
					break
				}
			}
			o.by = r.by
			switch {
			case r.res == "unsat":
				o.status = "proved"
			case sat:
				o.status = "failed"
			default:
				o.status = "unknown"
			}
			if o.status != "proved" || keepAll {
				o.script = s
			}
		}()
	}
	wg.Wait()
}

var smtMu sync.Mutex
var expensive atomic.Int32
