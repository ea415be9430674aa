package main

// Command line: verify the contracts that a property needs.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type outOblig struct {
	Fn     string   `json:"function"`
	Kind   string   `json:"kind"`
	Label  string   `json:"label"`
	Pos    string   `json:"pos,omitempty"`
	Status string   `json:"status"`
	By     string   `json:"by,omitempty"`
	Ms     int64    `json:"ms"`
	Props  []string `json:"props,omitempty"`
	Output string   `json:"output,omitempty"`
	Script string   `json:"script,omitempty"`
}

type outFn struct {
	Fn      string   `json:"function"`
	Obligs  int      `json:"obligations"`
	Proved  int      `json:"proved"`
	Paths   int      `json:"paths"`
	Ms      int64    `json:"ms"`
	Inlined []string `json:"inlined,omitempty"`
	Calls   []string `json:"contracts_used,omitempty"`
	Errs    []string `json:"errors,omitempty"`
}

type output struct {
	Prop      string         `json:"property"`
	Functions []outFn        `json:"functions"`
	Lemmas    []string       `json:"lemmas"`
	Failed    []outOblig     `json:"failed"`
	Total     int            `json:"total"`
	Proved    int            `json:"proved"`
	ByKind    map[string]int `json:"by_kind"`
	ByBackend map[string]int `json:"by_backend"`
	SolverMs  int64          `json:"solver_ms"`
	Queries   int            `json:"queries"`
	WallMs    int64          `json:"wall_ms"`
	Trusted   []string       `json:"trusted"`
	Library   []string       `json:"library_models"`
	Axioms    []string       `json:"axioms"`
	Inlined   []string       `json:"helper_contracts_not_used,omitempty"`
	Error     string         `json:"error,omitempty"`
	Samples   []outOblig     `json:"samples,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property to verify")
	fnFlag := flag.String("fn", "", "verify only these functions (comma separated)")
	out := flag.String("json", "", "result file")
	quick := flag.Duration("quick", 3*time.Second, "first solver time limit")
	full := flag.Duration("full", 20*time.Second, "portfolio time limit")
	total := flag.Duration("total", 0, "overall time limit")
	verbose := flag.Bool("v", false, "print every obligation")
	dump := flag.String("dump", "", "directory for scripts of failed obligations")
	shallow := flag.Bool("shallow", false, "do not add the contracts that are called")
	noHints := flag.Bool("nohints", false, "ignore recorded invariants")
	writeHints := flag.Bool("writehints", false, "record the invariants that were found")
	allLemmas := flag.Bool("lemmas", false, "prove all lemmas")
	flag.BoolVar(&debugLoops, "loops", false, "debug loops")
	flag.BoolVar(&debugDrop, "drop", false, "debug dropped invariants")
	flag.Parse()
	t0 := time.Now()
	baseQuick, baseFull = *quick, *full
	pace()
	if *total > 0 {
		deadline = t0.Add(*total)
	}
	var res output
	res.Failed, res.Trusted, res.Library, res.Axioms, res.Functions, res.Lemmas = []outOblig{}, []string{}, []string{}, []string{}, []outFn{}, []string{}
	res.Prop = *prop
	save := func() {
		res.WallMs = time.Since(t0).Milliseconds()
		res.SolverMs = statTime.Milliseconds()
		res.Queries = statQ
		res.ByBackend = statByWho
		if *out != "" {
			b, _ := json.MarshalIndent(res, "", " ")
			os.WriteFile(*out, b, 0644)
		}
	}
	fatal := func(msg string) {
		res.Error = msg
		save()
		fmt.Println("gov:", msg)
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specError); ok {
				fatal("contract error: " + s.msg)
			}
			panic(r)
		}
	}()
	var err error
	tmpDir, err = os.MkdirTemp("", "gov")
	if err != nil {
		fatal(err.Error())
	}
	defer os.RemoveAll(tmpDir)
	repoDir = *repo
	if err := loadRepo(*repo); err != nil {
		fatal("cannot load the repository: " + err.Error())
	}
	initStrs()
	loadContracts(*cdir)
	registerSpecs()
	var lem []*Oblig
	lem = append(lem, orderObligs()...)
	lem = append(lem, commObligs()...)
	discharge(lem, quickLimit, fullLimit)
	retry(lem, quickLimit, fullLimit)
	lemmaObligs()
	var all []*Oblig
	hintFile := *cdir + "/hints.json"
	if !*noHints {
		loadHints(hintFile)
	}
	prove := func(ct *Contract) *FnResult {
		pace()
		r := verifyFunction(ct)
		discharge(r.obligs, quickLimit, fullLimit)
		if r.exec.hinted && anyFailed(r.obligs) {
			again(r.obligs, 2*quickLimit, 3*fullLimit)
		}
		if r.exec.hinted && anyFailed(r.obligs) {
			saved := hints
			hints = nil
			r = verifyFunction(ct)
			hints = saved
			discharge(r.obligs, quickLimit, fullLimit)
		}
		retry(r.obligs, quickLimit, fullLimit)
		return r
	}
	// Helper contracts describe unexported functions. One that is missing or does not fulfil
	// its contract is no violation: it is verified as part of its callers.
	verified := map[string]*FnResult{}
	for _, k := range helperOrder() {
		ct := contracts[k]
		want := false
		if *fnFlag != "" {
			for _, f := range strings.Split(*fnFlag, ",") {
				want = want || strings.SplitN(f, ".", 2)[0] == strings.SplitN(k, ".", 2)[0]
			}
		} else {
			want = *prop == "" || contractHas(ct, *prop)
		}
		if fn := allFuncs[k]; !want || fn == nil || len(fn.Params) != len(ct.params) || fn.Signature.Results().Len() != len(ct.results) && len(ct.results) > 0 {
			delete(contracts, k)
			continue
		}
		r := prove(ct)
		if anyFailed(r.obligs) {
			fmt.Println("helper contract not fulfilled, inlining", k)
			if *fnFlag == k || *verbose {
				for _, o := range r.obligs {
					if o.status != "proved" {
						fmt.Printf("   %s: %s %s\n", o.kind, o.label, o.status)
						if *dump != "" && o.script != "" {
							os.WriteFile(fmt.Sprintf("%s/h%d.smt2", *dump, o.dur), []byte(o.script), 0644)
							fmt.Printf("       h%d goal %.400v\n", o.dur, o.goal)
						}
					}
				}
			}
			delete(contracts, k)
			res.Inlined = append(res.Inlined, k)
			continue
		}
		verified[k] = r
	}
	// functions to verify
	var work []string
	if *fnFlag != "" {
		for _, k := range strings.Split(*fnFlag, ",") {
			n := 0
			for c := range contracts {
				if c == k || strings.HasSuffix(k, "*") && strings.HasPrefix(c, strings.TrimSuffix(k, "*")) {
					work = append(work, c)
					n++
				}
			}
			if n == 0 {
				fatal("no contract " + k)
			}
		}
		sort.Strings(work)
	} else {
		for _, k := range sortedKeys(contracts) {
			if *prop == "" || contractHas(contracts[k], *prop) {
				work = append(work, k)
			}
		}
		if len(work) == 0 {
			fatal("no function under contract for " + *prop)
		}
	}
	done := map[string]bool{}
	var smokes []func() *Oblig
	lib := map[string]bool{}
	trusted := map[string]bool{}
	res.ByKind = map[string]int{}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		ct := contracts[k]
		if ct.trusted {
			trusted[k] = true
			continue
		}
		r := verified[k]
		if r == nil {
			r = prove(ct)
		}
		smokes = append(smokes, smokeTest(r))
		f := outFn{Fn: k, Paths: r.exec.paths, Ms: r.dur.Milliseconds(), Errs: r.errs}
		for c := range r.exec.calls {
			f.Calls = append(f.Calls, c)
			if *fnFlag == "" && !*shallow && !done[c] {
				work = append(work, c)
			}
			if contracts[c].trusted {
				trusted[c] = true
			}
		}
		for c := range r.exec.inlined {
			f.Inlined = append(f.Inlined, c)
		}
		for c := range r.exec.libUsed {
			lib[c] = true
		}
		sort.Strings(f.Calls)
		sort.Strings(f.Inlined)
		for _, o := range r.obligs {
			f.Obligs++
			if o.status == "proved" {
				f.Proved++
			}
		}
		res.Functions = append(res.Functions, f)
		all = append(all, r.obligs...)
		if *fnFlag != "" || *verbose {
			fmt.Printf("%-60s %3d/%3d obligations, %d paths, %.1fs\n", k, f.Proved, f.Obligs, f.Paths, r.dur.Seconds())
			for _, er := range r.errs {
				fmt.Println("    error:", er)
			}
		}
	}
	for _, w := range smokes {
		if o := w(); o != nil {
			all = append(all, o)
		}
	}
	// the lemmas that were used, and those stated for the property
	need := map[string]bool{}
	for n := range usedAx {
		need[n] = true
	}
	for _, l := range lemmas {
		for _, p := range l.props {
			if p == *prop {
				need["lemma "+l.name] = true
			}
		}
		if *allLemmas {
			need["lemma "+l.name] = true
		}
	}
	for i := len(lemmas) - 1; i >= 0; i-- {
		l := lemmas[i]
		if need["lemma "+l.name] {
			for n := range l.uses {
				need[n] = true
			}
			lem = append(lem, l.ob)
		}
	}
	discharge(lem, quickLimit, fullLimit)
	for _, o := range lem {
		res.Lemmas = append(res.Lemmas, o.fn+": "+o.label)
	}
	retry(lem, quickLimit, fullLimit)
	all = append(lem, all...)
	if *writeHints {
		saveHints(hintFile)
	}
	for i, o := range all {
		res.Total++
		res.ByKind[o.kind]++
		oo := outOblig{Fn: o.fn, Kind: o.kind, Label: o.label, Pos: o.pos, Status: o.status, By: o.by, Ms: o.dur.Milliseconds(), Props: o.props}
		if o.status == "proved" {
			res.Proved++
			if o.by != "simplifier" && len(res.Samples) < 12 {
				res.Samples = append(res.Samples, oo)
			}
			if keepAll && *dump != "" && o.script != "" {
				os.WriteFile(fmt.Sprintf("%s/ok%d.smt2", *dump, i), []byte(o.script), 0644)
				fmt.Printf("  ok%d %s: %s\n     %s\n", i, o.kind, o.label, o.goal)
			}
			if *verbose {
				fmt.Printf("  ok   %s %s: %s [%s %dms]\n", o.fn, o.kind, o.label, o.by, oo.Ms)
			}
			continue
		}
		if *dump != "" && o.script != "" {
			fn := fmt.Sprintf("%s/%d.smt2", *dump, i)
			os.WriteFile(fn, []byte(o.script), 0644)
			oo.Script = fn
		}
		if o.script != "" && len(res.Failed) < 6 {
			oo.Output = counterexample(o)
		}
		res.Failed = append(res.Failed, oo)
		fmt.Printf("FAILED %s at %s\n   %s: %s\n   %s %s\n", o.fn, o.pos, o.kind, o.label, o.status, oo.Script)
		if *verbose || *dump != "" {
			fmt.Printf("   goal: %.600v\n", o.goal)
		}
	}
	for k := range trusted {
		res.Trusted = append(res.Trusted, k)
	}
	for k := range lib {
		res.Library = append(res.Library, k)
	}
	res.Axioms = append(res.Axioms, trustedAx...)
	sort.Strings(res.Trusted)
	sort.Strings(res.Library)
	save()
	fmt.Printf("%d functions, %d obligations, %d proved, %d failed, %d queries, %.1fs solver, %.1fs wall\n", len(res.Functions), res.Total, res.Proved, len(res.Failed), statQ, statTime.Seconds(), time.Since(t0).Seconds())
	if len(res.Failed) > 0 {
		os.RemoveAll(tmpDir)
		os.Exit(1)
	}
}

func contractHas(c *Contract, p string) bool {
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	for _, cl := range c.clauses {
		for _, q := range cl.props {
			if q == p {
				return true
			}
		}
	}
	return false
}

// again gives a few undecided obligations more time.
func again(obs []*Oblig, quick, full time.Duration) {
	n := 0
	for _, o := range obs {
		if o.status == "failed" || o.script == "" && o.status != "proved" {
			return
		}
		if o.status != "proved" {
			n++
		}
	}
	if n > 8 {
		return
	}
	for _, o := range obs {
		if o.status != "proved" {
			o.status = ""
		}
	}
	discharge(obs, quick, full)
}

// retry gives failed obligations a second chance with the byte level meaning of multi-byte
// numbers.
func retry(obs []*Oblig, quick, full time.Duration) {
	var again []*Oblig
	for _, o := range obs {
		if (o.status == "failed" || o.status == "unknown") && o.script != "" {
			if len(again) < 16 {
				again = append(again, o)
			}
		}
	}
	if len(again) == 0 {
		return
	}
	for _, o := range again {
		o.status = ""
	}
	unfoldBE = true
	discharge(again, quick, full)
	unfoldBE = false
}

// counterexample asks z3 for a model of the negated obligation.
func counterexample(o *Oblig) string {
	s := "(set-option :produce-models true)\n" + o.script + "(get-model)\n"
	fn := tmpDir + "/model.smt2"
	os.WriteFile(fn, []byte(s), 0644)
	b, _ := exec.Command("z3-new", "-smt2", "-t:3000", fn).CombinedOutput()
	if len(b) > 6000 {
		b = b[:6000]
	}
	return string(b)
}

var smokeAll = os.Getenv("GOV_SMOKE") != ""

// smokeTest guards against contradictory assumptions: for every function some successful
// return must not be provably unreachable. The queries run in the background; the function
// returned waits for them and reports an obligation if there is a contradiction.
func smokeTest(r *FnResult) func() *Oblig {
	pcs := r.exec.smoke
	if len(pcs) > 6 && !smokeAll {
		pcs = pcs[:6]
	}
	var scripts []string
	for _, pc := range pcs {
		scripts = append(scripts, SMT(pc, False, false, 2))
	}
	alive := make([]bool, len(scripts))
	var wg sync.WaitGroup
	preDead := false
	if pre := r.exec.preSMT; pre != "" {
		wg.Add(1)
		go func() {
			defer wg.Done()
			preDead = solve(pre, 500*time.Millisecond, 0).res == "unsat"
		}()
	}
	for i, s := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			alive[i] = solve(s, 1500*time.Millisecond, 0).res != "unsat"
		}()
	}
	return func() *Oblig {
		wg.Wait()
		if preDead {
			return &Oblig{fn: r.key, kind: "vacuity", label: "preconditions are satisfiable", goal: False, status: "failed"}
		}
		any := false
		for i, a := range alive {
			any = any || a
			if !a && smokeAll {
				fmt.Println("   unreachable return in", r.key, i)
			}
		}
		if len(alive) > 0 && !any {
			return &Oblig{fn: r.key, kind: "vacuity", label: "a successful return is reachable under the assumptions", goal: False, status: "failed"}
		}
		return nil
	}
}

// helperOrder lists the helper contracts in the order of the contract files.
func helperOrder() []string {
	var ks []string
	for k, c := range contracts {
		if c.helper {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return contracts[ks[i]].seq < contracts[ks[j]].seq })
	return ks
}
