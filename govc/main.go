package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func dumpBad(text, out string) {
	f := filepath.Join(os.TempDir(), "govc-bad.smt2")
	os.WriteFile(f, []byte(text+"\n; "+strings.ReplaceAll(out, "\n", "\n; ")), 0o644)
	fmt.Fprintln(os.Stderr, "govc: malformed query, see", f, ":", strings.SplitN(out, "\n", 2)[0])
}

type oblOut struct {
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Func   string  `json:"func"`
	Pos    string  `json:"pos,omitempty"`
	Status string  `json:"status"`
	Solver string  `json:"solver,omitempty"`
	Time   float64 `json:"time"`
	Detail string  `json:"detail,omitempty"`
	Query  string  `json:"query,omitempty"`
	Output string  `json:"output,omitempty"`
}

type output struct {
	Property    string         `json:"property"`
	Functions   []string       `json:"functions"`
	Inlined     []string       `json:"inlined"`
	Lemmas      []string       `json:"lemmas"`
	Trusted     []string       `json:"trusted"`
	Axioms      []string       `json:"axioms"`
	Assumptions []string       `json:"assumptions"`
	Obligations []oblOut       `json:"obligations"`
	Backends    map[string]int `json:"backends"`
	SolverTime  float64        `json:"solver_time"`
	GenTime     float64        `json:"gen_time"`
	Wall        float64        `json:"wall"`
	OK          bool           `json:"ok"`
}

func repoPatterns(dir string) []string {
	cmd := exec.Command("go", "list", "-e", "-f", "{{if and (not .DepsErrors) (not .Error) .GoFiles}}{{.ImportPath}}{{end}}", "./...")
	cmd.Dir = dir
	b, _ := cmd.Output()
	return strings.Fields(string(b))
}

// obligations with a longer text are first tried in a weaker, abstracted form
const absText = 60000

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "module under verification")
	specDir := flag.String("contracts", "/verif/contracts", "contract files")
	out := flag.String("json", "", "write the result here")
	only := flag.String("func", "", "only this contract key (substring)")
	verbose := flag.Bool("v", false, "print every obligation")
	dump := flag.String("dump", "", "write queries of failed obligations to this directory")
	dumpAll := flag.Bool("dumpall", false, "dump every query")
	ms := flag.Int("ms", 20000, "per-obligation solver limit")
	list := flag.String("list", "", "list functions whose key contains this")
	ssaF := flag.String("ssa", "", "print the SSA of this function")
	pkgs := flag.String("pkgs", "", "packages to load (default: every package of the module that type-checks offline)")
	flag.IntVar(&quickMS, "quickms", quickMS, "limit for candidate invariants")
	flag.Parse()
	start := time.Now()
	sf, err := loadSpecs(*specDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	pats := strings.Fields(*pkgs)
	if len(pats) == 0 {
		pats = append(repoPatterns(*repo), "log/slog") // slog: some of its code is inlined
	}
	P, err := loadProgram(*repo, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(4)
	}
	loadT := time.Since(start)
	if *list != "" {
		var ks []string
		for k := range P.funcs {
			if strings.Contains(k, *list) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	if *ssaF != "" {
		if f := P.funcs[*ssaF]; f != nil {
			f.WriteTo(os.Stdout)
		}
		return
	}
	x := newExec(P, sf, *prop)
	x.solver = &Solver{x: x, quickMemo: map[string]bool{}, lemmaLim: 1 << 30}
	x.setupSpec()
	res := output{Property: *prop, Backends: map[string]int{}}
	type job struct {
		o    *Obligation
		text string
		abs  string // a weaker obligation, tried first
		out  string
	}
	var jobs []*job
	axUsed := map[string]bool{}
	flush := func(from int) {
		for _, o := range x.obls[from:] {
			j := &job{o: o}
			o.Hide = x.solver.hide
			switch {
			case o.Kind == "missing" || o.Kind == "unsupported":
				o.Status = "failed"
			case o.Goal == True:
				o.Status, o.Solver = "proved", "simplifier"
			default:
				func() {
					defer func() {
						if r := recover(); r != nil {
							u, ok := r.(unsup)
							if !ok {
								panic(r)
							}
							o.Status, o.Detail = "failed", u.msg
						}
					}()
					q := x.solver.build(o.Hyps, o.Goal)
					for a := range q.used {
						axUsed[a] = true
					}
					j.text = q.text()
					if len(j.text) > absText && o.Kind != "vacuity" {
						j.abs = x.solver.build(abstractQuery(o.Hyps, o.Goal, 40, 2000)).text()
					}
				}()
			}
			jobs = append(jobs, j)
		}
	}
	for _, c := range sf.order {
		if c.Trusted || c.Inline || !x.active(c) {
			continue
		}
		if *only != "" && !strings.Contains(c.Key, *only) {
			continue
		}
		n := len(x.obls)
		t0 := time.Now()
		x.verify(c)
		if *verbose {
			fmt.Printf("# %s: %d obligations (%.1fs)\n", c.Key, len(x.obls)-n, time.Since(t0).Seconds())
		}
		if len(x.obls) > n {
			res.Functions = append(res.Functions, c.Key)
		}
		flush(n)
	}
	for i, l := range sf.lemmas {
		if len(l.Props) > 0 && *prop != "" && !l.Props[*prop] {
			continue
		}
		if *only != "" && !strings.Contains("lemma "+l.Name, *only) {
			continue
		}
		n := len(x.obls)
		x.solver.lemmaLim = i
		x.lemma(l)
		for _, o := range x.obls[n:] {
			o.LemmaLim = i + 1
		}
		flush(n)
		x.solver.lemmaLim = 1 << 30
		res.Lemmas = append(res.Lemmas, l.Name)
	}
	res.GenTime = time.Since(start).Seconds()
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, j := range jobs {
		if j.o.Status != "" {
			continue
		}
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			vac := j.o.Kind == "vacuity"
			var st, who, o string
			var secs, secs0 float64
			if j.abs != "" {
				if st, who, secs0, o = solveText(j.abs, 2000, false); st == "unsat" {
					j.o.Solver, j.o.Time, j.o.Status = who, secs0, "proved"
					return
				}
			}
			st, who, secs, o = solveText(j.text, min(*ms, 6000), vac)
			secs += secs0
			j.o.Solver, j.o.Time, j.out = who, secs, o
			switch {
			case st == "error":
				j.o.Status = "failed"
				j.o.Detail = "solver rejected the query: " + o
				dumpBad(j.text, o)
			case vac && st == "unsat":
				j.o.Status = "failed"
				j.o.Detail = "the assumptions are contradictory"
			case vac:
				j.o.Status = "proved"
			case st == "unsat":
				j.o.Status = "proved"
			case st == "sat":
				j.o.Status = "failed"
				j.o.Detail = strings.TrimSpace(j.o.Detail + " solver answer: " + st)
			default:
				j.o.Status = "undecided"
				j.o.Detail = strings.TrimSpace(j.o.Detail + " solver answer: " + st)
			}
		}(j)
	}
	wg.Wait()
	// undecided obligations are cut into cases
	und := 0
	for _, j := range jobs {
		if j.o.Status == "undecided" {
			und++
		}
	}
	for _, j := range jobs {
		if j.o.Status != "undecided" {
			continue
		}
		j.o.Status = "failed"
		if und > 25 { // something basic is wrong
			continue
		}
		x.solver.hide = j.o.Hide
		x.solver.lemmaLim = 1 << 30
		if j.o.LemmaLim > 0 {
			x.solver.lemmaLim = j.o.LemmaLim - 1 // a lemma is proved from earlier ones only
		}
		cs := splitCases(j.o.Hyps, j.o.Goal, 3)
		var texts, sts []string
		total := 0
		t0 := time.Now()
		all := func(ms int) bool {
			var wg sync.WaitGroup
			for i := range cs {
				if sts[i] == "unsat" {
					continue
				}
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					sem <- struct{}{}
					defer func() { <-sem }()
					sts[i], _, _, _ = solveText(texts[i], ms, false)
				}(i)
			}
			wg.Wait()
			for _, s := range sts {
				if s != "unsat" {
					return false
				}
			}
			return true
		}
		round := func(ms int) bool {
			texts, sts = make([]string, len(cs)), make([]string, len(cs))
			total += len(cs)
			for i, c := range cs {
				texts[i] = x.solver.build(c.hyps, c.goal).text()
			}
			return all(ms)
		}
		ok := round(min(*ms, 6000))
		if !ok && und <= 6 { // the cases that are left, split further
			var more []caseOf
			for i, s := range sts {
				if s != "unsat" {
					more = append(more, splitCases(cs[i].hyps, cs[i].goal, 3)...)
				}
			}
			if len(more) <= 64 {
				cs = more
				ok = round(min(*ms, 6000))
			}
		}
		if !ok && *ms > 6000 && und <= 6 {
			ok = all(*ms)
		}
		j.o.Time += time.Since(t0).Seconds()
		if ok {
			j.o.Status, j.o.Solver, j.o.Detail = "proved", fmt.Sprintf("portfolio, %d cases", total), ""
			continue
		}
		for i, s := range sts {
			if s != "unsat" {
				j.text = texts[i]
				j.o.Detail += fmt.Sprintf(" (case %d of %d: %s)", i+1, len(cs), s)
				break
			}
		}
	}
	res.OK = true
	n := 0
	for i, j := range jobs {
		o := j.o
		oo := oblOut{Name: o.Name, Kind: o.Kind, Func: o.Func, Pos: o.Pos, Status: o.Status, Solver: o.Solver, Time: o.Time, Detail: o.Detail}
		if o.Status != "proved" {
			res.OK = false
			n++
			if j.text != "" {
				oo.Output = j.out
				if len(oo.Output) > 4000 {
					oo.Output = oo.Output[:4000]
				}
			}
		}
		if *dump != "" && j.text != "" && (o.Status != "proved" || *dumpAll) {
			os.MkdirAll(*dump, 0o755)
			f := filepath.Join(*dump, fmt.Sprintf("o%03d.smt2", i))
			if j.abs != "" {
				os.WriteFile(f+".abs", []byte(backends[0].pre+j.abs+"(check-sat)\n"), 0o644)
			}
			os.WriteFile(f, []byte(backends[0].pre+"; "+o.Func+" "+o.Kind+" "+o.Name+"\n"+j.text+"(check-sat)\n"), 0o644)
			oo.Query = f
		}
		if *verbose || o.Status != "proved" {
			fmt.Printf("%-7s %-9s %s: %s  [%s %s %.2fs] %s %s\n", o.Status, o.Kind, o.Func, o.Name, o.Pos, o.Solver, o.Time, o.Detail, oo.Query)
		}
		res.SolverTime += o.Time
		if o.Status == "proved" {
			res.Backends[o.Solver]++
		}
		res.Obligations = append(res.Obligations, oo)
	}
	res.SolverTime += x.solver.quickTime.Seconds()
	for k := range x.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	for k := range x.used {
		res.Assumptions = append(res.Assumptions, k)
	}
	for k := range axUsed {
		res.Axioms = append(res.Axioms, k)
	}
	sort.Strings(res.Inlined)
	sort.Strings(res.Assumptions)
	sort.Strings(res.Axioms)
	res.Wall = time.Since(start).Seconds()
	fmt.Printf("%s: %d obligations, %d failed; load %.1fs gen %.1fs wall %.1fs solver %.1fs, %d quick checks\n", *prop, len(jobs), n, loadT.Seconds(), res.GenTime, res.Wall, res.SolverTime, x.solver.quickN)
	for _, a := range res.Assumptions {
		if strings.HasPrefix(a, "unknown:") {
			fmt.Println(a)
		}
	}
	if len(jobs) == 0 {
		res.OK = false
		fmt.Println("no obligations were generated")
	}
	if *out != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if !res.OK {
		os.Exit(1)
	}
}
