package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// Solver turns obligations into SMT-LIB queries and runs the back ends.
type Solver struct {
	x         *Exec
	axiomT    []axiomTerm
	lemmaT    []axiomTerm
	axDone    bool
	quickN    int
	quickTime time.Duration
	quickMemo map[string]bool
	ruleSyms  map[string]bool
	lemmaLim  int // lemmas with index < lemmaLim may be used
	curFunc   string
	hide      map[string]bool
}

type axiomTerm struct {
	name    string
	pos     string
	vars    []*Term
	body    *Term
	trigs   [][]*Term
	ground  bool
	trusted bool
	q       *Term
	syms    []map[string]bool // per trigger
	rule    bool
}

func (x *Exec) recBody(t *Term) *Term {
	f := x.spec.funcs[strings.TrimPrefix(t.Name, "sp.")]
	if f == nil || !f.Rec || f.Body == nil {
		return nil
	}
	c := x.pureCtx(f.Pkg)
	for i, p := range f.Params {
		_, ty := x.specType(p.Type, f.Pkg)
		c.vars[p.Name] = x.mark(TV{t.Args[i], ty}, p.Type, f.Pkg)
	}
	c.pos = "definition of " + f.Name
	s, ty := x.specType(f.Ret, f.Pkg)
	r := c.eval(f.Body)
	return c.coerceTo(r, s, ty).tm(c)
}

// pureCtx is a context for state-independent specification terms.
func (x *Exec) pureCtx(pkg string) *Ctx {
	if x.pureSt == nil {
		x.pureSt = x.entryState()
	}
	return &Ctx{x: x, st: x.pureSt, pkg: pkg, vars: map[string]TV{}}
}

func (s *Solver) prepare() {
	if s.axDone {
		return
	}
	s.axDone = true
	mk := func(name, pos, pkg string, vars []Param, trigs [][]*Expr, body func(c *Ctx) *Term) axiomTerm {
		x := s.x
		c := x.pureCtx(pkg)
		c.pos = pos
		a := axiomTerm{name: name, pos: pos}
		var guards []*Term
		for _, v := range vars {
			so, ty := x.specType(v.Type, pkg)
			b := BVar("ax."+v.Name, so)
			if ty != nil && isUnsigned(ty) {
				guards = append(guards, Le(Int(0), b))
			}
			a.vars = append(a.vars, b)
			c.vars[v.Name] = x.mark(TV{b, ty}, v.Type, pkg)
		}
		a.body = Implies(And(guards...), body(c))
		var pats []*Term
		for _, tr := range trigs {
			var ts []*Term
			for _, e := range tr {
				ts = append(ts, c.eval(e).tm(c))
			}
			a.trigs = append(a.trigs, ts)
			if len(ts) == 1 {
				pats = append(pats, ts[0])
			} else {
				pats = append(pats, mkTerm("multipat", "", BoolS, ts...))
			}
			m := map[string]bool{}
			for _, t := range ts {
				symbols(t, m)
			}
			a.syms = append(a.syms, m)
		}
		if len(trigs) == 0 {
			m := map[string]bool{}
			symbols(a.body, m)
			a.syms = append(a.syms, m)
		}
		if len(vars) == 0 {
			a.q = a.body
		} else {
			a.q = Forall(a.vars, a.body, pats...)
		}
		return a
	}
	for _, ax := range s.x.spec.axioms {
		ax := ax
		if len(ax.Props) > 0 && s.x.prop != "" && !ax.Props[s.x.prop] {
			continue
		}
		a := mk(ax.Name, ax.Pos, ax.Pkg, ax.Vars, ax.Trigs, func(c *Ctx) *Term { return c.eval(ax.Body).tm(c) })
		a.ground = ax.Ground
		a.trusted = true
		a.rule = ax.Rule
		if a.rule {
			if s.ruleSyms == nil {
				s.ruleSyms = map[string]bool{}
			}
			for _, tr := range a.trigs {
				for _, t := range tr {
					if t.Op == "app" {
						s.ruleSyms[t.Name] = true
					}
				}
			}
		}
		s.axiomT = append(s.axiomT, a)
	}
	for _, l := range s.x.spec.lemmas {
		l := l
		a := mk(l.Name, l.Pos, l.Pkg, l.Vars, l.Trigs, func(c *Ctx) *Term {
			var r, e []*Term
			for _, q := range l.Req {
				r = append(r, c.evalBool(q))
			}
			for _, q := range l.Ens {
				e = append(e, c.evalBool(q))
			}
			return Implies(And(r...), And(e...))
		})
		if len(l.Trigs) == 0 && len(l.Vars) > 0 {
			a.q = nil // only usable with triggers
		}
		if len(l.Props) > 0 && s.x.prop != "" && !l.Props[s.x.prop] {
			a.q = nil // not proved in this run
		}
		for _, m := range a.syms {
			for k := range m {
				a.rule = a.rule || s.ruleSyms[k]
			}
		}
		s.lemmaT = append(s.lemmaT, a)
	}
}

// symbols collects the function symbols of t.
func symbols(t *Term, out map[string]bool) {
	collect(t, map[*Term]bool{}, func(u *Term) {
		if u.Op == "app" {
			out[u.Name] = true
		}
	})
}

func subset(a, b map[string]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

type query struct {
	asserts []*Term
	goal    *Term
	used    map[string]bool // trusted axioms included
	lemmas  map[string]bool
}

func flatten(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		for _, c := range conjuncts(t) {
			if c != True && !seen[c] {
				seen[c] = true
				out = append(out, c)
			}
		}
	}
	return out
}

func (s *Solver) build(hyps []*Term, goal *Term) *query {
	s.prepare()
	x := s.x
	goal = normQ(goal)
	q := &query{goal: goal, used: map[string]bool{}, lemmas: map[string]bool{}}
	seenT := map[*Term]bool{}
	syms := map[string]bool{}
	vars := map[*Term]bool{}
	var work []*Term // newly visited ground apps
	var apps []*Term
	sorts := map[*Sort]bool{}
	visit := func(t *Term) {
		collect(t, seenT, func(u *Term) {
			sorts[u.S] = true
			switch u.Op {
			case "app":
				syms[u.Name] = true
				if !u.hasB {
					work = append(work, u)
					apps = append(apps, u)
				}
			case "var":
				vars[u] = true
			}
		})
	}
	inQ := map[*Term]bool{}
	add := func(t *Term) {
		for _, c := range conjuncts(normQ(t)) {
			if c == True || inQ[c] {
				continue
			}
			inQ[c] = true
			q.asserts = append(q.asserts, c)
			visit(c)
		}
	}
	for _, h := range flatten(hyps) {
		add(h)
	}
	visit(goal)
	gs := map[string]bool{}
	symbols(goal, gs)
	ruled := false
	for k := range gs {
		ruled = ruled || s.ruleSyms[k]
	}
	// facts valid in every state, when all their constants occur
	gvars := s.globalVars()
	addGlobals := func() bool {
		ch := false
		for i := 0; i < len(x.global); i++ {
			g := x.global[i]
			if i >= len(gvars) {
				gvars = s.globalVars()
			}
			if inQ[g] || g == True {
				continue
			}
			ok := true
			for _, v := range gvars[i] {
				if !vars[v] {
					ok = false
					break
				}
			}
			if ok {
				n := len(q.asserts)
				add(g)
				inQ[g] = true
				ch = ch || len(q.asserts) > n
			}
		}
		return ch
	}
	usedBG := map[int]bool{}
	usedAx := map[*axiomTerm]bool{}
	instDone := map[*Term]bool{}
	recDepth := map[*Term]int{}
	litDone := map[*Term]bool{}
	gInst := map[*axiomTerm]map[string]bool{}
	for round := 0; round < 4; round++ {
		addGlobals()
		// characters of literals
		for _, u := range work {
			if u.Name == "st.at" && u.Args[0].Op == "strlit" && len(u.Args[0].Name) <= 64 && !litDone[u] {
				litDone[u] = true
				for i, b := range []byte(u.Args[0].Name) {
					add(Implies(Eq(u.Args[1], Int(int64(i))), Eq(u, Int(int64(b)))))
				}
			}
		}
		for again := true; again; {
			again = false
			for i, b := range bgAxioms {
				if !usedBG[i] && syms[b.sym] {
					usedBG[i] = true
					add(b.f)
					again = true
				}
			}
		}
		// definitions of recursive functions
		w := work
		work = nil
		for _, u := range w {
			if strings.HasPrefix(u.Name, "sp.") && !instDone[u] {
				instDone[u] = true
				if recDepth[u] >= 2 {
					continue // unfolded twice already
				}
				if s.hide[u.Name[3:]] {
					continue
				}
				if b := x.recBody(u); b != nil {
					n := len(work)
					add(Eq(u, b))
					for _, v := range work[n:] {
						if v.Name == u.Name && recDepth[v] == 0 {
							recDepth[v] = recDepth[u] + 1
						}
					}
				}
			}
		}
		try := func(a *axiomTerm, lemma bool) {
			if a.q == nil || s.hide[a.name] || a.rule && !ruled {
				return
			}
			ok := false
			for _, v := range a.vars {
				if v.S.Kind != SInt && v.S.Kind != SBool && !sorts[v.S] {
					return // no term of that sort
				}
			}
			for _, m := range a.syms {
				if subset(m, syms) {
					ok = true
				}
			}
			if !ok {
				return
			}
			if lemma {
				q.lemmas[a.name] = true
			} else {
				q.used[a.name+" ("+a.pos+")"] = true
			}
			if !a.ground {
				if !usedAx[a] {
					usedAx[a] = true
					add(a.q)
				}
				if !lemma {
					return
				}
			}
			if gInst[a] == nil {
				gInst[a] = map[string]bool{}
			}
			for _, tr := range a.trigs {
				for _, m := range matchAll(tr, apps) {
					key := ""
					for _, v := range a.vars {
						if m[v] == nil {
							key = "?"
							break
						}
						key += fmt.Sprint(m[v].id) + ","
					}
					if key == "?" || gInst[a][key] {
						continue
					}
					gInst[a][key] = true
					add(Subst(a.body, m))
				}
			}
		}
		for i := range s.axiomT {
			try(&s.axiomT[i], false)
		}
		for i := range s.lemmaT {
			if i < s.lemmaLim {
				try(&s.lemmaT[i], true)
			}
		}
		if len(work) == 0 {
			break
		}
	}
	// allocation frontiers only move up, also on the branches that are not taken
	var bases []*refBase
	for v := range vars {
		if b := refBases[v]; b != nil {
			bases = append(bases, b)
		}
	}
	sort.Slice(bases, func(i, j int) bool { return bases[i].idx < bases[j].idx })
	for _, a := range bases {
		for _, b := range bases {
			if a == b || !a.after(b) {
				continue
			}
			direct := true
			for _, c := range bases {
				if c != a && c != b && a.after(c) && c.after(b) {
					direct = false
					break
				}
			}
			if direct {
				add(mkTerm("<=", "", BoolS, b.t, a.t))
			}
		}
	}
	return q
}

// matchAll finds the substitutions that make the patterns occur among ground terms.
func matchAll(pats []*Term, apps []*Term) []map[*Term]*Term {
	res := []map[*Term]*Term{{}}
	for _, p := range pats {
		var next []map[*Term]*Term
		for _, m := range res {
			for _, a := range apps {
				if a.Name != p.Name || a.Op != p.Op {
					continue
				}
				n := map[*Term]*Term{}
				for k, v := range m {
					n[k] = v
				}
				if matchTerm(p, a, n) {
					next = append(next, n)
				}
			}
			if len(next) > 4000 {
				break
			}
		}
		res = next
	}
	return res
}

func matchTerm(p, t *Term, m map[*Term]*Term) bool {
	if p.Op == "bvar" {
		if o, ok := m[p]; ok {
			return o == t
		}
		if p.S != t.S {
			return false
		}
		m[p] = t
		return true
	}
	if !p.hasB {
		return p == t
	}
	if p.Op != t.Op || p.Name != t.Name || len(p.Args) != len(t.Args) {
		return false
	}
	for i := range p.Args {
		if !matchTerm(p.Args[i], t.Args[i], m) {
			return false
		}
	}
	return true
}

func (s *Solver) globalVars() [][]*Term {
	for i := len(s.x.gvars); i < len(s.x.global); i++ {
		var vs []*Term
		collect(s.x.global[i], map[*Term]bool{}, func(u *Term) {
			if u.Op == "var" {
				if _, b := refBases[u]; !b {
					vs = append(vs, u)
				}
			}
		})
		s.x.gvars = append(s.x.gvars, vs)
	}
	return s.x.gvars
}

// text prints the query.
func (q *query) text() string {
	neg := Not(q.goal)
	all := append(append([]*Term(nil), q.asserts...), neg)
	if q.goal == False {
		all = all[:len(all)-1]
	}
	// symbols
	seen := map[*Term]bool{}
	vars := map[string]*Term{}
	funs := map[string]bool{}
	sorts := map[*Sort]bool{}
	lits := []*Term{}
	needEmpty := false
	var addSort func(s *Sort)
	var sortList []*Sort
	addSort = func(s *Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if s.Kind == SArray {
			addSort(s.Idx)
			addSort(s.Elem)
			return
		}
		for _, f := range s.Fields {
			addSort(f.Sort)
		}
		for _, c := range s.Ctors {
			for _, f := range c.Fields {
				addSort(f.Sort)
			}
		}
		if s.Kind == SUninterp || s.Kind == SData {
			sortList = append(sortList, s)
		}
	}
	uses := map[*Term]int{}
	var dfs func(t *Term)
	var order []*Term
	hasBytes, hasLen := false, false
	var boxes []string
	dfs = func(t *Term) {
		uses[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		addSort(t.S)
		switch t.Op {
		case "var":
			vars[t.Name] = t
		case "app":
			if !funs[t.Name] {
				funs[t.Name] = true
				if t.Name == "st.bytes" {
					hasBytes = true
				}
				if t.Name == "st.len" {
					hasLen = true
				}
				if strings.HasPrefix(t.Name, "box.") || strings.HasPrefix(t.Name, "unbox.") {
					n := strings.TrimPrefix(t.Name, "un")
					if !funs["@"+n] {
						funs["@"+n] = true
						boxes = append(boxes, n)
					}
				}
			}
			for _, so := range funcDecls[t.Name].Args {
				addSort(so)
			}
		case "strlit":
			if t.Name == "" {
				needEmpty = true
			} else {
				lits = append(lits, t)
			}
		}
		for _, a := range t.Args {
			dfs(a)
		}
		order = append(order, t)
	}
	for _, a := range all {
		dfs(a)
	}
	// literals: lengths and contents
	var extra []*Term
	if needEmpty || len(lits) > 0 || hasLen || hasBytes {
		addSort(StrS)
		needEmpty = needEmpty || hasLen || hasBytes
	}
	if hasLen {
		for _, l := range lits {
			extra = append(extra, mkTerm("=", "", BoolS, mkTerm("app", "st.len", IntS, l), Int(int64(len(l.Name)))))
		}
		extra = append(extra, mkTerm("=", "", BoolS, mkTerm("app", "st.len", IntS, StrLit("")), Int(0)))
	}
	if hasBytes {
		for _, l := range lits {
			if len(l.Name) <= 48 {
				ss := SeqSort(IntS)
				var r *Term
				for i := 0; i < len(l.Name); i++ {
					o := mkTerm("app", "sq.one.Int", ss, Int(int64(l.Name[i])))
					if r == nil {
						r = o
					} else {
						r = mkTerm("app", "sq.cat.Int", ss, r, o)
					}
				}
				extra = append(extra, mkTerm("=", "", BoolS, mkTerm("app", "st.bytes", ss, l), r))
			}
		}
		extra = append(extra, mkTerm("=", "", BoolS, mkTerm("app", "st.bytes", SeqSort(IntS), StrLit("")), mkTerm("app", "sq.nil.Int", SeqSort(IntS))))
	}
	for _, e := range extra {
		dfs(e)
	}
	for _, b := range boxes {
		for _, n := range []string{b, "un" + b} {
			if funcDecls[n] != nil {
				funs[n] = true
				addSort(funcDecls[n].Ret)
				for _, a := range funcDecls[n].Args {
					addSort(a)
				}
			}
		}
	}
	var sb strings.Builder
	// sorts: uninterpreted first, then datatypes in dependency order
	for _, s := range sortList {
		if s.Kind == SUninterp {
			fmt.Fprintf(&sb, "(declare-sort %s 0)\n", smtSym(s.Name))
		}
	}
	for _, s := range sortList {
		if s.Kind != SData {
			continue
		}
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) ((", smtSym(s.Name))
		pr := func(n string, fs []SField) {
			fmt.Fprintf(&sb, "(%s", smtSym(n))
			for _, f := range fs {
				fmt.Fprintf(&sb, " (%s %s)", smtSym(f.Name), f.Sort.Name)
			}
			sb.WriteString(")")
		}
		if len(s.Ctors) > 0 {
			for _, c := range s.Ctors {
				pr(c.Name, c.Fields)
			}
		} else {
			pr(s.Ctor, s.Fields)
		}
		sb.WriteString(")))\n")
	}
	if needEmpty {
		sb.WriteString("(declare-const st.empty Str)\n")
	}
	for _, l := range lits {
		fmt.Fprintf(&sb, "(declare-const %s Str) ; %q\n", strLitName(l), l.Name)
	}
	if len(lits) > 0 && (needEmpty || len(lits) > 1) {
		sb.WriteString("(assert (distinct")
		if needEmpty {
			sb.WriteString(" st.empty")
		}
		for _, l := range lits {
			sb.WriteString(" " + strLitName(l))
		}
		sb.WriteString("))\n")
	}
	var vn []string
	for n := range vars {
		vn = append(vn, n)
	}
	sort.Strings(vn)
	for _, n := range vn {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", smtSym(n), vars[n].S.Name)
	}
	var fn []string
	for n := range funs {
		if !strings.HasPrefix(n, "@") {
			fn = append(fn, n)
		}
	}
	sort.Strings(fn)
	for _, n := range fn {
		f := funcDecls[n]
		var as []string
		for _, a := range f.Args {
			as = append(as, a.Name)
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtSym(n), strings.Join(as, " "), f.Ret.Name)
	}
	for _, b := range boxes {
		if funcDecls[b] != nil && funcDecls["un"+b] != nil {
			fmt.Fprintf(&sb, "(assert (forall ((v %s)) (! (= (%s (%s v)) v) :pattern ((%s v)))))\n", funcDecls[b].Args[0].Name, smtSym("un"+b), smtSym(b), smtSym(b))
		} else if f := funcDecls[b]; f != nil {
			fmt.Fprintf(&sb, "(declare-fun %s (Int) %s)\n", smtSym("un"+b), f.Args[0].Name)
			fmt.Fprintf(&sb, "(assert (forall ((v %s)) (! (= (%s (%s v)) v) :pattern ((%s v)))))\n", f.Args[0].Name, smtSym("un"+b), smtSym(b), smtSym(b))
		}
	}
	// shared ground terms
	names := map[*Term]string{}
	for _, t := range order {
		if t.hasB || len(t.Args) == 0 || uses[t] < 2 || t.size < 4 || t.Op == "multipat" {
			continue
		}
		n := fmt.Sprintf("d!%d", t.id)
		body := smtBody(t, names)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S.Name, body)
		names[t] = n
	}
	for _, t := range extra {
		sb.WriteString("(assert " + smt(t, names) + ")\n")
	}
	for _, t := range q.asserts {
		sb.WriteString("(assert " + smt(t, names) + ")\n")
	}
	if q.goal != False {
		sb.WriteString("; negated goal\n(assert " + smt(neg, names) + ")\n")
	}
	return sb.String()
}

// ---------------------------------------------------------------------------
// Running

type backend struct {
	name string
	pre  string
	args func(ms int) []string
	bin  string
}

var backends = []backend{
	{"z3-new", "(set-option :auto_config false)(set-option :smt.mbqi false)\n", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }, "z3-new"},
	{"cvc5", "(set-logic ALL)\n", func(ms int) []string { return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-"} }, "cvc5"},
	{"z3-4.8.12", "", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }, "z3"},
	{"z3-new-eager", "(set-option :auto_config false)(set-option :smt.mbqi false)(set-option :smt.qi.eager_threshold 3)\n", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }, "z3-new"},
	{"z3-new-mbqi", "", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }, "z3-new"},
}

var procSem = make(chan struct{}, 8)

func runSMT(ctx context.Context, b backend, text string, ms int, tail string) (string, string) {
	select {
	case procSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown", "cancelled"
	}
	defer func() { <-procSem }()
	c, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, b.bin, b.args(ms)...)
	cmd.Stdin = strings.NewReader(b.pre + text + "(check-sat)\n" + tail)
	var out, eb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &eb
	cmd.Run()
	o := out.String()
	first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
	switch first {
	case "unsat", "sat", "unknown":
		return first, o
	}
	if strings.Contains(o, "timeout") {
		return "unknown", o
	}
	if strings.Contains(o+eb.String(), "error") || strings.Contains(o+eb.String(), "Error") {
		return "error", o + eb.String()
	}
	return "unknown", o + eb.String()
}

// quick: used while building obligations (candidate invariants); only a proof counts.
func (s *Solver) quick(x *Exec, hyps []*Term, goal *Term) bool {
	if goal == True {
		return true
	}
	for _, h := range hyps {
		if h == False {
			return true
		}
	}
	t0 := time.Now()
	q := s.build(hyps, goal)
	text := q.text()
	if len(text) > absText {
		text = s.build(abstractQuery(hyps, goal, 40, 2000)).text()
	}
	if r, ok := s.quickMemo[text]; ok {
		return r
	}
	r, out := runSMT(context.Background(), backends[0], text, quickMS, "")
	if r == "error" {
		dumpBad(text, out)
	}
	s.quickN++
	s.quickTime += time.Since(t0)
	s.quickMemo[text] = r == "unsat"
	return r == "unsat"
}

var quickMS = 1500

// solveText runs the portfolio on one query.
func solveText(text string, ms int, vac bool) (status, who string, secs float64, out string) {
	t0 := time.Now()
	done := func(st, w, o string) (string, string, float64, string) {
		return st, w, time.Since(t0).Seconds(), o
	}
	if vac {
		r, o := runSMT(context.Background(), backends[0], text, min(ms, 3000), "")
		return done(r, backends[0].name, o)
	}
	r, o := runSMT(context.Background(), backends[0], text, min(ms, 2000), "")
	if r == "unsat" || r == "error" {
		return done(r, backends[0].name, o)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ r, who, o string }
	ch := make(chan res, len(backends))
	var wg sync.WaitGroup
	for i, b := range backends {
		wg.Add(1)
		go func(i int, b backend) {
			defer wg.Done()
			r, o := runSMT(ctx, b, text, ms, "")
			ch <- res{r, b.name, o}
		}(i, b)
	}
	best := res{"unknown", "portfolio", o}
	for range backends {
		v := <-ch
		if v.r == "unsat" {
			cancel()
			return done(v.r, v.who, v.o)
		}
		if v.r == "sat" && best.r != "sat" {
			best = v
			if !strings.HasPrefix(v.who, "z3-new") || v.who == "z3-new-mbqi" { // complete search: stop early
				cancel()
			}
		}
	}
	return done(best.r, best.who, best.o)
}
