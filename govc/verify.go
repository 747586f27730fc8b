package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entryState builds the state a function is verified from.
func (x *Exec) entryState() *State {
	var prev []*refBase
	for _, s := range x.initSt {
		if s != nil {
			prev = append(prev, s.base)
		}
	}
	b := newRefBase(prev...)
	st := &State{pc: True, heap: map[string]*Term{}, env: map[ssa.Value]Val{}, base: b, ep: x.newEpoch(b)}
	st.assume(Le(Int(refStep), b.t))
	for _, s := range x.initSt {
		if s != nil {
			st.assume(mkTerm("<=", "", BoolS, Add(s.base.t, Int(s.nalloc*refStep)), b.t))
		}
	}
	return st
}

// verify generates the obligations of one contract.
func (x *Exec) verify(c *Contract) {
	fn := x.P.funcs[c.Key]
	if fn == nil || len(fn.Blocks) == 0 {
		if c.Optional {
			return
		}
		x.obls = append(x.obls, &Obligation{Name: "function under contract exists", Kind: "missing", Func: c.Key, Pos: c.Pos, Goal: False, Detail: "no function " + c.Key + " in the current tree"})
		return
	}
	start := len(x.obls)
	defer func() {
		x.dry, x.depth, x.inspec, x.inInit = 0, 0, 0, 0
		x.noHoudini = false
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				panic(r)
			}
			x.obls = append(x.obls[:start:start], x.obls[start:]...)
			x.obls = append(x.obls, &Obligation{Name: "verification conditions can be generated", Kind: "unsupported", Func: c.Key, Pos: c.Pos, Goal: False, Detail: u.msg})
		}
	}()
	// package initialisation first: constants must be older than the entry state
	x.preload(fn, map[*ssa.Function]bool{})
	st := x.entryState()
	fr := &Frame{fn: fn, contract: c, path: "top", root: "top"}
	x.top = fr
	x.loopN, x.loopOrd, x.loopIn = map[string]int{}, map[string]int{}, map[int]*State{}
	x.curC = c
	x.solver.hide = c.Hide
	x.topCtx = nil
	x.safe = c.Safe["*"] || c.Safe[x.prop]
	x.split = c.Split
	var args []Val
	for _, p := range fn.Params {
		v := Fresh("in."+p.Name(), sortOf(p.Type()))
		for _, f := range typeFacts(v, p.Type(), st.base) {
			st.assume(f)
		}
		args = append(args, v)
		st.env[p] = v
	}
	fr.args = args
	for _, v := range fn.FreeVars {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if ok {
			r := Fresh("free."+v.Name(), IntS)
			for _, f := range typeFacts(r, v.Type(), st.base) {
				st.assume(f)
			}
			st.assume(Lt(Int(0), r))
			_ = pt
			st.env[v] = r
			continue
		}
		t := Fresh("free."+v.Name(), sortOf(v.Type()))
		for _, f := range typeFacts(t, v.Type(), st.base) {
			st.assume(f)
		}
		st.env[v] = t
	}
	ctx := &Ctx{x: x, st: st, pkg: c.Pkg, vars: map[string]TV{}}
	x.bindParams(ctx, c, fn.Signature, nil, args)
	for _, v := range fn.FreeVars {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if ok {
			ctx.vars[v.Name()] = TV{x.load(st, st.env[v], pt.Elem()), pt.Elem()}
		} else {
			ctx.vars[v.Name()] = TV{st.env[v], v.Type()}
		}
	}
	fr.specVars = ctx.vars
	for _, r := range c.Requires {
		if r.active(x.prop) {
			st.assume(ctx.evalBool(r))
		}
	}
	x.entry = st.clone()
	ctx.st = st
	entry := x.entry
	x.topCtx = ctx
	// vacuity: the precondition must be satisfiable
	x.vacuity(c, "precondition satisfiable", entry)
	es := x.runFunc(fr, st)
	if !x.split {
		es = x.joinExits(es)
	}
	if len(es) == 0 {
		x.obls = append(x.obls, &Obligation{Name: "function can return", Kind: "vacuity", Func: c.Key, Pos: c.Pos, Goal: False, Detail: "no path reaches a return"})
	}
	for i, e := range es {
		if i == 0 {
			x.vacuity(c, "return reachable", e.st)
		}
		pc := &Ctx{x: x, st: e.st, old: entry, pkg: c.Pkg, vars: map[string]TV{}}
		for k, v := range ctx.vars {
			pc.vars[k] = v
		}
		x.bindResults(pc, c, fn.Signature, e.res)
		for _, a := range c.Asserts { // proof hints: proved, then available
			if !a.active(x.prop) {
				continue
			}
			pc.pos = a.Pos
			for _, g := range pc.goals(a.E) {
				x.obligation(fr, "assert", "assert"+label(a), fn.Pos(), g.st, g.t)
			}
			e.st.assume(pc.evalBool(a))
		}
		for _, en := range c.Ensures {
			if !en.active(x.prop) {
				continue
			}
			pc.pos = en.Pos
			name := "ensures" + label(en)
			if en.Label == "" {
				name += " (" + en.Pos + ")"
			}
			for _, g := range pc.goals(en.E) {
				x.obligation(fr, "ensures", name, fn.Pos(), g.st, g.t)
			}
		}
		if x.active(c) && !c.NoFrame {
			x.frameCheck(fr, c, entry, e.st, ctx)
		}
	}
}

func (x *Exec) vacuity(c *Contract, what string, st *State) {
	x.obls = append(x.obls, &Obligation{Name: what, Kind: "vacuity", Func: c.Key, Pos: c.Pos, Hyps: append(st.hyps(), conjuncts(st.pc)...), Goal: False})
}

// frameCheck: everything outside the modifies clause that existed on entry is unchanged.
func (x *Exec) frameCheck(fr *Frame, c *Contract, entry, fin *State, ctx *Ctx) {
	allowed := map[string][]*Term{}
	ranges := map[string][]place{}
	whole := map[string]bool{}
	ec := *ctx
	ec.st = entry
	ec.old = entry
	for i, m := range c.Modifies {
		if !x.modActive(c, i) {
			continue
		}
		if m.Op == "ident" && m.Name == "*" {
			return
		}
		for _, p := range ec.places(m) {
			if p.ref == nil {
				whole[p.key] = true
			} else if p.rng != nil {
				ranges[p.key] = append(ranges[p.key], p)
			} else {
				allowed[p.key] = append(allowed[p.key], p.ref)
			}
		}
	}
	keys := map[string]bool{}
	for k := range fin.heap {
		keys[k] = true
	}
	if fin.ep != entry.ep {
		for k := range x.keys {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if whole[k] || strings.HasPrefix(k, "IT|") {
			continue
		}
		h0, h1 := x.get(entry, k), x.get(fin, k)
		if h0 == h1 {
			continue
		}
		name := "modifies nothing else: " + k
		if h0.S.Kind != SArray || x.keys[k].kind == 'V' {
			x.obligation(fr, "frame", name, fr.fn.Pos(), fin, Eq(h0, h1))
			continue
		}
		r := Fresh("frame", IntS)
		olderThan[r] = entry.base
		s := fin.clone()
		s.assume(mkTerm("<=", "", BoolS, Add(r, Int(1)), entry.base.t))
		s.assume(Not(Eq(r, noRef)))
		if x.keys[k].kind == 'S' {
			s.assume(Not(Eq(r, Int(0)))) // a nil slice has no elements
		}
		for _, a := range allowed[k] {
			s.assume(Not(Eq(r, a)))
		}
		if len(ranges[k]) > 0 {
			i := Fresh("frame.i", IntS)
			for _, p := range ranges[k] {
				s.assume(Not(And(Eq(r, p.ref), Le(p.rng.lo, i), Lt(i, p.rng.hi))))
			}
			x.obligation(fr, "frame", name, fr.fn.Pos(), s, Eq(Select(Select(h1, r), i), Select(Select(h0, r), i)))
			continue
		}
		x.obligation(fr, "frame", name, fr.fn.Pos(), s, Eq(Select(h1, r), Select(h0, r)))
	}
}

// preload runs the initialisation of packages whose constants the function may read.
func (x *Exec) preload(f *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[f] || f == nil {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [12]*ssa.Value
			for _, op := range in.Operands(ops[:0]) {
				switch v := (*op).(type) {
				case *ssa.Global:
					x.constGlobal(v)
				case *ssa.Function:
					if inRepo(pkgOf(v)) || v.Synthetic != "" {
						x.preload(v, seen)
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		x.preload(a, seen)
	}
}

// lemma generates the obligations of a lemma.
func (x *Exec) lemma(l *Lemma) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsup)
			if !ok {
				panic(r)
			}
			x.obls = append(x.obls, &Obligation{Name: "lemma can be stated", Kind: "unsupported", Func: "lemma " + l.Name, Pos: l.Pos, Goal: False, Detail: u.msg})
		}
	}()
	x.solver.hide = l.Hide
	st := x.entryState()
	ctx := &Ctx{x: x, st: st, pkg: l.Pkg, vars: map[string]TV{}}
	for _, v := range l.Vars {
		s, t := x.specType(v.Type, l.Pkg)
		k := Fresh("lv."+v.Name, s)
		if t != nil {
			for _, f := range typeFacts(k, t, st.base) {
				st.assume(f)
			}
		}
		ctx.vars[v.Name] = x.mark(TV{k, t}, v.Type, l.Pkg)
	}
	for _, r := range l.Req {
		st.assume(ctx.evalBool(r))
	}
	if l.Ind != "" {
		v, ok := ctx.vars[l.Ind]
		if !ok {
			x.unsupported("induction variable %s", l.Ind)
		}
		n := v.v.(*Term)
		ic := ctx.with(l.Ind, TV{Sub(n, Int(1)), v.typ})
		var rs, es []*Term
		for _, r := range l.Req {
			rs = append(rs, ic.evalBool(r))
		}
		for _, e := range l.Ens {
			es = append(es, ic.evalBool(e))
		}
		st.assume(Implies(And(append(rs, Le(Int(1), n))...), And(es...)))
	}
	for _, h := range l.Hint {
		ctx.pos = h.Pos
		for _, g := range ctx.goals(h.E) {
			x.obls = append(x.obls, &Obligation{Name: "hint" + label(h), Kind: "lemma", Func: "lemma " + l.Name, Pos: h.Pos, Hyps: g.st.hyps(), Goal: g.t})
		}
		st.assume(ctx.evalBool(h))
	}
	for _, e := range l.Ens {
		ctx.pos = e.Pos
		for _, g := range ctx.goals(e.E) {
			x.obls = append(x.obls, &Obligation{Name: "lemma" + label(e), Kind: "lemma", Func: "lemma " + l.Name, Pos: e.Pos, Hyps: g.st.hyps(), Goal: g.t})
		}
	}
}

var _ = fmt.Sprint
