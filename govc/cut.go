package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A cut in front of a call ("cut NAME: E" clauses of a function contract) ends one part of a long function and starts the
// next: every path that arrives has to satisfy the clauses and the function's frame; what follows is verified from an
// arbitrary state about which nothing else is known.

type witKey struct {
	typ string
	ref *Term
}

func (s *State) witness(t types.Type, r *Term) {
	k := witKey{witName(t), r}
	for _, w := range s.wit {
		if w == k {
			return
		}
	}
	s.wit = append(s.wit[:len(s.wit):len(s.wit)], k)
}

func witName(t types.Type) string { return shortType(types.Unalias(t)) }

// objectType: the type objects are recorded under, for a type of references.
func objectType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u
	}
	return nil
}

func (s *State) witnesses(t types.Type) (out []*Term) {
	k := witName(t)
	for _, w := range s.wit {
		if w.typ == k {
			out = append(out, w.ref)
		}
	}
	return
}

// assumeSk assumes e; the outer existential quantifiers over pointers become named objects.
func (c *Ctx) assumeSk(e *Expr) { c.assumeIf(True, e) }

func (c *Ctx) assumeIf(g *Term, e *Expr) {
	switch {
	case !hasExists(c.x, e, 0):
	case e.Op == "binary" && e.Name == "&&":
		c.assumeIf(g, e.Args[0])
		c.assumeIf(g, e.Args[1])
		return
	case e.Op == "binary" && e.Name == "==>":
		c.assumeIf(And(g, c.eval(e.Args[0]).tm(c)), e.Args[1])
		return
	case e.Op == "call" && e.Args[0].Op == "ident":
		if f := c.x.spec.funcs[e.Args[0].Name]; f != nil && f.Body != nil && !f.Rec {
			if _, shadow := c.vars[f.Name]; !shadow {
				c.macroCtx(f, e.Args[1:]).assumeIf(g, f.Body)
				return
			}
		}
	case e.Op == "exists" && len(e.Vars) == 1:
		s, t := c.x.specType(e.Vars[0].Type, c.pkg)
		if t != nil {
			if p := objectType(t); p != nil {
				k := Fresh("sk."+e.Vars[0].Name, s)
				for _, f := range typeFacts(k, t, c.st.base) {
					c.st.assume(f)
				}
				c.st.witness(p, k)
				c.with(e.Vars[0].Name, TV{k, t}).assumeIf(g, e.Args[0])
				return
			}
		}
	}
	c.st.assume(Implies(g, c.eval(e).tm(c)))
}

// hasExists reports whether e holds an existential quantifier, in the specification functions it uses too.
func hasExists(x *Exec, e *Expr, depth int) bool {
	if e == nil || depth > 4 {
		return false
	}
	if e.Op == "exists" {
		return true
	}
	if e.Op == "call" && len(e.Args) > 0 && e.Args[0].Op == "ident" {
		if f := x.spec.funcs[e.Args[0].Name]; f != nil && f.Body != nil && !f.Rec && hasExists(x, f.Body, depth+1) {
			return true
		}
	}
	for _, a := range e.Args {
		if hasExists(x, a, depth) {
			return true
		}
	}
	return false
}

// cutSpec returns the cut clauses of a block of the function under verification: those labelled with the name of a
// function the block calls.
func (x *Exec) cutSpec(fr *Frame, b *ssa.BasicBlock) (out []*Clause) {
	if x.dry > 0 || x.inspec > 0 || fr.contract == nil || fr.root != "top" || fr.path != "top" || x.topCtx == nil || len(fr.contract.Cuts) == 0 {
		return nil
	}
	called := map[string]bool{}
	for _, in := range b.Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil {
				called[f.Name()] = true
			} else if c.Call.Method != nil {
				called[c.Call.Method.Name()] = true
			}
		}
	}
	for _, c := range fr.contract.Cuts {
		if c.active(x.prop) && called[c.Label] {
			out = append(out, c)
		}
	}
	return out
}

func (x *Exec) cut(fr *Frame, b *ssa.BasicBlock, cs []*Clause, sts []*State) *State {
	mk := func(s *State) *Ctx {
		c := &Ctx{x: x, st: s, old: x.entry, fr: fr, head: b, vars: map[string]TV{}, pkg: fr.contract.Pkg}
		return c
	}
	for _, s := range sts {
		for _, c := range cs {
			ctx := mk(s)
			ctx.pos = c.Pos
			for _, g := range ctx.goals(c.E) {
				x.obligation(fr, "cut", "cut before "+c.Label, b.Instrs[0].Pos(), g.st, g.t)
			}
		}
		if !x.curC.NoFrame {
			x.frameCheck(fr, x.curC, x.entry, s, x.topCtx)
		}
	}
	m := merge(x, sts)
	n := m.clone()
	n.facts, n.wit = x.entry.facts, nil
	// what is small is kept: it is about values, not about how they came about
	var keep []*Term
	for f := m.facts; f != nil && f != x.entry.facts; f = f.up {
		if f.t.size <= 12 && !hasQuant(f.t, hasQMemo) {
			keep = append(keep, f.t)
		}
	}
	for i := len(keep) - 1; i >= 0; i-- {
		n.assume(keep[i])
	}
	if n.pc != x.entry.pc {
		n.pc = Fresh("reached", BoolS)
	}
	n.base, n.nalloc = m.base, m.nalloc
	nb := x.bumpBase(n)
	n.assume(mkTerm("<=", "", BoolS, x.entry.base.t, nb.t))
	allowed, whole := x.modPlaces(x.curC, x.topCtx, x.entry)
	keys := map[string]bool{}
	for k := range m.heap {
		keys[k] = true
	}
	if m.ep != x.entry.ep {
		for k := range x.keys {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		h0 := x.get(x.entry, k)
		if x.get(m, k) == h0 && m.ep == x.entry.ep {
			continue
		}
		h := x.newHeapConst(k, "C", nb)
		n.heap[k] = h
		if h.S.Kind != SArray || x.keys[k].kind == 'V' {
			if x.keys[k].typ != nil {
				for _, f := range typeFacts(h, x.keys[k].typ, nb) {
					n.assume(f)
				}
			}
			continue
		}
		if whole["*"] || whole[k] || strings.HasPrefix(k, "IT|") {
			continue
		}
		r := BVar("r!f", IntS)
		var ne []*Term
		for _, e := range append(allowed[k], noRef) {
			ne = append(ne, Not(Eq(r, e)))
		}
		ne = append(ne, mkTerm("<=", "", BoolS, Add(r, Int(1)), x.entry.base.t))
		sel := mkTerm("select", "", h.S.Elem, h, r)
		n.assume(Forall([]*Term{r}, Implies(And(ne...), Eq(sel, Select(h0, r))), sel))
	}
	var vs []ssa.Value
	for v := range n.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if a, b := vs[i].Name(), vs[j].Name(); a != b {
			return a < b
		}
		return vs[i].Pos() < vs[j].Pos()
	})
	for _, v := range vs {
		val := n.env[v]
		if t, ok := val.(*Term); ok && t.Op == "const" {
			if _, isIn := v.(*ssa.Parameter); !isIn && t.S == sortOf(v.Type()) {
				for _, f := range typeFacts(t, v.Type(), nb) {
					n.assume(f)
				}
			}
		}
	}
	// local variables whose value is known keep it
	for _, v := range vs {
		val := n.env[v]
		a, ok := v.(*ssa.Alloc)
		if !ok {
			continue
		}
		t := a.Type().Underlying().(*types.Pointer).Elem()
		if w := x.load(m, val, t); w.size <= 40 {
			x.store(n, val, t, w)
		}
	}
	for _, c := range cs {
		ctx := mk(n)
		ctx.pos = c.Pos
		ctx.assumeSk(c.E)
	}
	return n
}

// modPlaces lists what a modifies clause allows: cells by heap, and whole heaps.
func (x *Exec) modPlaces(c *Contract, ctx *Ctx, entry *State) (map[string][]*Term, map[string]bool) {
	allowed := map[string][]*Term{}
	whole := map[string]bool{}
	if c.NoFrame {
		whole["*"] = true
	}
	ec := *ctx
	ec.st = entry
	ec.old = entry
	for i, m := range c.Modifies {
		if !x.modActive(c, i) {
			continue
		}
		if m.Op == "ident" && m.Name == "*" {
			whole["*"] = true
			continue
		}
		for _, p := range ec.places(m) {
			if p.ref == nil {
				whole[p.key] = true
			} else {
				allowed[p.key] = append(allowed[p.key], p.ref)
			}
		}
	}
	return allowed, whole
}
