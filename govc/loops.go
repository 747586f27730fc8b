package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Source names

// resolveName finds the value of the Go variable n in frame fr at block head (nil: anywhere).
func (x *Exec) resolveName(fr *Frame, head *ssa.BasicBlock, st *State, n string) (TV, bool) {
	env := st.env
	for f := fr; f != nil; f = f.parent {
		if v, ok := x.nameIn(f, head, st, env, n); ok {
			return v, true
		}
		head = nil
		env = f.callEnv
	}
	return TV{}, false
}

// localAddr: the address of the Go variable n, which is kept in memory.
func (x *Exec) localAddr(fr *Frame, st *State, n string) (TV, bool) {
	env := st.env
	for f := fr; f != nil; f = f.parent {
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Comment == n {
					if p, ok := env[a]; ok {
						return TV{p, a.Type()}, true
					}
				}
			}
		}
		env = f.callEnv
	}
	return TV{}, false
}

func (x *Exec) nameIn(f *Frame, head *ssa.BasicBlock, st *State, env map[ssa.Value]Val, n string) (TV, bool) {
	get := func(v ssa.Value) (TV, bool) {
		if r, ok := env[v]; ok {
			return TV{r, v.Type()}, true
		}
		return TV{}, false
	}
	// phis of the loop header and of dominating blocks
	for b := head; b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				if p.Comment == n {
					if v, ok := get(p); ok {
						return v, true
					}
				}
			} else {
				break
			}
		}
		// latest debug reference in a strictly dominating block
		if b == head {
			continue
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if d, ok := b.Instrs[i].(*ssa.DebugRef); ok && d.Object() != nil && d.Object().Name() == n {
				if _, isV := d.Object().(*types.Var); !isV {
					continue
				}
				if v, ok := x.dbg(st, env, d); ok {
					return v, true
				}
			}
		}
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == n {
				if p, ok := env[a]; ok {
					t := a.Type().(*types.Pointer).Elem()
					return TV{x.load(st, p, t), t}, true
				}
			}
		}
	}
	for _, p := range f.fn.Params {
		if p.Name() == n {
			if v, ok := get(p); ok {
				return v, true
			}
		}
	}
	// positional names given in the contract
	if f.specVars != nil {
		if v, ok := f.specVars[n]; ok {
			return v, true
		}
	}
	for _, p := range f.fn.FreeVars {
		if p.Name() == n {
			if a, ok := env[p]; ok {
				pt, isP := p.Type().Underlying().(*types.Pointer)
				if isP {
					return TV{x.load(st, a, pt.Elem()), pt.Elem()}, true
				}
				return TV{a, p.Type()}, true
			}
		}
	}
	// any debug reference whose value is available
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && d.Object() != nil && d.Object().Name() == n {
				if head != nil && !b.Dominates(head) {
					continue
				}
				if v, ok := x.dbg(st, env, d); ok {
					return v, true
				}
			}
		}
	}
	return TV{}, false
}

func (x *Exec) dbg(st *State, env map[ssa.Value]Val, d *ssa.DebugRef) (TV, bool) {
	var r Val
	if !d.IsAddr && d.Object() != nil {
		// a variable kept in memory: its current value, not the one read at that point
		for _, b := range d.Parent().Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && al.Comment == d.Object().Name() && al.Pos() == d.Object().Pos() {
					if p, ok := env[al]; ok {
						t := al.Type().(*types.Pointer).Elem()
						return TV{x.load(st, p, t), t}, true
					}
				}
			}
		}
	}
	switch v := d.X.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		r = x.val(st, v)
	default:
		var ok bool
		if r, ok = env[d.X]; !ok {
			return TV{}, false
		}
	}
	if d.IsAddr {
		pt, ok := d.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return TV{}, false
		}
		return TV{x.load(st, r, pt.Elem()), pt.Elem()}, true
	}
	return TV{r, d.X.Type()}, true
}

// ---------------------------------------------------------------------------
// Loops

func (x *Exec) loopSpec(fr *Frame, ord int) *LoopSpec {
	if fr.contract == nil {
		return nil
	}
	return fr.contract.Loops[ord]
}

func loopPhis(l *Loop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

// loopOrdinal numbers the loops met under a contract.
func (x *Exec) loopOrdinal(fr *Frame, l *Loop) int {
	if fr.contract == nil || x.inspec > 0 {
		return -1
	}
	k := fr.path + fmt.Sprintf("#%d", l.head.Index)
	n, ok := x.loopOrd[k]
	if !ok {
		n = x.loopN[fr.root]
		x.loopN[fr.root]++
		x.loopOrd[k] = n
	}
	return n
}

// handleLoop runs the loop from one state at its header (phis already bound); it returns the
// states that leave the loop.
func (x *Exec) handleLoop(fr *Frame, l *Loop, st *State) pend {
	x.depth++
	defer func() { x.depth-- }()
	// ordinal of the loop among the loops met so far under this contract
	ord := x.loopOrdinal(fr, l)
	var spec *LoopSpec
	if ord >= 0 {
		spec = x.loopSpec(fr, ord)
	}
	var invs []*Clause
	if spec != nil {
		for _, c := range spec.Inv {
			if c.active(x.prop) {
				invs = append(invs, c)
			}
		}
	}
	if spec == nil || len(invs) == 0 {
		if out, ok := x.tryUnroll(fr, l, st); ok {
			return out
		}
	}
	if x.inspec > 0 {
		for _, v := range st.env {
			if t, ok := v.(*Term); ok && t.hasB {
				x.unsupported("specification runs a loop under a quantifier in %s", fr.fn)
			}
		}
	}
	phis := loopPhis(l)
	entry := st.clone()
	lc := &loopCtx{entry: entry}
	if ord >= 0 && fr.root == "top" {
		x.loopIn[ord] = entry
	}
	entryVals := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entryVals[p] = st.env[p]
	}
	counter, down := x.counterPhi(l, phis, entryVals)
	iterRange := x.iterOf(l)
	mkCtx := func(s *State) *Ctx {
		c := &Ctx{x: x, st: s, old: x.entry, fr: fr, head: l.head, pkg: "", vars: map[string]TV{}}
		if fr.contract != nil {
			c.pkg = fr.contract.Pkg
		}
		n := *lc
		if counter != nil {
			if v, ok := s.env[counter].(*Term); ok {
				n.iter = Sub(v, entryVals[counter].(*Term))
				if down {
					n.iter = Sub(entryVals[counter].(*Term), v)
				}
			}
		}
		if iterRange != nil {
			n.seen = x.get(s, x.iterKey(iterRange))
		}
		c.loop = &n
		return c
	}
	// entry check
	for _, c := range invs {
		ctx := mkCtx(st)
		ctx.pos = c.Pos
		for _, g := range ctx.goals(c.E) {
			x.obligation(fr, "invariant", fmt.Sprintf("loop %d invariant on entry%s", ord, label(c)), l.head.Instrs[0].Pos(), g.st, g.t)
		}
	}
	// discover what the loop changes
	modKeys, modPhis, targets := x.discover(fr, l, entry, phis)
	// havoc
	b := x.bumpBase(st)
	for _, p := range phis {
		if !modPhis[p] {
			continue
		}
		st.env[p] = x.havocVal(st, p.Name()+"."+p.Comment, entryVals[p], p.Type(), b)
	}
	frontier := Add(entry.base.t, Int(entry.nalloc*refStep))
	old := frontier // the cells below it are framed
	if spec != nil && spec.Own && x.entry != nil {
		old = Add(x.entry.base.t, Int(x.entry.nalloc*refStep))
	}
	type framed struct {
		key    string
		before *Term
		after  *Term
		except []*Term
	}
	var frames []framed
	var loopPlaces []place
	if spec != nil && len(spec.Mod) > 0 {
		ctx := mkCtx(entry)
		for _, m := range spec.Mod {
			loopPlaces = append(loopPlaces, ctx.places(m)...)
		}
	}
	for _, k := range modKeys {
		h := x.get(entry, k)
		tg := targets[k]
		if h.S.Kind != SArray || strings.HasPrefix(k, "IT|") {
			n := x.newHeapConst(k, "L", b)
			st.heap[k] = n
			if x.keys[k].typ != nil {
				for _, f := range typeFacts(n, x.keys[k].typ, b) {
					st.assume(f)
				}
			}
			continue
		}
		if tg.known && len(tg.variant) == 0 {
			nh := h
			for _, r := range tg.fixed {
				nh = Store(nh, r, x.freshCell(st, k, b))
			}
			// objects allocated inside the loop live above the entry frontier; their cells are unconstrained
			st.heap[k] = nh
			continue
		}
		// unknown targets: everything older than the loop and not listed keeps its value
		nh := x.newHeapConst(k, "L", b)
		var ex []*Term
		whole := false
		for _, p := range loopPlaces {
			if p.key == k && p.rng == nil {
				if p.ref == nil {
					whole = true
				} else {
					ex = append(ex, p.ref)
				}
			}
		}
		if !whole {
			ex = append(ex, tg.fixed...)
			// slices that grow inside the loop: the backing arrays they had on entry
			ex = append(ex, tg.entryRefs...)
			frames = append(frames, framed{k, h, nh, ex})
		}
		st.heap[k] = nh
	}
	frameFact := func(f framed, h *Term) *Term {
		r := BVar("r!f", IntS)
		var ne []*Term
		for _, e := range f.except {
			ne = append(ne, Not(Eq(r, e)))
		}
		ne = append(ne, mkTerm("<=", "", BoolS, Add(r, Int(1)), old))
		return Forall([]*Term{r}, Implies(And(ne...), Eq(mkTerm("select", "", h.S.Elem, h, r), Select(f.before, r))), mkTerm("select", "", h.S.Elem, h, r))
	}
	for _, f := range frames {
		st.assume(frameFact(f, f.after))
	}
	// assume invariants
	for _, c := range invs {
		ctx := mkCtx(st)
		st.assume(ctx.evalBool(c))
	}
	// automatic invariants about counters and growing slices
	cands := x.candidates(l, phis, modPhis, entryVals, entry, st, frontier, fr, modKeys, targets)
	cands = x.houdiniFilter(fr, l, st, entry, cands)
	for _, c := range cands {
		st.assume(c.f(st))
	}
	// run the body
	hd := st.clone()
	back, out := x.runRegion(fr, l.head, l.blocks, []*State{st})
	if len(back) > 0 {
		bs := back
		if !x.split {
			bs = []*State{merge(x, back)}
		}
		for _, m := range bs {
			for _, c := range invs {
				ctx := mkCtx(m)
				ctx.pos = c.Pos
				for _, g := range ctx.goals(c.E) {
					x.obligation(fr, "invariant", fmt.Sprintf("loop %d invariant preserved%s", ord, label(c)), l.head.Instrs[0].Pos(), g.st, g.t)
				}
			}
			for _, c := range cands {
				x.obligation(fr, "invariant", fmt.Sprintf("loop %d automatic invariant %s", ord, c.name), l.head.Instrs[0].Pos(), m, c.f(m))
			}
			for _, f := range frames {
				// only the cells the loop wrote need attention
				r := Fresh("r.frame", IntS)
				if entry.nalloc > 0 {
					olderThan[r] = hd.base
				} else {
					olderThan[r] = entry.base
				}
				s := m.clone()
				s.assume(mkTerm("<=", "", BoolS, Add(r, Int(1)), old))
				for _, e := range f.except {
					s.assume(Not(Eq(r, e)))
				}
				x.obligation(fr, "frame", fmt.Sprintf("loop %d frame %s", ord, f.key), l.head.Instrs[0].Pos(), s, Eq(Select(x.get(s, f.key), r), Select(f.before, r)))
			}
			for _, k := range sortedKeys(m.heap) {
				if x.get(hd, k) != x.get(m, k) && !inList(modKeys, k) {
					x.unsupported("loop %d in %s changes %s, which was not discovered", ord, fr.fn, k)
				}
			}
		}
	}
	return out
}

func inList(l []string, k string) bool {
	for _, s := range l {
		if s == k {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (x *Exec) havocVal(st *State, name string, old Val, t types.Type, b *refBase) Val {
	switch o := old.(type) {
	case *Term:
		v := Fresh("phi."+name, o.S)
		for _, f := range typeFacts(v, t, b) {
			st.assume(f)
		}
		return v
	case *Addr:
		x.unsupported("loop-carried pointer %s", name)
	}
	x.unsupported("loop-carried value %s (%T)", name, old)
	return nil
}

// counterPhi: an integer phi increased by one per iteration, or decreased (true).
func (x *Exec) counterPhi(l *Loop, phis []*ssa.Phi, entry map[*ssa.Phi]Val) (*ssa.Phi, bool) {
	if p := x.stepPhi(l, phis, entry, token.ADD); p != nil {
		return p, false
	}
	return x.stepPhi(l, phis, entry, token.SUB), true
}

func (x *Exec) stepPhi(l *Loop, phis []*ssa.Phi, entry map[*ssa.Phi]Val, op token.Token) *ssa.Phi {
	for _, p := range phis {
		if !isInteger(p.Type()) {
			continue
		}
		if _, ok := entry[p].(*Term); !ok {
			continue
		}
		ok := false
		for i, e := range p.Edges {
			if !l.blocks[l.head.Preds[i]] {
				continue
			}
			b, is := e.(*ssa.BinOp)
			ok = false
			if is && b.Op == op && b.X == p {
				if c, is := b.Y.(*ssa.Const); is && c.Int64() == 1 {
					ok = true
				}
			}
			if !ok {
				break
			}
		}
		if ok {
			return p
		}
	}
	return nil
}

func (x *Exec) iterOf(l *Loop) *ssa.Range {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && b == l.head {
				if r, ok := n.Iter.(*ssa.Range); ok {
					return r
				}
			}
		}
	}
	return nil
}

type targetInfo struct {
	known     bool
	fixed     []*Term
	variant   []*Term
	entryRefs []*Term
}

// discover finds phis and heap keys that change, by running the body on arbitrary values.
func (x *Exec) discover(fr *Frame, l *Loop, entry *State, phis []*ssa.Phi) ([]string, map[*ssa.Phi]bool, map[string]*targetInfo) {
	x.dry++
	split := x.split
	x.split = false
	nh := x.noHoudini
	x.noHoudini = true
	defer func() {
		x.dry--
		x.split = split
		x.noHoudini = nh
	}()
	mod := map[string]bool{}
	modPhi := map[*ssa.Phi]bool{}
	var info map[string]*targetInfo
	for round := 0; round < 8; round++ {
		st := entry.clone()
		b := x.bumpBase(st)
		hc := map[string]*Term{}
		mark := termCount
		for _, p := range phis {
			if modPhi[p] {
				st.env[p] = x.havocVal(st, "d", entry.env[p], p.Type(), b)
			}
		}
		for _, k := range sortedKeys(mod) {
			// keep cells of known targets separate from the rest
			c := x.newHeapConst(k, "D", b)
			hc[k] = c
			if ti := info[k]; ti != nil && ti.known && len(ti.variant) == 0 && c.S.Kind == SArray && !strings.HasPrefix(k, "IT|") {
				nh := x.get(entry, k)
				for _, r := range ti.fixed {
					nh = Store(nh, r, x.freshCell(st, k, b))
				}
				hc[k] = nh
			}
			st.heap[k] = hc[k]
		}
		start := st.clone()
		back, _ := x.runRegion(fr, l.head, l.blocks, []*State{st})
		changed := false
		newInfo := map[string]*targetInfo{}
		for _, s := range back {
			for _, p := range phis {
				if !modPhi[p] && !sameVal(s.env[p], start.env[p]) {
					modPhi[p] = true
					changed = true
				}
			}
			keys := map[string]bool{}
			for k := range s.heap {
				keys[k] = true
			}
			if s.ep != start.ep {
				// unknown code ran: every key may change
				for k := range x.keys {
					keys[k] = true
				}
			}
			for _, k := range sortedKeys(keys) {
				h0, h1 := x.get(start, k), x.get(s, k)
				if h0 == h1 {
					continue
				}
				if !mod[k] {
					mod[k] = true
					changed = true
				}
				ti := newInfo[k]
				if ti == nil {
					ti = &targetInfo{known: true}
					newInfo[k] = ti
				}
				x.collectTargets(h1, h0, ti, b, mark)
			}
		}
		for k := range mod {
			if newInfo[k] == nil {
				newInfo[k] = info[k]
				if newInfo[k] == nil {
					newInfo[k] = &targetInfo{known: true}
				}
			}
			if o := info[k]; o != nil {
				// targets only accumulate
				n := newInfo[k]
				for _, r := range o.fixed {
					n.addFixed(r)
				}
				if !o.known {
					n.known = false
				}
				n.variant = append(n.variant, o.variant...)
				if len(n.fixed) != len(o.fixed) || n.known != o.known || len(n.variant) > 0 != (len(o.variant) > 0) {
					changed = true
				}
			} else {
				changed = true
			}
		}
		info = newInfo
		if !changed {
			break
		}
	}
	// entry backing arrays of slices that the loop may append to in place
	for k, ti := range info {
		if !strings.HasPrefix(k, "S|") {
			continue
		}
		for _, p := range phis {
			if modPhi[p] {
				if v, ok := entry.env[p].(*Term); ok && v.S == SliceS {
					ti.entryRefs = append(ti.entryRefs, Sel(v, 0))
				}
			}
		}
		for fk, fi := range info {
			ki := x.keys[fk]
			if ki.kind == 'F' && ki.sort.Elem == SliceS && x.sliceKey(ki.typ.Underlying().(*types.Slice).Elem()) == k {
				for _, r := range fi.fixed {
					ti.entryRefs = append(ti.entryRefs, Sel(Select(x.get(entry, fk), r), 0))
				}
			}
			if ki.kind == 'C' && ki.sort.Elem == SliceS && x.sliceKey(ki.typ.Underlying().(*types.Slice).Elem()) == k {
				for _, r := range fi.fixed {
					ti.entryRefs = append(ti.entryRefs, Sel(Select(x.get(entry, fk), r), 0))
				}
			}
		}
	}
	return sortedKeys(mod), modPhi, info
}

func (ti *targetInfo) addFixed(r *Term) {
	for _, f := range ti.fixed {
		if f == r {
			return
		}
	}
	ti.fixed = append(ti.fixed, r)
}

func sameVal(a, b Val) bool {
	if t, ok := a.(*Term); ok {
		return t == b
	}
	return fmt.Sprint(a) == fmt.Sprint(b)
}

// collectTargets: the references stored to between h0 and h.
func (x *Exec) collectTargets(h, h0 *Term, ti *targetInfo, b *refBase, mark int) {
	seen := map[*Term]bool{}
	// A store to a cell the heap had already stored to replaces that store: the chains then
	// join below h0, and differ from there on in the cells both sides store.
	below := map[*Term]int{}
	var above []*Term
	for g := h0; g.Op == "store"; {
		above = append(above, g.Args[1])
		g = g.Args[0]
		below[g] = len(above)
	}
	joined := 0
	var walk func(h *Term)
	walk = func(h *Term) {
		if h == h0 || seen[h] {
			return
		}
		seen[h] = true
		if n, ok := below[h]; ok {
			for ; joined < n; joined++ {
				x.classify(above[joined], ti, b, mark)
			}
			return
		}
		switch h.Op {
		case "store":
			x.classify(h.Args[1], ti, b, mark)
			walk(h.Args[0])
		case "ite":
			walk(h.Args[1])
			walk(h.Args[2])
		default:
			if hv, ok := x.havocs[h]; ok {
				for _, t := range hv.targets {
					x.classify(t, ti, b, mark)
				}
				if !hv.known {
					ti.known = false
				}
				walk(hv.prev)
				return
			}
			ti.known = false
		}
	}
	walk(h)
}

func (x *Exec) classify(r *Term, ti *targetInfo, b *refBase, mark int) {
	if rb, _, ok := splitRef(r); ok && rb.after(b) {
		return // allocated inside the loop
	}
	if r.Op == "+" && len(r.Args) == 2 { // sub-object or later allocation
		for i, a := range r.Args {
			if _, ok := a.isInt(); ok {
				if rb, _, ok := splitRef(r.Args[1-i]); ok && rb.after(b) {
					return
				}
			}
		}
	}
	if r.Op == "ite" && x.invariantTerm(r, mark) {
		ti.addFixed(r)
		return
	}
	if r.Op == "ite" {
		x.classify(r.Args[1], ti, b, mark)
		x.classify(r.Args[2], ti, b, mark)
		return
	}
	if x.invariantTerm(r, mark) {
		ti.addFixed(r)
		return
	}
	ti.variant = append(ti.variant, r)
}

// invariantTerm: r mentions nothing created since mark.
func (x *Exec) invariantTerm(r *Term, mark int) bool {
	ok := true
	collect(r, map[*Term]bool{}, func(t *Term) {
		if (t.Op == "var" || t.Op == "app" && len(t.Args) == 0) && t.id > mark {
			ok = false
		}
	})
	return ok
}

// ---------------------------------------------------------------------------
// Unrolling of loops with concrete control

func (x *Exec) tryUnroll(fr *Frame, l *Loop, st0 *State) (res pend, ok bool) {
	if iterR := x.iterOf(l); iterR != nil {
		return nil, false
	}
	st := st0.clone()
	nob := len(x.obls)
	out := pend{}
	sts := []*State{st}
	for iter := 0; iter < 40; iter++ {
		// the header must decide concretely
		for _, s := range sts {
			if !x.headerConcrete(fr, l, s) {
				x.obls = x.obls[:nob]
				return nil, false
			}
		}
		back, o := x.runRegion(fr, l.head, l.blocks, sts)
		for k, v := range o {
			out[k] = append(out[k], v...)
		}
		if len(back) == 0 {
			return out, true
		}
		if !x.split {
			back = []*State{merge(x, back)}
		}
		sts = back
	}
	x.obls = x.obls[:nob]
	return nil, false
}

// headerConcrete evaluates the header's condition if it consists of simple instructions.
func (x *Exec) headerConcrete(fr *Frame, l *Loop, s *State) bool {
	t := s.clone()
	for _, in := range l.head.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			t.env[i] = x.binop(fr, t, i.Op, x.term(t, i.X), x.term(t, i.Y), i.X.Type(), i.Y.Type(), i.Pos())
		case *ssa.If:
			c := x.term(t, i.Cond)
			return c == True || c == False
		case *ssa.Call:
			b, ok := i.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			es := x.builtin(fr, t, b, &i.Call, []Val{x.val(t, i.Call.Args[0])}, 0)
			t.env[i] = es[0].res[0]
		case *ssa.UnOp:
			if i.Op != token.MUL {
				return false
			}
			sf := x.safe
			x.safe = false
			t.env[i] = x.unop(fr, t, i)
			x.safe = sf
		case *ssa.FieldAddr:
			t.env[i] = x.fieldPtr(x.ptr(t, i.X), i.X.Type().Underlying().(*types.Pointer).Elem(), i.Field)
		default:
			return false
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Automatic invariants

type cand struct {
	name string
	f    func(s *State) *Term
}

func (x *Exec) candidates(l *Loop, phis []*ssa.Phi, mod map[*ssa.Phi]bool, entryVals map[*ssa.Phi]Val, entry, st *State, frontier *Term, fr *Frame, keys []string, targets map[string]*targetInfo) []cand {
	var out []cand
	for _, p := range phis {
		p := p
		if !mod[p] {
			continue
		}
		e, ok := entryVals[p].(*Term)
		if !ok {
			continue
		}
		cur := func(s *State) *Term { return s.env[p].(*Term) }
		if isInteger(p.Type()) {
			out = append(out, cand{p.Comment + " >= entry", func(s *State) *Term { return Le(e, cur(s)) }})
			out = append(out, cand{p.Comment + " <= entry", func(s *State) *Term { return Le(cur(s), e) }})
			// bounds from comparisons with loop-invariant terms
			for b := range l.blocks {
				for _, in := range b.Instrs {
					bo, ok := in.(*ssa.BinOp)
					if !ok {
						continue
					}
					switch bo.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
					default:
						continue
					}
					a, y := bo.X, bo.Y
					if !isInteger(a.Type()) {
						continue
					}
					if y == ssa.Value(p) {
						a, y = y, a
					}
					if !dependsOn(a, p) {
						continue
					}
					var yv *Term
					if c, ok := y.(*ssa.Const); ok {
						yv = constTerm(c.Value, c.Type())
					} else if v, ok := entry.env[y]; ok {
						if in, isIn := y.(ssa.Instruction); !isIn || !l.blocks[in.Block()] {
							yv, _ = v.(*Term)
						}
					}
					if yv == nil {
						continue
					}
					for _, d := range []int64{0, -1, 1} {
						d := d
						out = append(out, cand{fmt.Sprintf("%s <= bound%+d", p.Comment, d), func(s *State) *Term { return Le(cur(s), Add(yv, Int(d))) }})
					}
				}
			}
		}
		if e.S == SliceS {
			ref0 := Sel(e, 0)
			out = append(out, cand{p.Comment + " backing array kept or fresh", func(s *State) *Term {
				r := Sel(cur(s), 0)
				return Or(And(Eq(r, ref0), Eq(Sel(cur(s), 1), Sel(e, 1)), Le(Sel(e, 2), Sel(cur(s), 2)), Eq(Sel(e, 3), Sel(cur(s), 3))), Le(frontier, r))
			}})
			out = append(out, cand{p.Comment + " starts at 0 or entry", func(s *State) *Term {
				return Or(Eq(Sel(cur(s), 1), Int(0)), Eq(Sel(cur(s), 1), Sel(e, 1)))
			}})
			out = append(out, x.grows(p.Comment, e, p.Type().Underlying().(*types.Slice).Elem(), keys, entry)...)
		}
	}
	// slice-valued heap cells the loop changes
	for _, k := range keys {
		k := k
		ki := x.keys[k]
		if (ki.kind == 'F' || ki.kind == 'C' || ki.kind == 'G' && ki.typ != nil) && ki.sort.Elem == SliceS && targets[k] != nil {
			for _, r := range targets[k].fixed {
				r := r
				e := Select(x.get(entry, k), r)
				out = append(out, cand{k + " backing array kept or fresh", func(s *State) *Term {
					c := Select(x.get(s, k), r)
					return Or(And(Eq(Sel(c, 0), Sel(e, 0)), Eq(Sel(c, 1), Sel(e, 1)), Le(Sel(e, 2), Sel(c, 2)), Eq(Sel(e, 3), Sel(c, 3))), Le(frontier, Sel(c, 0)))
				}})
				out = append(out, x.grows(k, e, ki.typ.Underlying().(*types.Slice).Elem(), keys, entry)...)
			}
		}
	}
	return out
}

// grows: a slice that the loop appends to keeps, in its first backing array, what lies outside
// the space between its length and capacity.
func (x *Exec) grows(name string, e *Term, et types.Type, keys []string, entry *State) []cand {
	k := x.sliceKey(et)
	if !inList(keys, k) {
		return nil
	}
	lo, hi := Add(Sel(e, 1), Sel(e, 2)), Add(Sel(e, 1), Sel(e, 3))
	ref := Sel(e, 0)
	a0 := Select(x.get(entry, k), ref)
	return []cand{{name + " keeps its elements", func(s *State) *Term {
		a := Select(x.get(s, k), ref)
		if a == a0 {
			return True
		}
		i := BVar("i!g", IntS)
		p := mkTerm("select", "", a.S.Elem, a, i)
		return Forall([]*Term{i}, Implies(Or(Lt(i, lo), Le(hi, i)), Eq(p, Select(a0, i))), p)
	}}}
}

func dependsOn(v ssa.Value, p *ssa.Phi) bool {
	if v == ssa.Value(p) {
		return true
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		return b.X == ssa.Value(p) || b.Y == ssa.Value(p)
	}
	return false
}

// houdiniFilter keeps the candidates that are inductive.
func (x *Exec) houdiniFilter(fr *Frame, l *Loop, st, entry *State, cs []cand) []cand {
	if len(cs) == 0 || x.inspec > 0 || x.noHoudini {
		return nil
	}
	var live []cand
	for _, c := range cs {
		g := c.f(entry)
		if g == True || x.solver.quick(x, append(entry.hyps(), conjuncts(entry.pc)...), g) {
			live = append(live, c)
		}
	}
	sf := x.safe
	x.safe = false
	defer func() { x.safe = sf }()
	for round := 0; round < 6 && len(live) > 0; round++ {
		s := st.clone()
		for _, c := range live {
			s.assume(c.f(s))
		}
		x.dry++
		sp := x.split
		x.split = false
		back, _ := x.runRegion(fr, l.head, l.blocks, []*State{s})
		x.split = sp
		x.dry--
		if len(back) == 0 {
			break
		}
		m := merge(x, back)
		var keep []cand
		for _, c := range live {
			g := c.f(m)
			if g == True || x.solver.quick(x, append(m.hyps(), conjuncts(m.pc)...), g) {
				keep = append(keep, c)
			}
		}
		if len(keep) == len(live) {
			break
		}
		live = keep
	}
	return live
}
