package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *Addr, []Val (tuple), *Iter.
type Val interface{}

// Addr is a pointer that is not represented as a plain reference: the address of a
// scalar field, of a cell, of a slice element or of a part of one, or of a global.
type Addr struct {
	key  string
	ref  *Term // nil for globals
	idx  *Term // second level (slice elements)
	path []int // struct fields inside the stored value
	typ  types.Type
}

type Iter struct {
	kind string // map, string
	m    *Term
	mt   *types.Map
	dom  *Term
	val  *Term
	seen *Term
	str  *Term
	id   int
	src  *ssa.Range
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type keyInfo struct {
	key   string
	sort  *Sort
	typ   types.Type // type of the stored element (F, C, V) or slice element (S)
	kind  byte
	isRef bool
}

type factNode struct {
	up    *factNode
	t     *Term
	depth int
}

type Epoch struct {
	id      int
	base    *refBase
	parents []*Epoch
	conds   []*Term
	memo    map[string]*Term
}

type State struct {
	pc     *Term
	facts  *factNode
	heap   map[string]*Term
	env    map[ssa.Value]Val
	ep     *Epoch
	base   *refBase
	nalloc int64
	defers []deferred
	trace  []string
	wit    []witKey // objects met on the way: candidates for existential goals
}

type deferred struct {
	cond *Term // nil: always
	call *ssa.Defer
	fn   Val
	args []Val
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.env = make(map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return &n
}

func (s *State) assume(f *Term) {
	if f == True {
		return
	}
	if f.Op == "and" {
		for _, a := range f.Args {
			s.assume(a)
		}
		return
	}
	d := 1
	if s.facts != nil {
		d = s.facts.depth + 1
	}
	s.facts = &factNode{s.facts, f, d}
}

// addCond strengthens the path condition.
func (s *State) addCond(c *Term) { s.pc = And(s.pc, c) }

func (s *State) hyps() []*Term {
	var out []*Term
	for n := s.facts; n != nil; n = n.up {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// known reduces a condition to true or false where the hypotheses on the path settle it literally.
func (s *State) known(cond *Term) *Term {
	facts := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "and" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		facts[t] = true
	}
	add(s.pc)
	for n := s.facts; n != nil; n = n.up {
		add(n.t)
	}
	var eval func(t *Term) *Term
	eval = func(t *Term) *Term {
		if facts[t] {
			return True
		}
		switch t.Op {
		case "not":
			if v := eval(t.Args[0]); v == True || v == False {
				return Not(v)
			}
			return t
		case "and", "or":
			stop, all := False, True
			if t.Op == "or" {
				stop, all = True, False
			}
			n := 0
			for _, a := range t.Args {
				v := eval(a)
				if v == stop {
					return stop
				}
				if v == all {
					n++
				}
			}
			if n == len(t.Args) {
				return all
			}
		}
		if facts[Not(t)] {
			return False
		}
		return t
	}
	return eval(cond)
}

func conjuncts(t *Term) []*Term {
	if t == True {
		return nil
	}
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

// ---------------------------------------------------------------------------

func (x *Exec) keyFor(kind byte, key string, s *Sort, t types.Type, isRef bool) string {
	if _, ok := x.keys[key]; !ok {
		x.keys[key] = &keyInfo{key, s, t, kind, isRef}
	}
	return key
}

func (x *Exec) fieldKey(st types.Type, i int) string {
	u := st.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	k := "F|" + shortType(types.Unalias(st)) + "|" + u.Field(i).Name()
	return x.keyFor('F', k, ArrayS(IntS, sortOf(ft)), ft, isRefType(ft))
}

// heapType names a type by its canonical spelling: slices of byte and of uint8 share a heap.
func heapType(t types.Type) string {
	k := shortType(types.Unalias(t))
	k = uint8Name.ReplaceAllString(k, "${1}byte")
	return runeName.ReplaceAllString(k, "${1}int32")
}

func (x *Exec) sliceKey(elem types.Type) string {
	k := "S|" + heapType(elem)
	return x.keyFor('S', k, ArrayS(IntS, ArrayS(IntS, sortOf(elem))), elem, isRefType(elem))
}

func (x *Exec) cellKey(t types.Type) string {
	k := "C|" + heapType(t)
	return x.keyFor('C', k, ArrayS(IntS, sortOf(t)), t, isRefType(t))
}

func (x *Exec) globalKey(g *ssa.Global) string {
	t := g.Type().(*types.Pointer).Elem()
	k := "V|" + strings.TrimPrefix(g.String(), modulePath+"/")
	return x.keyFor('V', k, sortOf(t), t, isRefType(t))
}

func mapName(mt *types.Map) string {
	return shortType(types.Unalias(mt.Key())) + "|" + shortType(types.Unalias(mt.Elem()))
}

func (x *Exec) mapKeys(mt *types.Map) (dom, val string) {
	n := mapName(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	dom = x.keyFor('D', "MD|"+n, ArrayS(IntS, ArrayS(ks, BoolS)), nil, false)
	val = x.keyFor('M', "MV|"+n, ArrayS(IntS, ArrayS(ks, vs)), mt.Elem(), isRefType(mt.Elem()))
	return
}

func (x *Exec) mapLenKey(mt *types.Map) string {
	return x.keyFor('L', "ML|"+mapName(mt), ArrayS(IntS, IntS), nil, false)
}

func (x *Exec) ghostKey(typ, field string, s *Sort) string {
	k := "G|" + typ + "|" + field
	if _, ok := x.keys[k]; !ok {
		for _, g := range x.ghosts {
			if g.Type == typ && g.Field == field {
				if _, t := x.specType(g.Sort, g.Pkg); t != nil {
					return x.keyFor('G', k, ArrayS(IntS, s), t, isRefType(t))
				}
			}
		}
	}
	return x.keyFor('G', k, ArrayS(IntS, s), nil, false)
}

func (x *Exec) newHeapConst(key string, name string, b *refBase) *Term {
	ki := x.keys[key]
	c := Fresh(name+"."+key, ki.sort)
	if ki.sort.Kind == SArray {
		arrayBirth[c] = b
		if ki.isRef {
			arrayIsRef[c] = true
		}
	} else if ki.isRef {
		olderThan[c] = b
	} else if c.S == SliceS {
		olderThan[Sel(c, 0)] = b
	}
	return c
}

func (x *Exec) epochGet(e *Epoch, key string) *Term {
	if t, ok := e.memo[key]; ok {
		return t
	}
	var t *Term
	if len(e.parents) == 0 {
		t = x.newHeapConst(key, fmt.Sprintf("H%d", e.id), e.base)
	} else {
		t = x.epochGet(e.parents[len(e.parents)-1], key)
		for i := len(e.parents) - 2; i >= 0; i-- {
			t = Ite(e.conds[i], x.epochGet(e.parents[i], key), t)
		}
	}
	e.memo[key] = t
	return t
}

func (x *Exec) newEpoch(b *refBase) *Epoch {
	x.epochN++
	return &Epoch{id: x.epochN, base: b, memo: map[string]*Term{}}
}

func (x *Exec) get(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if x.keys[key] == nil {
		panic("unknown heap key " + key)
	}
	return x.epochGet(st.ep, key)
}

func (x *Exec) set(st *State, key string, t *Term) { st.heap[key] = t }

// alloc returns a fresh reference.
func (x *Exec) alloc(st *State) *Term {
	r := Add(st.base.t, Int(st.nalloc*refStep))
	st.nalloc++
	return r
}

// bumpBase starts a new allocation frontier.
func (x *Exec) bumpBase(st *State) *refBase {
	b := newRefBase(st.base)
	st.assume(mkTerm("<=", "", BoolS, Add(st.base.t, Int(st.nalloc*refStep)), b.t))
	st.base = b
	st.nalloc = 0
	return b
}

func (x *Exec) fieldId(t types.Type, i int) int64 {
	k := fmt.Sprintf("%s#%d", types.TypeString(types.Unalias(t), nil), i)
	if n, ok := x.fids[k]; ok {
		return n
	}
	n := int64(len(x.fids) + 1)
	x.fids[k] = n
	return n
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// fieldPtr: pointer to field i of the struct (type t) at p.
func (x *Exec) fieldPtr(p Val, t types.Type, i int) Val {
	u := t.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	switch a := p.(type) {
	case *Addr:
		n := *a
		n.path = append(append([]int(nil), a.path...), i)
		n.typ = ft
		return &n
	case *Term:
		if isAggregate(ft) {
			return Add(a, Int(x.fieldId(t, i)))
		}
		return &Addr{key: x.fieldKey(t, i), ref: a, typ: ft}
	}
	panic("fieldPtr")
}

// load reads a value of type t through pointer p.
func (x *Exec) load(st *State, p Val, t types.Type) *Term {
	switch a := p.(type) {
	case *Addr:
		v := x.get(st, a.key)
		if a.ref != nil {
			if k := x.constArr(a.ref); k != nil && a.idx != nil {
				v = k
			} else {
				v = Select(v, a.ref)
			}
		}
		if a.idx != nil {
			v = Select(v, a.idx)
		}
		for _, i := range a.path {
			if v.S.Kind == SArray {
				panic("array path")
			}
			v = Sel(v, i)
		}
		x.noteType(st, v, t)
		return v
	case *Term:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if isOpaque(t) {
				if x.hasGhosts(t) { // a copy does not carry the ghost state along
					return Fresh("copy", sortOf(t))
				}
				return Select(x.get(st, x.cellKey(t)), a)
			}
			args := make([]*Term, u.NumFields())
			for i := range args {
				ft := u.Field(i).Type()
				args[i] = x.load(st, x.fieldPtr(a, t, i), ft)
			}
			return Mk(sortOf(t), args...)
		case *types.Array:
			return Select(x.get(st, x.sliceKey(u.Elem())), a)
		}
		v := Select(x.get(st, x.cellKey(t)), a)
		x.noteType(st, v, t)
		return v
	}
	panic(fmt.Sprintf("load %T", p))
}

func withPath(v *Term, path []int, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	return WithField(v, path[0], withPath(Sel(v, path[0]), path[1:], nv))
}

func (x *Exec) store(st *State, p Val, t types.Type, v *Term) {
	switch a := p.(type) {
	case *Addr:
		h := x.get(st, a.key)
		if a.ref == nil {
			x.set(st, a.key, withPath(h, a.path, v))
			return
		}
		if a.idx == nil {
			cur := Select(h, a.ref)
			x.set(st, a.key, Store(h, a.ref, withPath(cur, a.path, v)))
			return
		}
		arr := Select(h, a.ref)
		nv := v
		if len(a.path) > 0 {
			nv = withPath(Select(arr, a.idx), a.path, v)
		}
		x.set(st, a.key, Store(h, a.ref, Store(arr, a.idx, nv)))
		return
	case *Term:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if isOpaque(t) {
				k := x.cellKey(t)
				x.set(st, k, Store(x.get(st, k), a, v))
				if v == zeroOf(t) {
					x.zeroGhosts(st, a, t)
				} else {
					x.havocGhosts(st, a, t)
				}
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				x.store(st, x.fieldPtr(a, t, i), u.Field(i).Type(), Sel(v, i))
			}
			return
		case *types.Array:
			k := x.sliceKey(u.Elem())
			x.set(st, k, Store(x.get(st, k), a, v))
			return
		}
		k := x.cellKey(t)
		x.set(st, k, Store(x.get(st, k), a, v))
		return
	}
	panic(fmt.Sprintf("store %T", p))
}

// zeroGhosts initialises ghost fields of a freshly zeroed opaque object.
func (x *Exec) zeroGhosts(st *State, ref *Term, t types.Type) {
	for _, g := range x.ghosts {
		if g.Type == shortType(types.Unalias(t)) && g.Zero != nil {
			s, gt := x.specType(g.Sort, g.Pkg)
			k := x.ghostKey(g.Type, g.Field, s)
			ctx := &Ctx{x: x, st: st, pkg: g.Pkg, vars: map[string]TV{}}
			x.set(st, k, Store(x.get(st, k), ref, ctx.coerceTo(ctx.eval(g.Zero), s, gt).tm(ctx)))
		}
	}
}

func (x *Exec) hasGhosts(t types.Type) bool {
	for _, g := range x.ghosts {
		if g.Type == shortType(types.Unalias(t)) {
			return true
		}
	}
	return false
}

// havocGhosts forgets the ghost fields of an opaque object that is overwritten with another value.
func (x *Exec) havocGhosts(st *State, ref *Term, t types.Type) {
	for _, g := range x.ghosts {
		if g.Type == shortType(types.Unalias(t)) {
			k := x.ghostKey(g.Type, g.Field, x.specSort(g.Sort, g.Pkg))
			h := x.get(st, k)
			x.set(st, k, Store(h, ref, Fresh("copied."+g.Field, h.S.Elem)))
		}
	}
}

// noteType records the facts every value of its type satisfies (once per term).
func (x *Exec) noteType(st *State, v *Term, t types.Type) {
	if x.noted[v] || v.hasB {
		return
	}
	switch v.Op {
	case "var", "select", "sel", "app":
	case "ite":
		x.noted[v] = true
		x.noteType(st, v.Args[1], t)
		x.noteType(st, v.Args[2], t)
		return
	case "mk":
		if u, ok := t.Underlying().(*types.Struct); ok && v.S.Kind == SData && !isOpaque(t) {
			for i := 0; i < u.NumFields(); i++ {
				x.noteType(st, v.Args[i], u.Field(i).Type())
			}
		}
		return
	default:
		return
	}
	x.noted[v] = true
	for _, f := range typeFacts(v, t, nil) {
		x.global = append(x.global, f)
	}
	x.noteAge(st, v, t)
}

// noteAge: references inside values read from an old heap are old.
func (x *Exec) noteAge(st *State, v *Term, t types.Type) {
	var ref *Term
	switch t.Underlying().(type) {
	case *types.Slice:
		ref = Sel(v, 0)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		ref = v
	default:
		return
	}
	if b, ok := olderThan[ref]; ok {
		x.global = append(x.global, mkTerm("<=", "", BoolS, Add(ref, Int(1)), b.t))
	}
	x.global = append(x.global, mkTerm("<=", "", BoolS, Int(-1<<40), ref))
}

// ---------------------------------------------------------------------------
// Merging

func merge(x *Exec, sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	// relative conditions
	count := map[*Term]int{}
	for _, s := range sts {
		for _, c := range conjuncts(s.pc) {
			count[c]++
		}
	}
	rel := make([]*Term, len(sts))
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		var r []*Term
		for _, c := range conjuncts(s.pc) {
			if count[c] < len(sts) {
				r = append(r, c)
			}
		}
		rel[i] = And(r...)
		pcs[i] = s.pc
	}
	n := &State{pc: Or(pcs...), heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	// facts: common ancestor
	anc := sts[0].facts
	for _, s := range sts[1:] {
		a, b := anc, s.facts
		for a != b {
			da, db := 0, 0
			if a != nil {
				da = a.depth
			}
			if b != nil {
				db = b.depth
			}
			if da > db {
				a = a.up
			} else if db > da {
				b = b.up
			} else {
				a, b = a.up, b.up
			}
		}
		anc = a
	}
	n.facts = anc
	for _, s := range sts {
		for _, w := range s.wit {
			dup := false
			for _, v := range n.wit {
				dup = dup || v == w
			}
			if !dup {
				n.wit = append(n.wit, w)
			}
		}
	}
	for i, s := range sts {
		var seg []*Term
		for f := s.facts; f != anc; f = f.up {
			seg = append(seg, f.t)
		}
		for j := len(seg) - 1; j >= 0; j-- {
			n.assume(Implies(rel[i], seg[j]))
		}
	}
	pick := func(vs []*Term) *Term {
		t := vs[len(vs)-1]
		for i := len(vs) - 2; i >= 0; i-- {
			t = Ite(rel[i], vs[i], t)
		}
		return t
	}
	// epochs
	same := true
	for _, s := range sts {
		if s.ep != sts[0].ep {
			same = false
		}
	}
	if same {
		n.ep = sts[0].ep
	} else {
		e := x.newEpoch(nil)
		for i, s := range sts {
			e.parents = append(e.parents, s.ep)
			e.conds = append(e.conds, rel[i])
		}
		n.ep = e
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		vs := make([]*Term, len(sts))
		for i, s := range sts {
			vs[i] = x.get(s, k)
		}
		n.heap[k] = x.pickHeap(rel, vs)
	}
	// env
	for v, a := range sts[0].env {
		vals := []Val{a}
		ok := true
		for _, s := range sts[1:] {
			b, has := s.env[v]
			if !has {
				ok = false
				break
			}
			vals = append(vals, b)
		}
		if !ok {
			continue
		}
		if m, ok := mergeVals(vals, pick); ok {
			n.env[v] = m
		}
	}
	// allocation frontier
	sameBase := true
	for _, s := range sts {
		if s.base != sts[0].base {
			sameBase = false
		}
	}
	if sameBase {
		n.base = sts[0].base
		for _, s := range sts {
			if s.nalloc > n.nalloc {
				n.nalloc = s.nalloc
			}
		}
	} else {
		var prev []*refBase
		for _, s := range sts {
			prev = append(prev, s.base)
		}
		b := newRefBase(prev...)
		for _, s := range sts { // a branch not taken leaves its frontier unconstrained
			n.assume(mkTerm("<=", "", BoolS, Add(s.base.t, Int(s.nalloc*refStep)), b.t))
		}
		n.base = b
	}
	// deferred calls: those of some branches only are guarded by the branch condition
	common := len(sts[0].defers)
	for _, s := range sts[1:] {
		k := 0
		for k < common && k < len(s.defers) && sameDefer(sts[0].defers[k], s.defers[k]) {
			k++
		}
		common = k
	}
	n.defers = append([]deferred(nil), sts[0].defers[:common]...)
	for i, s := range sts {
		for _, d := range s.defers[common:] {
			if d.cond == nil {
				d.cond = rel[i]
			} else {
				d.cond = And(rel[i], d.cond)
			}
			n.defers = append(n.defers, d)
		}
	}
	return n
}

func sameDefer(a, b deferred) bool {
	if a.call != b.call || a.cond != b.cond || len(a.args) != len(b.args) || !sameDeferVal(a.fn, b.fn) {
		return false
	}
	for i := range a.args {
		if !sameDeferVal(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func sameDeferVal(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	p, ok := a.(*Term)
	q, ok2 := b.(*Term)
	if ok || ok2 {
		return ok && ok2 && p == q
	}
	return reflect.DeepEqual(a, b)
}

// pickHeap merges heap arrays; stores common to all branches are kept outside the ite where cheap.
func (x *Exec) pickHeap(rel []*Term, vs []*Term) *Term {
	same := true
	for _, v := range vs {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	// single-cell difference over a common base: push ite into the stored value
	if vs[0].S.Kind == SArray {
		base, ok := commonStoreBase(vs)
		if ok {
			var idxs []*Term
			seen := map[*Term]bool{}
			for _, v := range vs {
				for t := v; t != base; t = t.Args[0] {
					if !seen[t.Args[1]] {
						seen[t.Args[1]] = true
						idxs = append(idxs, t.Args[1])
					}
				}
			}
			// only if the indices are pairwise syntactically distinguishable
			good := true
			for i := range idxs {
				for j := i + 1; j < len(idxs); j++ {
					if Eq(idxs[i], idxs[j]) != False {
						good = false
					}
				}
			}
			if good || len(idxs) == 1 {
				r := base
				for _, ix := range idxs {
					t := Select(vs[len(vs)-1], ix)
					for i := len(vs) - 2; i >= 0; i-- {
						t = Ite(rel[i], Select(vs[i], ix), t)
					}
					r = Store(r, ix, t)
				}
				return r
			}
		}
	}
	t := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		t = Ite(rel[i], vs[i], t)
	}
	return t
}

func commonStoreBase(vs []*Term) (*Term, bool) {
	chain := map[*Term]bool{}
	for t := vs[0]; ; t = t.Args[0] {
		chain[t] = true
		if t.Op != "store" {
			break
		}
	}
	base := (*Term)(nil)
	var depth = -1
	for _, v := range vs[1:] {
		t := v
		for !chain[t] {
			if t.Op != "store" {
				return nil, false
			}
			t = t.Args[0]
		}
		d := 0
		for u := t; u.Op == "store"; u = u.Args[0] {
			d++
		}
		if base == nil || d < depth {
			base, depth = t, d
		}
	}
	return base, true
}

func mergeVals(vals []Val, pick func([]*Term) *Term) (Val, bool) {
	switch a := vals[0].(type) {
	case *Term:
		ts := make([]*Term, len(vals))
		same := true
		for i, v := range vals {
			t, ok := v.(*Term)
			if !ok || t.S != a.S {
				return nil, false
			}
			ts[i] = t
			if t != a {
				same = false
			}
		}
		if same {
			return a, true
		}
		return pick(ts), true
	case []Val:
		out := make([]Val, len(a))
		for i := range a {
			var sub []Val
			for _, v := range vals {
				t, ok := v.([]Val)
				if !ok || len(t) != len(a) {
					return nil, false
				}
				sub = append(sub, t[i])
			}
			m, ok := mergeVals(sub, pick)
			if !ok {
				return nil, false
			}
			out[i] = m
		}
		return out, true
	case *Addr:
		n := *a
		mt := func(f func(*Addr) *Term) (*Term, bool) {
			var ts []*Term
			nils := 0
			for _, v := range vals {
				t := f(v.(*Addr))
				if t == nil {
					nils++
				}
				ts = append(ts, t)
			}
			if nils == len(vals) {
				return nil, true
			}
			if nils > 0 {
				return nil, false
			}
			return pick(ts), true
		}
		for _, v := range vals {
			b, ok := v.(*Addr)
			if !ok || b.key != a.key || fmt.Sprint(b.path) != fmt.Sprint(a.path) {
				return nil, false
			}
		}
		var ok bool
		if n.ref, ok = mt(func(a *Addr) *Term { return a.ref }); !ok {
			return nil, false
		}
		if n.idx, ok = mt(func(a *Addr) *Term { return a.idx }); !ok {
			return nil, false
		}
		return &n, true
	case *Iter:
		for _, v := range vals {
			if v != vals[0] {
				return nil, false
			}
		}
		return a, true
	}
	for _, v := range vals {
		if v != vals[0] {
			return nil, false
		}
	}
	return vals[0], true
}
