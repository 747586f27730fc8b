package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callExit struct {
	st  *State
	res []Val
}

func (x *Exec) one(st *State, res ...Val) []*exit { return []*exit{{st, res}} }

func (x *Exec) callCommon(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos, fnv Val, argv []Val, in *ssa.Call) []*exit {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if argv == nil {
			for _, a := range c.Args {
				argv = append(argv, x.val(st, a))
			}
		}
		return x.builtin(fr, st, b, c, argv, pos)
	}
	if argv == nil {
		for _, a := range c.Args {
			argv = append(argv, x.val(st, a))
		}
	}
	if c.IsInvoke() {
		var recv *Term
		if fnv != nil {
			recv = x.asTerm(st, fnv, c.Value.Type())
		} else {
			recv = x.term(st, c.Value)
		}
		return x.invoke(fr, st, recv, c.Value.Type(), c.Method, argv, pos)
	}
	if f := c.StaticCallee(); f != nil && fnv == nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cl := x.closure[x.term(st, mc)]
			binds = cl.binds
		}
		return x.callFn(fr, st, f, argv, binds, pos)
	}
	if fnv == nil {
		fnv = x.val(st, c.Value)
	}
	f := x.asTerm(st, fnv, c.Value.Type())
	return x.callValue(fr, st, f, c.Signature(), argv, pos)
}

func (x *Exec) tagName(t types.Type) string { return "" }

// invoke calls a method through an interface value.
func (x *Exec) invoke(fr *Frame, st *State, recv *Term, it types.Type, m *types.Func, args []Val, pos token.Pos) []*exit {
	tag := Sel(recv, 0)
	if tag.Op == "ite" {
		c := tag.Args[0]
		t := st.clone()
		t.addCond(c)
		st.addCond(Not(c))
		var out []*exit
		sub := map[*Term]*Term{c: True}
		if t.pc != False {
			out = append(out, x.invoke(fr, t, Subst(recv, sub), it, m, args, pos)...)
		}
		if st.pc != False {
			out = append(out, x.invoke(fr, st, Subst(recv, map[*Term]*Term{c: False}), it, m, args, pos)...)
		}
		return x.joinExits(out)
	}
	if n, ok := tag.isInt(); ok {
		if n == 0 {
			if x.safe {
				x.obligation(fr, "safe", "nil-interface-call", pos, st, False)
			}
			return nil
		}
		t := tagTypes[n]
		f := x.P.prog.LookupMethod(t, m.Pkg(), m.Name())
		if f == nil {
			x.unsupported("method %s of %s", m.Name(), t)
		}
		rv := Val(x.unboxTo(recv, t))
		return x.callFn(fr, st, f, append([]Val{rv}, args...), nil, pos)
	}
	x.check(fr, st, "nil-interface-call", pos, Not(Eq(tag, Int(0))))
	key := ifaceMethodKey(it, m)
	if c := x.usable(key); c != nil {
		return x.contractCall(fr, st, c, key, m.Type().(*types.Signature), it, append([]Val{recv}, args...), pos)
	}
	x.unknownCall(st, "interface method "+key)
	return x.one(st, x.freshResults(st, m.Type().(*types.Signature), key)...)
}

func ifaceMethodKey(it types.Type, m *types.Func) string {
	// the interface that declares the method
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		if n, ok := types.Unalias(r.Type()).(*types.Named); ok {
			return "(" + shortType(n) + ")." + m.Name()
		}
	}
	return "(" + shortType(types.Unalias(it)) + ")." + m.Name()
}

// joinExits merges the exits of alternative callees.
func (x *Exec) joinExits(es []*exit) []*exit {
	if len(es) <= 1 || x.split {
		return es
	}
	sts := make([]*State, len(es))
	for i, e := range es {
		sts[i] = e.st
	}
	n := len(es[0].res)
	// carry the results through the environment merge
	keys := make([]ssa.Value, n)
	for k := 0; k < n; k++ {
		keys[k] = &resKey{idx: k}
		for i, e := range es {
			sts[i].env[keys[k]] = es[i].res[k]
			_ = e
		}
	}
	m := merge(x, sts)
	out := &exit{st: m}
	for k := 0; k < n; k++ {
		v, ok := m.env[keys[k]]
		if !ok {
			x.unsupported("results cannot be merged")
		}
		delete(m.env, keys[k])
		out.res = append(out.res, v)
	}
	return []*exit{out}
}

type resKey struct {
	ssa.Value
	idx int
}

// callValue calls a function value.
func (x *Exec) callValue(fr *Frame, st *State, f *Term, sig *types.Signature, args []Val, pos token.Pos) []*exit {
	if c, ok := x.closure[f]; ok {
		return x.callFn(fr, st, c.fn, args, c.binds, pos)
	}
	if f.Op == "ite" {
		c := f.Args[0]
		t := st.clone()
		t.addCond(c)
		st.addCond(Not(c))
		var out []*exit
		if t.pc != False {
			out = append(out, x.callValue(fr, t, f.Args[1], sig, args, pos)...)
		}
		if st.pc != False {
			out = append(out, x.callValue(fr, st, f.Args[2], sig, args, pos)...)
		}
		return x.joinExits(out)
	}
	x.check(fr, st, "nil-func-call", pos, Not(Eq(f, Int(0))))
	if f == Int(0) {
		return nil
	}
	x.used["assume:function values supplied by the caller are deterministic functions of their arguments and leave the state under verification unchanged"] = true
	return x.one(st, x.applyFn(st, f, sig, args)...)
}

// applyFn: uninterpreted application of an unknown function value.
func (x *Exec) applyFn(st *State, f *Term, sig *types.Signature, args []Val) []Val {
	as := []*Term{f}
	for i := 0; i < sig.Params().Len(); i++ {
		as = append(as, x.encodeArg(st, args[i], sig.Params().At(i).Type()))
	}
	name := "apply." + sanitize(sigName(sig))
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := App(fmt.Sprintf("%s.%d", name, i), sortOf(t), as...)
		x.noteType(st, r, t)
		out = append(out, r)
	}
	return out
}

func sigName(s *types.Signature) string {
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, shortType(types.Unalias(s.Params().At(i).Type())))
	}
	var rs []string
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, shortType(types.Unalias(s.Results().At(i).Type())))
	}
	return strings.Join(ps, ",") + "->" + strings.Join(rs, ",")
}

// encodeArg: slices are passed to uninterpreted functions by content.
func (x *Exec) encodeArg(st *State, v Val, t types.Type) *Term {
	if q, ok := v.(*Term); ok && isSeq(q.S) {
		return q
	}
	a := x.asTerm(st, v, t)
	if sl, ok := t.Underlying().(*types.Slice); ok && a.S == SliceS {
		return x.viewOf(st, a, sl.Elem())
	}
	return a
}

func (x *Exec) usable(key string) *Contract {
	c := x.spec.contracts[key]
	if c == nil || c.Inline {
		return nil
	}
	if c.Trusted {
		return c
	}
	if x.active(c) {
		return c
	}
	return nil
}

// active: does the contract say something about the current property?
func (x *Exec) active(c *Contract) bool {
	if x.prop == "" {
		return true
	}
	for _, e := range c.Ensures {
		if e.active(x.prop) {
			return true
		}
	}
	for _, e := range c.Requires {
		if e.active(x.prop) {
			return true
		}
	}
	for _, p := range c.ModProps {
		if len(p) == 0 || p[x.prop] {
			return true
		}
	}
	return c.Safe["*"] || c.Safe[x.prop] || c.Props[x.prop]
}

func (x *Exec) callFn(fr *Frame, st *State, f *ssa.Function, args, binds []Val, pos token.Pos) []*exit {
	key := funcKey(f)
	if x.inInit > 0 && f.Name() == "init" && f.Signature.Recv() == nil {
		return x.one(st)
	}
	if o := f.Origin(); o != nil {
		key = funcKey(o)
	}
	if h, ok := intrinsics[key]; ok {
		return h(x, fr, st, f, args, pos)
	}
	if c := x.usable(key); c != nil && !(x.inspec > 0 && !c.Trusted && len(f.Blocks) > 0 && anyBound(args)) {
		return x.contractCall(fr, st, c, key, f.Signature, nil, args, pos, freeBind{f, binds})
	}
	if len(f.Blocks) > 0 && (inRepo(pkgOf(f)) || f.Synthetic != "" || x.spec.contracts[key] != nil && x.spec.contracts[key].Inline) {
		return x.inline(fr, st, f, args, binds, pos)
	}
	x.unknownCall(st, "external function "+key)
	return x.one(st, x.freshResults(st, f.Signature, key)...)
}

// anyBound: an argument depends on a variable of a quantifier. (A specification that calls a function so means
// what its body computes: a contract speaks about one call.)
func anyBound(args []Val) bool {
	for _, a := range args {
		if t, ok := a.(*Term); ok && t.hasB {
			return true
		}
	}
	return false
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	if f.Parent() != nil {
		return pkgOf(f.Parent())
	}
	return nil
}

// unknownCall: nothing is known about the callee; the whole heap becomes unknown.
func (x *Exec) unknownCall(st *State, what string) {
	if x.inInit > 0 {
		return
	}
	if x.inspec > 0 {
		x.unsupported("specification runs code without a contract: %s", what)
	}
	x.used["unknown:"+what] = true
	b := x.bumpBase(st)
	iters := map[string]*Term{}
	for k, v := range st.heap {
		if strings.HasPrefix(k, "IT|") {
			iters[k] = v
		}
	}
	st.heap = iters
	st.ep = x.newEpoch(b)
}

func (x *Exec) freshResults(st *State, sig *types.Signature, name string) []Val {
	var out []Val
	var b *refBase
	if x.inInit == 0 {
		b = x.bumpBase(st)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fresh("res."+lastPart(name), sortOf(t))
		for _, f := range typeFacts(r, t, b) {
			st.assume(f)
		}
		out = append(out, r)
	}
	return out
}

func lastPart(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (x *Exec) inline(fr *Frame, st *State, f *ssa.Function, args, binds []Val, pos token.Pos) []*exit {
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 24 {
		x.unsupported("inlining too deep (recursion without a contract?) at %s", f)
	}
	for p, n := fr, 0; p != nil; p = p.parent {
		if p.fn == f {
			n++
		}
		if n > 2 {
			x.unsupported("recursive function %s has no contract", f)
		}
	}
	x.inlined[funcKey(f)] = true
	nf := &Frame{fn: f, parent: fr, args: args, binds: binds}
	if fr != nil {
		nf.contract = fr.contract
	}
	if c := x.spec.contracts[funcKey(f)]; c != nil && len(c.Loops) > 0 {
		nf.contract = c
	}
	saved, savedD := st.env, st.defers
	nf.callEnv = saved
	st.env = map[ssa.Value]Val{}
	st.defers = nil
	for i, p := range f.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, v := range f.FreeVars {
		if i < len(binds) {
			st.env[v] = binds[i]
		}
	}
	nf.path = fmt.Sprintf("%d/%s", pos, f.Name())
	if fr != nil {
		nf.path = fr.path + ">" + nf.path
		nf.root = fr.root
	}
	if nf.contract != nil && (fr == nil || nf.contract != fr.contract) {
		nf.root = nf.path
	}
	es := x.runFunc(nf, st)
	es = x.joinExits(es)
	for i, e := range es {
		if i == 0 {
			e.st.env, e.st.defers = saved, savedD
		} else {
			c := make(map[ssa.Value]Val, len(saved))
			for k, v := range saved {
				c[k] = v
			}
			e.st.env = c
			e.st.defers = append([]deferred(nil), savedD...)
		}
	}
	return es
}

// ---------------------------------------------------------------------------
// Contract calls

type place struct {
	key string
	ref *Term // nil: every object
	rng *span // slices: only these elements
}

type span struct{ lo, hi *Term }

func (x *Exec) contractCall(fr *Frame, st *State, c *Contract, key string, sig *types.Signature, it types.Type, args []Val, pos token.Pos, free ...freeBind) []*exit {
	x.used["contract:"+c.Key] = true
	ctx := &Ctx{x: x, st: st, fr: nil, pkg: c.Pkg, vars: map[string]TV{}}
	x.bindParams(ctx, c, sig, it, args)
	for _, fb := range free {
		x.bindFree(ctx, fb.f, func(i int) Val { return fb.binds[i] })
	}
	guard := True
	for _, r := range c.Requires {
		if !r.active(x.prop) {
			continue
		}
		g := ctx.evalBool(r)
		if x.inspec > 0 { // in specifications the postcondition holds only where the precondition does
			guard = And(guard, g)
			continue
		}
		x.obligation(fr, "requires", "requires "+lastPart(key)+label(r), pos, st, g)
		st.assume(g)
	}
	if c.Pure {
		var as []*Term
		ai := 0
		if sig.Recv() != nil || it != nil {
			rt := it
			if rt == nil {
				rt = sig.Recv().Type()
			}
			as = append(as, x.encodeArg(st, args[0], rt))
			ai = 1
		}
		for i := 0; i < sig.Params().Len(); i++ {
			as = append(as, x.encodeArg(st, args[ai+i], sig.Params().At(i).Type()))
		}
		ctx.old = st
		var out []Val
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			r := App(fmt.Sprintf("fn.%s.%d", sanitize(key), i), sortOf(t), as...)
			x.noteType(st, r, t)
			out = append(out, r)
		}
		x.bindResults(ctx, c, sig, out)
		for _, e := range c.Ensures {
			f := ctx.evalBool(e)
			if !x.noted[f] || x.inspec > 0 {
				st.assume(Implies(guard, f))
			}
		}
		return x.one(st, out...)
	}
	if x.inspec > 0 {
		for _, a := range args {
			if t, ok := a.(*Term); ok && t.hasB {
				x.unsupported("call of %s, which is not a pure function, under a quantifier", c.Key)
			}
		}
	}
	pre := st.clone()
	ctx.old = pre
	// frame
	var places []place
	all := false
	for i, m := range c.Modifies {
		if !x.modActive(c, i) {
			continue
		}
		if m.Op == "ident" && m.Name == "*" {
			all = true
			continue
		}
		places = append(places, ctx.places(m)...)
	}
	b := x.bumpBase(st)
	if all {
		iters := map[string]*Term{}
		for k, v := range st.heap {
			if strings.HasPrefix(k, "IT|") {
				iters[k] = v
			}
		}
		st.heap = iters
		st.ep = x.newEpoch(b)
	} else {
		x.havocPlaces(st, places, b)
	}
	out := x.freshResults2(st, sig, key, b)
	if guard == True && x.inspec == 0 {
		x.newResults(st, c, sig, out)
	}
	x.bindResults(ctx, c, sig, out)
	ctx.st = st
	for _, e := range c.Ensures {
		if e.active(x.prop) || c.Trusted {
			ctx.pos = e.Pos
			n := st.facts
			ctx.assumeIf(guard, e.E)
			x.settle(st, n)
		}
	}
	return x.one(st, out...)
}

// newResults: a result that the contract says is a new object is the youngest object there is.
func (x *Exec) newResults(st *State, c *Contract, sig *types.Signature, out []Val) {
	var conj func(e *Expr, f func(e *Expr))
	conj = func(e *Expr, f func(e *Expr)) {
		if e.Op == "binary" && e.Name == "&&" {
			conj(e.Args[0], f)
			conj(e.Args[1], f)
			return
		}
		f(e)
	}
	for i := range out {
		t := sig.Results().At(i).Type()
		o := objectType(t)
		if o == nil || i >= len(c.Results) {
			continue
		}
		isNew := false
		for _, e := range c.Ensures {
			if e.active(x.prop) || c.Trusted {
				conj(e.E, func(e *Expr) {
					isNew = isNew || e.Op == "call" && len(e.Args) == 2 && e.Args[0].Op == "ident" && e.Args[0].Name == "fresh" && e.Args[1].Op == "ident" && e.Args[1].Name == c.Results[i]
				})
			}
		}
		if isNew {
			r := x.alloc(st)
			st.witness(o, r)
			out[i] = r
		}
	}
}

// settle writes the equations on fields of new objects that were assumed since n into the heap.
func (x *Exec) settle(st *State, n *factNode) {
	for f := st.facts; f != n && f != nil; f = f.up {
		t := f.t
		if t.Op != "=" || len(t.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			l, v := t.Args[i], t.Args[1-i]
			if l.Op != "select" || l.Args[0].S.Kind != SArray || l.hasB || v.hasB {
				continue
			}
			if _, k, ok := splitRef(l.Args[1]); !ok || k < 0 {
				continue
			}
			key := ""
			for k := range x.keys {
				if h, ok := st.heap[k]; ok && h == l.Args[0] || !ok && st.ep.memo[k] == l.Args[0] {
					key = k
				}
			}
			if key != "" {
				x.set(st, key, Store(l.Args[0], l.Args[1], v))
				break
			}
		}
	}
}

type freeBind struct {
	f     *ssa.Function
	binds []Val
}

// bindFree names the captured variables of a closure.
func (x *Exec) bindFree(ctx *Ctx, f *ssa.Function, val func(i int) Val) {
	for i, v := range f.FreeVars {
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			ctx.vars[v.Name()] = TV{x.load(ctx.st, val(i), pt.Elem()), pt.Elem()}
		} else {
			ctx.vars[v.Name()] = TV{val(i), v.Type()}
		}
	}
}

func (x *Exec) freshResults2(st *State, sig *types.Signature, name string, b *refBase) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fresh("res."+lastPart(name), sortOf(t))
		for _, f := range typeFacts(r, t, b) {
			st.assume(f)
		}
		if p := objectType(t); p != nil {
			st.witness(p, r)
		}
		out = append(out, r)
	}
	return out
}

func label(c *Clause) string {
	if c.Label != "" {
		return " [" + c.Label + "]"
	}
	return ""
}

func (x *Exec) modActive(c *Contract, i int) bool {
	p := c.ModProps[i]
	return len(p) == 0 || x.prop == "" || p[x.prop]
}

// havocPlaces gives fresh contents to the listed places.
func (x *Exec) havocPlaces(st *State, places []place, b *refBase) {
	byKey := map[string][]place{}
	var order []string
	for _, p := range places {
		if byKey[p.key] == nil {
			order = append(order, p.key)
		}
		byKey[p.key] = append(byKey[p.key], p)
	}
	sort.Strings(order)
	for _, k := range order {
		h := x.get(st, k)
		whole := false
		for _, p := range byKey[k] {
			if p.ref == nil {
				whole = true
			}
		}
		if whole || h.S.Kind != SArray {
			n := x.newHeapConst(k, "M", b)
			st.heap[k] = n
			continue
		}
		seen := map[*Term]bool{}
		for _, p := range byKey[k] {
			if seen[p.ref] {
				continue
			}
			if p.rng != nil {
				whole := false
				for _, q := range byKey[k] {
					whole = whole || q.ref == p.ref && q.rng == nil
				}
				if whole {
					continue
				}
				ss := SeqSort(h.S.Elem.Elem)
				q := Fresh("spare", ss)
				st.assume(Eq(seqLen(q), Sub(p.rng.hi, p.rng.lo)))
				h = Store(h, p.ref, App("blit."+sfx(ss), h.S.Elem, Select(h, p.ref), p.rng.lo, q))
				continue
			}
			seen[p.ref] = true
			h = Store(h, p.ref, x.freshCell(st, k, b))
		}
		st.heap[k] = h
	}
}

// freshCell: an unknown value for one cell of a heap key.
func (x *Exec) freshCell(st *State, k string, b *refBase) *Term {
	ki := x.keys[k]
	v := Fresh("c."+k, ki.sort.Elem)
	switch ki.kind {
	case 'F', 'C', 'G':
		if ki.typ == nil {
			break
		}
		for _, f := range typeFacts(v, ki.typ, b) {
			st.assume(f)
		}
	case 'S', 'M':
		arrayBirth[v] = b
		arrayInner[v] = true
		if ki.isRef {
			arrayIsRef[v] = true
		}
	}
	return v
}

func (x *Exec) bindParams(ctx *Ctx, c *Contract, sig *types.Signature, it types.Type, args []Val) {
	i := 0
	bind := func(name string, v Val, t types.Type) {
		if q, ok := v.(*Term); ok && isSeq(q.S) {
			t = nil
		}
		if name != "" && name != "_" {
			ctx.vars[name] = TV{v: v, typ: t}
		}
	}
	var tys []types.Type
	var names []string
	if it != nil {
		tys = append(tys, it)
		names = append(names, "recv")
	} else if sig.Recv() != nil {
		tys = append(tys, sig.Recv().Type())
		names = append(names, sig.Recv().Name())
	}
	for j := 0; j < sig.Params().Len(); j++ {
		tys = append(tys, sig.Params().At(j).Type())
		names = append(names, sig.Params().At(j).Name())
	}
	for i = range tys {
		if i >= len(args) {
			break
		}
		bind(names[i], args[i], tys[i])
		if i < len(c.Params) {
			bind(c.Params[i], args[i], tys[i])
		}
	}
}

func (x *Exec) bindResults(ctx *Ctx, c *Contract, sig *types.Signature, res []Val) {
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			ctx.vars[n] = TV{v: res[i], typ: t}
		}
		if i < len(c.Results) {
			ctx.vars[c.Results[i]] = TV{v: res[i], typ: t}
		}
		ctx.vars[fmt.Sprintf("result%d", i)] = TV{v: res[i], typ: t}
		if i == 0 {
			ctx.vars["result"] = TV{v: res[i], typ: t}
		}
	}
}

// ---------------------------------------------------------------------------
// Builtins

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) []*exit {
	at := func(i int) types.Type { return c.Args[i].Type() }
	tm := func(i int) *Term { return x.asTerm(st, args[i], at(i)) }
	switch b.Name() {
	case "len":
		switch u := at(0).Underlying().(type) {
		case *types.Slice:
			return x.one(st, Sel(tm(0), 2))
		case *types.Basic:
			return x.one(st, x.strLen(tm(0)))
		case *types.Map:
			return x.one(st, x.mapLen(st, u, tm(0)))
		case *types.Array:
			return x.one(st, Int(u.Len()))
		case *types.Pointer:
			return x.one(st, Int(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "cap":
		if _, ok := at(0).Underlying().(*types.Slice); ok {
			return x.one(st, Sel(tm(0), 3))
		}
	case "append":
		et := at(0).Underlying().(*types.Slice).Elem()
		s := tm(0)
		var q *Term
		if isString(at(1)) {
			q = x.strBytes(tm(1))
		} else {
			q = x.viewOf(st, tm(1), at(1).Underlying().(*types.Slice).Elem())
			if parts, ok := seqLitParts(st, x, tm(1), et); ok {
				q = parts
			}
		}
		return x.one(st, x.appendSeq(st, s, q, et))
	case "copy":
		et := at(0).Underlying().(*types.Slice).Elem()
		d := tm(0)
		var q *Term
		if isString(at(1)) {
			q = x.strBytes(tm(1))
		} else {
			q = x.viewOf(st, tm(1), et)
		}
		n := seqLen(q)
		m := Ite(Le(n, Sel(d, 2)), n, Sel(d, 2))
		k := x.sliceKey(et)
		h := x.get(st, k)
		ss := SeqSort(sortOf(et))
		arr := Select(h, Sel(d, 0))
		x.set(st, k, Store(h, Sel(d, 0), App("blit."+sfx(ss), ArrayS(IntS, ss.Elem), arr, Sel(d, 1), seqSub(q, Int(0), m))))
		return x.one(st, m)
	case "delete":
		mt := at(0).Underlying().(*types.Map)
		x.mapDelete(st, mt, tm(0), tm(1))
		return x.one(st)
	case "panic":
		if x.safe {
			x.obligation(fr, "safe", "no-panic", pos, st, False)
		}
		return nil
	case "print", "println":
		return x.one(st)
	case "min", "max":
		r := tm(0)
		for i := 1; i < len(args); i++ {
			o := tm(i)
			var lt *Term
			switch r.S {
			case IntS:
				lt = Lt(r, o)
			case FloatS:
				x.used["assume:min/max builtins on floats are used on non-NaN values"] = true
				lt = x.flt(r, o)
			default:
				lt = x.strLt(r, o)
			}
			if b.Name() == "min" {
				r = Ite(lt, r, o)
			} else {
				r = Ite(lt, o, r)
			}
		}
		return x.one(st, r)
	case "clear":
		if mt, ok := at(0).Underlying().(*types.Map); ok {
			x.initMap(st, mt, tm(0))
			return x.one(st)
		}
	case "recover":
		return x.one(st, nilIface)
	case "ssa:wrapnilchk":
		return x.one(st, args[0])
	}
	x.unsupported("builtin %s", b.Name())
	return nil
}

// seqLitParts expands the contents of a short slice of known length.
func seqLitParts(st *State, x *Exec, s *Term, et types.Type) (*Term, bool) {
	n, ok := Sel(s, 2).isInt()
	if !ok || n > 16 {
		return nil, false
	}
	ss := SeqSort(sortOf(et))
	arr := Select(x.get(st, x.sliceKey(et)), Sel(s, 0))
	r := seqNil(ss)
	for i := int64(0); i < n; i++ {
		r = seqCat(r, seqOne(ss, Select(arr, Add(Sel(s, 1), Int(i)))))
	}
	return r, true
}

// intrinsics: functions handled by the executor itself
var intrinsics = map[string]func(x *Exec, fr *Frame, st *State, f *ssa.Function, args []Val, pos token.Pos) []*exit{}
