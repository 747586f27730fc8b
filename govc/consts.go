package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effectively constant package variables: assigned only by package initialisation. Their values
// are obtained by executing the package's init function symbolically.

type globalUse struct {
	stores, escapes, mutates bool
}

func (x *Exec) globalUses() map[*ssa.Global]*globalUse {
	if x.P.guses != nil {
		return x.P.guses
	}
	uses := map[*ssa.Global]*globalUse{}
	get := func(g *ssa.Global) *globalUse {
		if uses[g] == nil {
			uses[g] = &globalUse{}
		}
		return uses[g]
	}
	for _, f := range x.P.funcs {
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					u := get(g)
					switch i := in.(type) {
					case *ssa.Store:
						if i.Addr == ssa.Value(g) {
							if !isInit {
								u.stores = true
							}
						} else {
							u.escapes = true
						}
					case *ssa.UnOp:
						if i.Op != token.MUL {
							u.escapes = true
						} else if !isInit {
							x.contentUse(i, u, 0)
						}
					case *ssa.DebugRef:
					default:
						u.escapes = true
					}
				}
			}
		}
	}
	x.P.guses = uses
	return uses
}

// contentUse: does the program change what the loaded value refers to?
func (x *Exec) contentUse(v ssa.Value, u *globalUse, depth int) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, r := range *refs {
		switch i := r.(type) {
		case *ssa.Lookup:
			if i.X == v && leads(i.Type()) && depth < 4 {
				x.contentUse(i, u, depth+1)
			} else if mt, ok := i.X.Type().Underlying().(*types.Map); ok && i.X == v && i.CommaOk && leads(mt.Elem()) {
				for _, e := range *i.Referrers() {
					if ex, ok := e.(*ssa.Extract); ok && ex.Index == 0 && depth < 4 {
						x.contentUse(ex, u, depth+1)
					} else if !ok {
						if _, ok := e.(*ssa.DebugRef); !ok {
							u.mutates = true
						}
					} else if ex.Index == 0 {
						u.mutates = true
					}
				}
			}
		case *ssa.Range, *ssa.DebugRef, *ssa.BinOp, *ssa.If, *ssa.Return:
			if _, ok := r.(*ssa.Return); ok && (isRefType(v.Type()) || isSliceT(v.Type())) {
				u.mutates = true
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if i.Call.Value == v {
				continue
			}
			x.callUse(i, v, u, depth)
		case *ssa.IndexAddr:
			for _, q := range *i.Referrers() {
				switch j := q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr:
					for _, k := range *j.Referrers() {
						switch k.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							u.mutates = true
						}
					}
				default:
					u.mutates = true
				}
			}
		case *ssa.Phi:
			if depth >= 4 {
				u.mutates = true
			} else {
				x.contentUse(i, u, depth+1)
			}
		case *ssa.MakeInterface:
			if !isSliceT(v.Type()) || !x.boxUse(i, u, depth) {
				u.mutates = true
			}
		default:
			u.mutates = true
		}
	}
}

// boxUse: is the slice only handed, as one of the variable arguments, to functions whose contracts say they leave it alone?
func (x *Exec) boxUse(b *ssa.MakeInterface, u *globalUse, depth int) bool {
	for _, r := range *b.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		s, ok := r.(*ssa.Store)
		if !ok || s.Val != ssa.Value(b) {
			return false
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		al, ok := ia.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, q := range *al.Referrers() {
			switch q := q.(type) {
			case *ssa.DebugRef:
			case *ssa.IndexAddr:
				for _, w := range *q.Referrers() {
					if st, ok := w.(*ssa.Store); !ok || st.Addr != ssa.Value(q) {
						return false
					}
				}
			case *ssa.Slice:
				for _, w := range *q.Referrers() {
					call, ok := w.(*ssa.Call)
					if !ok || call.Call.Value == ssa.Value(q) {
						return false
					}
					x.callUse(call, q, u, 4)
				}
			default:
				return false
			}
		}
	}
	return true
}

// callUse: does the call change (or keep) what its argument v refers to?
func (x *Exec) callUse(call *ssa.Call, v ssa.Value, u *globalUse, depth int) {
	c := &call.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if (b.Name() == "append" || b.Name() == "copy") && len(c.Args) == 2 && c.Args[0] != v {
			return
		}
		u.mutates = true
		return
	}
	args := c.Args
	var key string
	var callee *ssa.Function
	if c.IsInvoke() {
		key = ifaceMethodKey(c.Value.Type(), c.Method)
		args = append([]ssa.Value{c.Value}, args...)
	} else if callee = c.StaticCallee(); callee != nil {
		key = funcKey(callee)
	} else {
		u.mutates = true
		return
	}
	// a trusted contract says what it modifies; results that are references could lead back to the argument
	if k := x.spec.contracts[key]; k != nil && k.Trusted {
		for i := 0; i < call.Call.Signature().Results().Len(); i++ {
			t := call.Call.Signature().Results().At(i).Type()
			if isRefType(t) || isSliceT(t) {
				u.mutates = true
			}
		}
		for i, a := range args {
			if a != v {
				continue
			}
			if i >= len(k.Params) {
				u.mutates = true
				continue
			}
			for _, m := range k.Modifies {
				if mentions(m, k.Params[i]) {
					u.mutates = true
				}
			}
		}
		return
	}
	if callee != nil && len(callee.Blocks) > 0 && inRepo(pkgOf(callee)) && depth < 4 {
		for i, a := range args {
			if a == v {
				x.contentUse(callee.Params[i], u, depth+1)
			}
		}
		return
	}
	u.mutates = true
}

func mentions(e *Expr, name string) bool {
	if e == nil {
		return false
	}
	if e.Op == "ident" && (e.Name == name || e.Name == "*") {
		return true
	}
	for _, a := range e.Args {
		if mentions(a, name) {
			return true
		}
	}
	return false
}

// constArr: the contents of slice memory that never change after initialisation, if ref is such memory.
func (x *Exec) constArr(ref *Term) *Term {
	if k, ok := x.cslices[ref]; ok {
		return k.arr
	}
	if ref.Op == "sel" && ref.Args[0].Op == "select" && ref.Args[0].S == SliceS { // a value of a constant map
		m, i := ref.Args[0].Args[0], ref.Args[0].Args[1]
		var ks, vs []*Term
		for ; m.Op == "store" && len(ks) < 32; m = m.Args[0] {
			ks, vs = append(ks, m.Args[1]), append(vs, x.constArr(Sel(m.Args[2], 0)))
		}
		if m.Op != "constarr" || len(ks) == 0 || Sel(m.Args[0], 0) != Int(0) {
			return nil
		}
		r := vs[len(vs)-1]
		for j := len(ks) - 1; j >= 0; j-- {
			if vs[j] == nil {
				return nil
			}
			r = Ite(Eq(i, ks[j]), vs[j], r)
		}
		return r
	}
	if ref.Op == "sel" && ref.Args[0].Op == "ite" && ref.Args[0].S == SliceS {
		v := ref.Args[0]
		ref = mkTerm("ite", "", IntS, v.Args[0], Sel(v.Args[1], 0), Sel(v.Args[2], 0))
	}
	if ref.Op == "ite" {
		a, b := x.constArr(ref.Args[1]), x.constArr(ref.Args[2])
		if a != nil && ref.Args[2] == Int(0) { // an empty slice has no contents
			b = a
		}
		if b != nil && ref.Args[1] == Int(0) {
			a = b
		}
		if a != nil && b != nil {
			return Ite(ref.Args[0], a, b)
		}
	}
	return nil
}

// constElems records the slices an unchanging map holds.
func (x *Exec) constElems(st *State, p *ssa.Package, et types.Type, val *Term) {
	sl, ok := et.Underlying().(*types.Slice)
	if !ok {
		return
	}
	changed := map[*Term]bool{}
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := g.Type().(*types.Pointer).Elem()
			if u := x.globalUses()[g]; u != nil && isSliceT(t) && (u.mutates || u.escapes || u.stores) {
				if v, ok := st.heap[x.globalKey(g)]; ok {
					changed[Sel(v, 0)] = true
				}
			}
		}
	}
	for t := val; t.Op == "store"; t = t.Args[0] {
		if r := Sel(t.Args[2], 0); !changed[r] {
			x.cslices[r] = &constSlice{Select(x.get(st, x.sliceKey(sl.Elem())), r)}
		}
	}
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (x *Exec) constGlobal(g *ssa.Global) *Term {
	if x.inInit > 0 {
		return nil
	}
	if t, ok := x.consts[g]; ok {
		return t
	}
	x.consts[g] = nil
	if g.Pkg == nil || !inRepo(g.Pkg.Pkg) || g.Pkg.Func("init") == nil {
		return nil
	}
	u := x.globalUses()[g]
	if u == nil || u.stores || u.escapes {
		return nil
	}
	t := g.Type().(*types.Pointer).Elem()
	if isAggregate(t) {
		return nil
	}
	st := x.runInit(g.Pkg)
	if st == nil {
		return nil
	}
	v, ok := st.heap[x.globalKey(g)]
	if !ok {
		v = zeroOf(t)
	}
	x.consts[g] = v
	x.used["assume:package variables that this module assigns only during initialisation keep their initial values"] = true
	switch ut := t.Underlying().(type) {
	case *types.Map:
		if !u.mutates {
			dom, val := x.mapRead(st, ut, v)
			x.cmaps[v] = &constMap{dom, val, x.mapLen(st, ut, v)}
			x.constElems(st, g.Pkg, ut.Elem(), val)
		}
	case *types.Slice:
		if !u.mutates {
			arr := Select(x.get(st, x.sliceKey(ut.Elem())), Sel(v, 0))
			x.cslices[Sel(v, 0)] = &constSlice{arr}
		}
	}
	return v
}

func (x *Exec) runInit(p *ssa.Package) *State {
	if st, ok := x.initSt[p]; ok {
		return st
	}
	x.initSt[p] = nil
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	b := x.initBase
	if b == nil {
		b = newRefBase()
		x.initBase = b
	}
	st := &State{pc: True, heap: map[string]*Term{}, env: map[ssa.Value]Val{}, base: b, ep: x.newEpoch(b), nalloc: x.initAlloc}
	x.inInit++
	x.dry++
	sp, sf, dp := x.split, x.safe, x.depth
	x.split, x.safe, x.depth = false, false, 0
	nobl := len(x.obls)
	var res *State
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsup); !ok {
					panic(r)
				}
			}
		}()
		// the guard is false on the one run that matters
		if g := p.Var("init$guard"); g != nil {
			st.heap[x.globalKey(g)] = False
		}
		fr := &Frame{fn: f}
		es := x.runFunc(fr, st)
		es = x.joinExits(es)
		if len(es) == 1 {
			res = es[0].st
		}
	}()
	x.obls = x.obls[:nobl]
	x.split, x.safe, x.depth = sp, sf, dp
	x.dry--
	x.inInit--
	if res != nil {
		if res.base == b {
			x.initAlloc = res.nalloc + 16
		} else {
			x.initBase = nil
			x.initAlloc = 0
		}
		// facts learned during initialisation are always true
		for _, h := range res.hyps() {
			x.global = append(x.global, h)
		}
	}
	x.initSt[p] = res
	return res
}

// leads: a value of this type leads to memory (a function value does not: nobody writes to it).
func leads(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Signature); ok {
		return false
	}
	return isRefType(t) || isSliceT(t)
}
