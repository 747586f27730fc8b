package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Exec struct {
	P            *Program
	spec         *SpecFile
	prop         string
	keys         map[string]*keyInfo
	fids         map[string]int64
	ghosts       []ghostDecl
	noted        map[*Term]bool
	global       []*Term // facts valid in every state
	obls         []*Obligation
	dry          int
	epochN       int
	loopN        map[string]int
	loopIn       map[int]*State
	loopOrd      map[string]int
	noHoudini    bool
	closure      map[*Term]*Closure
	topCtx       *Ctx
	fnRefs       map[*ssa.Function]*Term
	globRef      map[*ssa.Global]*Term
	top          *Frame
	depth        int
	split        bool
	consts       map[*ssa.Global]*Term // effectively constant globals
	cmaps        map[*Term]*constMap   // constant maps by reference
	cslices      map[*Term]*constSlice
	initDone     map[*ssa.Package]bool
	constChecked map[*ssa.Global]bool
	havocs       map[*Term]*havocInfo
	entry        *State
	used         map[string]bool // contracts and assumptions used
	curC         *Contract
	safe         bool
	autoTry      int
	recU         map[string]*SpecFunc
	solver       *Solver
	anchors      map[string]bool
	steps        int
	retSts       []*State
	inspec       int
	retVals      map[*State]Val
	houdini      map[string]map[string]bool
	inlined      map[string]bool
	specFr       *Frame
	inInit       int
	initSt       map[*ssa.Package]*State
	initBase     *refBase
	initAlloc    int64
	pureSt       *State
	seqElem      map[*Term]types.Type
	gvars        [][]*Term
	bvN          int
	typeOfSort   map[*Sort]types.Type
	dtTypes      map[string]types.Type
	sortN        int
}

type havocInfo struct {
	prev    *Term
	targets []*Term
	known   bool
	older   *refBase
}

type constMap struct{ dom, val, n *Term }
type constSlice struct {
	arr *Term
}

type Obligation struct {
	Name     string
	Kind     string
	Func     string
	Pos      string
	Hyps     []*Term
	Goal     *Term
	Status   string
	Solver   string
	Time     float64
	Detail   string
	Query    string
	Cached   bool
	Hide     map[string]bool
	LemmaLim int // of a lemma: 1 + its index
}

type unsup struct{ msg string }

func (x *Exec) unsupported(f string, a ...any) {
	panic(unsup{fmt.Sprintf(f, a...)})
}

type Frame struct {
	fn       *ssa.Function
	parent   *Frame
	callPos  *State
	callEnv  map[ssa.Value]Val
	loops    map[*ssa.BasicBlock]*Loop
	rpo      []*ssa.BasicBlock
	rpoIdx   map[*ssa.BasicBlock]int
	exits    []*exit
	contract *Contract
	args     []Val
	binds    []Val
	specVars map[string]TV
	entrySt  *State
	path     string // call path, for loop ordinals
	root     string // where the frame's contract was entered
}

type exit struct {
	st  *State
	res []Val
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

func newExec(P *Program, spec *SpecFile, prop string) *Exec {
	return &Exec{P: P, spec: spec, prop: prop, keys: map[string]*keyInfo{}, fids: map[string]int64{}, ghosts: spec.ghosts, noted: map[*Term]bool{},
		loopN: map[string]int{}, loopIn: map[int]*State{}, loopOrd: map[string]int{}, closure: map[*Term]*Closure{}, fnRefs: map[*ssa.Function]*Term{}, globRef: map[*ssa.Global]*Term{},
		consts: map[*ssa.Global]*Term{}, cmaps: map[*Term]*constMap{}, cslices: map[*Term]*constSlice{}, initDone: map[*ssa.Package]bool{},
		constChecked: map[*ssa.Global]bool{}, havocs: map[*Term]*havocInfo{}, used: map[string]bool{}, houdini: map[string]map[string]bool{},
		seqElem: map[*Term]types.Type{}, inlined: map[string]bool{}, initSt: map[*ssa.Package]*State{}, typeOfSort: map[*Sort]types.Type{}, dtTypes: map[string]types.Type{}}
}

// ---------------------------------------------------------------------------
// CFG

func (x *Exec) prepare(fr *Frame) {
	fn := fr.fn
	fr.rpoIdx = map[*ssa.BasicBlock]int{}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpoIdx[post[i]] = len(fr.rpo)
		fr.rpo = append(fr.rpo, post[i])
	}
	fr.loops = map[*ssa.BasicBlock]*Loop{}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := fr.loops[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				var up func(b *ssa.BasicBlock)
				up = func(b *ssa.BasicBlock) {
					if l.blocks[b] {
						return
					}
					l.blocks[b] = true
					for _, p := range b.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			} else if fr.rpoIdx[s] <= fr.rpoIdx[b] {
				x.unsupported("irreducible control flow in %s", fn)
			}
		}
	}
	// RPO may interleave loop exits with loop bodies; exits wait in pending until their turn,
	// which is correct because a block only runs after all of its forward predecessors.
}

// runFunc executes fn from st; st.env is the frame's environment (parameters bound).
func (x *Exec) runFunc(fr *Frame, st *State) []*exit {
	x.prepare(fr)
	entry := fr.fn.Blocks[0]
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		all[b] = true
	}
	back, out := x.runRegion(fr, entry, all, []*State{st})
	if len(back) > 0 || len(out) > 0 {
		x.unsupported("entry block is a loop header")
	}
	return fr.exits
}

type pend map[*ssa.BasicBlock][]*State

// runRegion executes the blocks of a region; states reaching entry again are returned as back
// states, states leaving the region are returned in out.
func (x *Exec) runRegion(fr *Frame, entry *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, in []*State) (back []*State, out pend) {
	pending := pend{entry: in}
	out = pend{}
	push := func(to *ssa.BasicBlock, st *State) {
		if st.pc == False {
			return
		}
		if to == entry {
			back = append(back, st)
		} else if blocks[to] {
			pending[to] = append(pending[to], st)
		} else {
			out[to] = append(out[to], st)
		}
	}
	first := true
	for _, b := range fr.rpo {
		if !blocks[b] {
			continue
		}
		sts := pending[b]
		if len(sts) == 0 {
			continue
		}
		delete(pending, b)
		isEntry := b == entry && first
		if isEntry {
			first = false
		}
		if cs := x.cutSpec(fr, b); cs != nil {
			sts = []*State{x.cut(fr, b, cs, sts)}
		}
		if !x.split || len(sts) > 24 {
			sts = []*State{merge(x, sts)}
		}
		if l := fr.loops[b]; l != nil && !isEntry {
			for _, s := range sts {
				for to, ss := range x.handleLoop(fr, l, s) {
					for _, t := range ss {
						push(to, t)
					}
				}
			}
			continue
		}
		for _, s := range sts {
			x.runBlock(fr, b, 0, s, push)
		}
	}
	return
}

func (x *Exec) edge(fr *Frame, from, to *ssa.BasicBlock, st *State, push func(*ssa.BasicBlock, *State)) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
			vals = append(vals, x.val(st, p.Edges[pi]))
		} else {
			break
		}
	}
	for i, p := range phis {
		st.env[p] = vals[i]
	}
	push(to, st)
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, i int, st *State, push func(*ssa.BasicBlock, *State)) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := x.term(st, in.Cond)
			if c == True || c == False {
				k := 0
				if c == False {
					k = 1
				}
				x.edge(fr, b, b.Succs[k], st, push)
				return
			}
			t := st.clone()
			t.addCond(c)
			st.addCond(Not(c))
			if b.Succs[0] == b.Succs[1] {
				x.unsupported("if with equal successors")
			}
			if t.pc != False {
				x.edge(fr, b, b.Succs[0], t, push)
			}
			if st.pc != False {
				x.edge(fr, b, b.Succs[1], st, push)
			}
			return
		case *ssa.Jump:
			x.edge(fr, b, b.Succs[0], st, push)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			fr.exits = append(fr.exits, &exit{st, res})
			return
		case *ssa.Panic:
			if x.safe {
				x.obligation(fr, "safe", "no-panic", in.Pos(), st, False)
			}
			return
		case *ssa.RunDefers:
			sts := []*State{st}
			for len(sts) > 0 {
				s := sts[0]
				if len(s.defers) == 0 {
					break
				}
				var nx []*State
				for _, s := range sts {
					d := s.defers[len(s.defers)-1]
					s.defers = s.defers[:len(s.defers)-1]
					if d.cond != nil {
						skip := s.clone()
						skip.addCond(Not(d.cond))
						s.addCond(d.cond)
						if s.pc == False {
							nx = append(nx, skip)
							continue
						}
						var ex []*State
						for _, e := range x.callCommon(fr, s, &d.call.Call, d.call.Pos(), d.fn, d.args, nil) {
							ex = append(ex, e.st)
						}
						if skip.pc != False {
							ex = append(ex, skip)
						}
						if len(ex) > 1 && !x.split {
							ex = []*State{merge(x, ex)}
						}
						nx = append(nx, ex...)
						continue
					}
					for _, e := range x.callCommon(fr, s, &d.call.Call, d.call.Pos(), d.fn, d.args, nil) {
						nx = append(nx, e.st)
					}
				}
				sts = nx
			}
			if len(sts) != 1 {
				for _, s := range sts[1:] {
					x.runBlock(fr, b, i+1, s, push)
				}
			}
			if len(sts) == 0 {
				return
			}
			st = sts[0]
		case *ssa.Call:
			exits := x.callCommon(fr, st, &in.Call, in.Pos(), nil, nil, in)
			if len(exits) == 0 {
				return
			}
			for k := len(exits) - 1; k >= 0; k-- {
				e := exits[k]
				if tup, ok := in.Type().(*types.Tuple); ok {
					if tup.Len() > 0 {
						e.st.env[in] = e.res
					}
				} else if len(e.res) > 0 {
					e.st.env[in] = e.res[0]
				}
				if k > 0 {
					x.runBlock(fr, b, i+1, e.st, push)
				}
			}
			st = exits[0].st
		default:
			x.instr(fr, st, b.Instrs[i])
		}
		if st.pc == False {
			return
		}
	}
}

// ---------------------------------------------------------------------------
// Values

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return zeroOf(c.Type())
		}
		return constTerm(c.Value, c.Type())
	case *ssa.Function:
		return x.fnRef(c)
	case *ssa.Global:
		t := c.Type().(*types.Pointer).Elem()
		if isAggregate(t) {
			return x.globalRef(c)
		}
		return &Addr{key: x.globalKey(c), typ: t}
	case *ssa.Builtin:
		return nil
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	x.unsupported("value %s (%T) not available in %v", v.Name(), v, v.Parent())
	return nil
}

func (x *Exec) globalRef(g *ssa.Global) *Term {
	if t, ok := x.globRef[g]; ok {
		return t
	}
	t := Int(-int64(len(x.globRef)+1) * refStep)
	x.globRef[g] = t
	return t
}

func (x *Exec) fnRef(f *ssa.Function) *Term {
	if t, ok := x.fnRefs[f]; ok {
		return t
	}
	t := Int(-(1 << 38) - int64(len(x.fnRefs)+1))
	x.fnRefs[f] = t
	x.closure[t] = &Closure{fn: f}
	return t
}

// term gives the value of v as a term.
func (x *Exec) term(st *State, v ssa.Value) *Term { return x.asTerm(st, x.val(st, v), v.Type()) }

func (x *Exec) asTerm(st *State, v Val, t types.Type) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *Addr:
		// pointers into the middle of objects: an injective encoding
		return x.addrTerm(a)
	case nil:
		return Int(0)
	}
	x.unsupported("value %T as a term", v)
	return nil
}

var addrTerms = map[*Term]*Addr{}

func (x *Exec) addrTerm(a *Addr) *Term {
	args := []*Term{}
	name := "addr." + sanitize(a.key)
	for _, p := range a.path {
		name += fmt.Sprintf(".%d", p)
	}
	if a.ref != nil {
		args = append(args, a.ref)
	}
	if a.idx != nil {
		args = append(args, a.idx)
		name += ".i"
	}
	injective[name] = true
	t := App(name, IntS, args...)
	x.global = append(x.global, Lt(Int(0), t))
	addrTerms[t] = a
	return t
}

// ptr gives a pointer value.
func (x *Exec) ptr(st *State, v ssa.Value) Val {
	p := x.val(st, v)
	if t, ok := p.(*Term); ok {
		if a, ok := addrTerms[t]; ok {
			return a
		}
	}
	return p
}

func (x *Exec) nonNil(fr *Frame, st *State, p Val, pos token.Pos) {
	t, ok := p.(*Term)
	if !ok {
		return
	}
	c := Not(Eq(t, Int(0)))
	if c == True {
		return
	}
	if x.inspec > 0 { // specifications are total: no assumption that the code they run does not panic
		return
	}
	// the address of a nested field: its base was checked when the address was taken
	if x.safe && !(t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int") {
		x.obligation(fr, "safe", "nil-deref", pos, st, c)
	}
	st.assume(c)
}

func (x *Exec) check(fr *Frame, st *State, what string, pos token.Pos, c *Term) {
	if c == True {
		return
	}
	if x.inspec > 0 { // specifications are total: no assumption that the code they run does not panic
		return
	}
	if x.safe {
		x.obligation(fr, "safe", what, pos, st, c)
	}
	st.assume(c)
}

func (x *Exec) obligation(fr *Frame, kind, label string, pos token.Pos, st *State, goal *Term) {
	if x.dry > 0 {
		return
	}
	where := ""
	if pos.IsValid() {
		p := x.P.prog.Fset.Position(pos)
		where = fmt.Sprintf("%s:%d", p.Filename, p.Line)
	}
	fnm := ""
	if x.top != nil {
		fnm = funcKey(x.top.fn)
	}
	if fr != nil && fr.fn != nil && x.top != nil && fr.fn != x.top.fn {
		label += "@" + funcKey(fr.fn)
	}
	hy := append(st.hyps(), conjuncts(st.pc)...)
	for _, g := range conjuncts(goal) {
		x.obls = append(x.obls, &Obligation{Name: label, Kind: kind, Func: fnm, Pos: where, Hyps: hy, Goal: g})
	}
	if goal == True {
		x.obls = append(x.obls, &Obligation{Name: label, Kind: kind, Func: fnm, Pos: where, Goal: True})
	}
}

// ---------------------------------------------------------------------------
// Instructions

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		r := x.alloc(st)
		x.store(st, r, t, zeroOf(t))
		st.env[in] = r
		st.witness(t, r)
	case *ssa.UnOp:
		st.env[in] = x.unop(fr, st, in)
	case *ssa.BinOp:
		st.env[in] = x.binop(fr, st, in.Op, x.term(st, in.X), x.term(st, in.Y), in.X.Type(), in.Y.Type(), in.Pos())
	case *ssa.Store:
		p := x.ptr(st, in.Addr)
		x.nonNil(fr, st, p, in.Pos())
		x.store(st, p, in.Addr.Type().Underlying().(*types.Pointer).Elem(), x.term(st, in.Val))
	case *ssa.FieldAddr:
		p := x.ptr(st, in.X)
		x.nonNil(fr, st, p, in.Pos())
		st.env[in] = x.fieldPtr(p, in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field)
	case *ssa.Field:
		v := x.term(st, in.X)
		if v.S.Kind == SUninterp {
			x.unsupported("field of opaque value %s", in)
		}
		r := Sel(v, in.Field)
		x.noteType(st, r, in.Type())
		st.env[in] = r
	case *ssa.IndexAddr:
		i := x.term(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(st, in.X)
			x.check(fr, st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, Sel(s, 2))))
			st.env[in] = x.elemPtr(st, s, i, u.Elem())
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			p := x.ptr(st, in.X)
			x.nonNil(fr, st, p, in.Pos())
			x.check(fr, st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, Int(at.Len()))))
			pt, ok := p.(*Term)
			if !ok {
				x.unsupported("array inside element")
			}
			st.env[in] = &Addr{key: x.sliceKey(at.Elem()), ref: pt, idx: i, typ: at.Elem()}
		default:
			x.unsupported("IndexAddr on %s", in.X.Type())
		}
	case *ssa.Index:
		v := x.term(st, in.X)
		i := x.term(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.check(fr, st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, Int(u.Len()))))
			r := Select(v, i)
			x.noteType(st, r, in.Type())
			st.env[in] = r
		case *types.Basic:
			x.check(fr, st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, x.strLen(v))))
			st.env[in] = x.strAt(v, i)
		default:
			x.unsupported("Index on %s", in.X.Type())
		}
	case *ssa.Lookup:
		x.lookup(fr, st, in)
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := x.term(st, in.Map)
		x.nonNil(fr, st, m, in.Pos())
		x.mapSet(st, mt, m, x.term(st, in.Key), x.term(st, in.Value))
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		m := x.newMap(st, mt)
		st.env[in] = m
		st.witness(mt, m)
	case *ssa.MakeSlice:
		n := x.term(st, in.Len)
		c := x.term(st, in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		x.check(fr, st, "makeslice", in.Pos(), And(Le(Int(0), n), Le(n, c)))
		r := x.alloc(st)
		k := x.sliceKey(et)
		x.set(st, k, Store(x.get(st, k), r, ConstArr(ArrayS(IntS, sortOf(et)), zeroOf(et))))
		st.env[in] = Mk(SliceS, r, Int(0), n, c)
	case *ssa.Slice:
		st.env[in] = x.sliceOp(fr, st, in)
	case *ssa.MakeInterface:
		v := x.term(st, in.X)
		st.env[in] = mkIface(v, in.X.Type())
	case *ssa.ChangeInterface:
		st.env[in] = x.term(st, in.X)
	case *ssa.ChangeType:
		st.env[in] = x.changeType(st, x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.Convert:
		st.env[in] = x.convert(st, x.term(st, in.X), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		st.env[in] = x.typeAssert(fr, st, in)
	case *ssa.Extract:
		tup, ok := x.val(st, in.Tuple).([]Val)
		if !ok {
			x.unsupported("extract from %T", x.val(st, in.Tuple))
		}
		st.env[in] = tup[in.Index]
	case *ssa.MakeClosure:
		r := x.alloc(st)
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(st, b))
		}
		x.closure[r] = c
		st.env[in] = r
	case *ssa.Defer:
		d := deferred{call: in}
		if !in.Call.IsInvoke() {
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fn = x.val(st, in.Call.Value)
			}
		} else {
			d.fn = x.val(st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(st, a))
		}
		st.defers = append(st.defers, d)
	case *ssa.Range:
		x.rangeInit(st, in)
	case *ssa.Next:
		x.next(fr, st, in)
	default:
		x.unsupported("instruction %T: %s", in, in)
	}
}

func (x *Exec) elemPtr(st *State, s, i *Term, et types.Type) Val {
	return &Addr{key: x.sliceKey(et), ref: Sel(s, 0), idx: Add(Sel(s, 1), i), typ: et}
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if t := x.constGlobal(g); t != nil {
				return t
			}
		}
		p := x.ptr(st, in.X)
		x.nonNil(fr, st, p, in.Pos())
		return x.load(st, p, in.Type())
	case token.NOT:
		return Not(x.term(st, in.X))
	case token.SUB:
		v := x.term(st, in.X)
		if v.S == FloatS {
			return x.fneg(v)
		}
		return Neg(v)
	case token.XOR:
		return App("bv.not", IntS, x.term(st, in.X))
	}
	x.unsupported("unop %s", in)
	return nil
}

func (x *Exec) binop(fr *Frame, st *State, op token.Token, a, b *Term, t, tb types.Type, pos token.Pos) *Term {
	if op == token.EQL || op == token.NEQ {
		e := x.goEq(st, a, b, t, tb)
		if op == token.NEQ {
			e = Not(e)
		}
		return e
	}
	if a.S == FloatS {
		switch op {
		case token.ADD:
			return x.fadd(a, b)
		case token.SUB:
			return x.fadd(a, x.fneg(b))
		case token.MUL:
			return x.fmul(a, b)
		case token.QUO:
			return x.fdiv(a, b)
		case token.LSS:
			return x.flt(a, b)
		case token.GTR:
			return x.flt(b, a)
		case token.LEQ:
			return x.fle(a, b)
		case token.GEQ:
			return x.fle(b, a)
		}
	}
	if a.S == StrS {
		switch op {
		case token.ADD:
			return x.scat(a, b)
		case token.LSS:
			return x.strLt(a, b)
		case token.GTR:
			return x.strLt(b, a)
		case token.LEQ:
			return Not(x.strLt(b, a))
		case token.GEQ:
			return Not(x.strLt(a, b))
		}
	}
	if a.S == IntS {
		wrapU := func(v *Term) *Term {
			if isUnsigned(t) {
				return x.wrapUnsigned(v, intBits(t))
			}
			return v
		}
		switch op {
		case token.ADD:
			return x.noOverflow(st, Add(a, b), t)
		case token.SUB:
			if isUnsigned(t) {
				d := Sub(a, b)
				if d.rat != nil && d.rat.Sign() >= 0 {
					return d
				}
				bits := intBits(t)
				m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
				return Ite(Le(b, a), d, Add(d, BigInt(m)))
			}
			return x.noOverflow(st, Sub(a, b), t)
		case token.MUL:
			return x.noOverflow(st, Mul(a, b), t)
		case token.QUO:
			x.check(fr, st, "div-zero", pos, Not(Eq(b, Int(0))))
			if isUnsigned(t) {
				return Div(a, b)
			}
			if n, ok := b.isInt(); ok && n > 0 {
				return Ite(Le(Int(0), a), Div(a, b), Neg(Div(Neg(a), b)))
			}
			return App("int.quo", IntS, a, b)
		case token.REM:
			x.check(fr, st, "div-zero", pos, Not(Eq(b, Int(0))))
			if isUnsigned(t) {
				return Mod(a, b)
			}
			if n, ok := b.isInt(); ok && n > 0 {
				return Ite(Le(Int(0), a), Mod(a, b), Neg(Mod(Neg(a), b)))
			}
			return App("int.rem", IntS, a, b)
		case token.LSS:
			return Lt(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.LEQ:
			return Le(a, b)
		case token.GEQ:
			return Le(b, a)
		case token.SHL:
			if n, ok := b.isInt(); ok && n < 63 {
				return wrapU(Mul(a, Int(1<<n)))
			}
			return App("bv.shl", IntS, a, b)
		case token.SHR:
			if n, ok := b.isInt(); ok && n < 63 {
				return Div(a, Int(1<<n))
			}
			return App("bv.shr", IntS, a, b)
		case token.AND:
			for k := 0; k < 2; k++ {
				if n, ok := b.isInt(); ok && n >= 0 && (n&(n+1)) == 0 && n < 1<<62 {
					return Mod(a, Int(n+1))
				}
				// a run of ones above zeros
				if n, ok := b.isInt(); ok && n > 0 && n < 1<<61 {
					low := n & -n
					if m := n/low + 1; m&(m-1) == 0 {
						return Mul(Int(low), Mod(Div(a, Int(low)), Int(m)))
					}
				}
				a, b = b, a
			}
			return App("bv.and", IntS, a, b)
		case token.OR:
			return App("bv.or", IntS, a, b)
		case token.XOR:
			return App("bv.xor", IntS, a, b)
		case token.AND_NOT:
			return App("bv.andnot", IntS, a, b)
		}
	}
	if a.S == BoolS {
		switch op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	x.unsupported("binop %s on %s", op, a.S.Name)
	return nil
}

func (x *Exec) wrapUnsigned(v *Term, bits int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	return Mod(v, BigInt(m))
}

// noOverflow: machine arithmetic on int and unsigned types is treated as mathematical (reported as an assumption).
// Arithmetic on signed types other than plain int wraps around, as it does in the machine.
func (x *Exec) noOverflow(st *State, v *Term, t types.Type) *Term {
	if !v.isConst() {
		if b, ok := t.Underlying().(*types.Basic); ok && !isUnsigned(t) && t != types.Type(types.Typ[types.Int]) && b.Info()&types.IsInteger != 0 {
			bits := uint(intBits(t))
			h := new(big.Int).Lsh(big.NewInt(1), bits-1)
			m := new(big.Int).Lsh(big.NewInt(1), bits)
			return Ite(And(Le(Neg(BigInt(h)), v), Lt(v, BigInt(h))), v, Sub(Mod(Add(v, BigInt(h)), BigInt(m)), BigInt(h)))
		}
		x.used["assume:integer additions and multiplications do not overflow (machine integers treated as mathematical)"] = true
	}
	return v
}

func (x *Exec) goEq(st *State, a, b *Term, t, tb types.Type) *Term {
	if a.S != b.S {
		if a.S == IfaceS {
			b = mkIface(b, tb)
		} else if b.S == IfaceS {
			a = mkIface(a, t)
		} else {
			x.unsupported("comparison of %s and %s", a.S.Name, b.S.Name)
		}
	}
	if a.S == FloatS {
		return And(Eq(Sel(a, 0), Sel(b, 0)), Not(Eq(Sel(a, 0), Int(1))), Eq(Sel(a, 1), Sel(b, 1)))
	}
	if a.S == SliceS { // only against nil
		return Eq(Sel(a, 0), Sel(b, 0))
	}
	if a.S == IfaceS {
		if b == nilIface {
			return Eq(Sel(a, 0), Int(0))
		}
		if a == nilIface {
			return Eq(Sel(b, 0), Int(0))
		}
	}
	return Eq(a, b)
}

// ---- floats: kind 0 finite (exact reals: rounding is not modelled), 1 NaN, 2 +Inf, 3 -Inf

func (x *Exec) fkind(a *Term) *Term { return Sel(a, 0) }

func (x *Exec) fl() {
	x.used["assume:floating point arithmetic is exact on finite values (rounding and overflow to infinity are not modelled; NaN, infinities and division by zero are)"] = true
}

func mkFloatIte(cs []*Term, vs []*Term, def *Term) *Term {
	r := def
	for i := len(cs) - 1; i >= 0; i-- {
		r = Ite(cs[i], vs[i], r)
	}
	return r
}

func fin(v *Term) *Term { return Mk(FloatS, Int(0), v) }

func (x *Exec) fneg(a *Term) *Term {
	k := Sel(a, 0)
	return Mk(FloatS, Ite(Eq(k, Int(2)), Int(3), Ite(Eq(k, Int(3)), Int(2), k)), Neg(Sel(a, 1)))
}

func (x *Exec) fadd(a, b *Term) *Term {
	x.fl()
	ka, kb := Sel(a, 0), Sel(b, 0)
	return mkFloatIte([]*Term{
		And(Eq(ka, Int(0)), Eq(kb, Int(0))),
		Or(Eq(ka, Int(1)), Eq(kb, Int(1))),
		Eq(ka, Int(0)),
		Eq(kb, Int(0)),
		Eq(ka, kb),
	}, []*Term{fin(Add(Sel(a, 1), Sel(b, 1))), floatNaN, Mk(FloatS, kb, RealC(new(big.Rat))), Mk(FloatS, ka, RealC(new(big.Rat))), Mk(FloatS, ka, RealC(new(big.Rat)))}, floatNaN)
}

func r0() *Term { return RealC(new(big.Rat)) }

func (x *Exec) fsign(a *Term) (pos, neg *Term) {
	k := Sel(a, 0)
	pos = Or(Eq(k, Int(2)), And(Eq(k, Int(0)), Lt(r0(), Sel(a, 1))))
	neg = Or(Eq(k, Int(3)), And(Eq(k, Int(0)), Lt(Sel(a, 1), r0())))
	return
}

func (x *Exec) fmul(a, b *Term) *Term {
	x.fl()
	ka, kb := Sel(a, 0), Sel(b, 0)
	pa, na := x.fsign(a)
	pb, nb := x.fsign(b)
	return mkFloatIte([]*Term{
		And(Eq(ka, Int(0)), Eq(kb, Int(0))),
		Or(Eq(ka, Int(1)), Eq(kb, Int(1))),
		Or(And(pa, pb), And(na, nb)),
		Or(And(pa, nb), And(na, pb)),
	}, []*Term{fin(Mul(Sel(a, 1), Sel(b, 1))), floatNaN, floatPInf, floatNInf}, floatNaN)
}

func (x *Exec) fdiv(a, b *Term) *Term {
	x.fl()
	ka, kb := Sel(a, 0), Sel(b, 0)
	pa, na := x.fsign(a)
	zb := And(Eq(kb, Int(0)), Eq(Sel(b, 1), r0()))
	_, nb := x.fsign(b)
	return mkFloatIte([]*Term{
		And(Eq(ka, Int(0)), Eq(kb, Int(0)), Not(zb)),
		Or(Eq(ka, Int(1)), Eq(kb, Int(1))),
		And(zb, pa), // sign of zero not modelled: +0 assumed
		And(zb, na),
		zb,
		Eq(ka, Int(0)), // finite / inf
		And(Eq(kb, Int(0)), Or(And(pa, Not(nb)), And(na, nb))),
		Eq(kb, Int(0)),
	}, []*Term{fin(RDiv(Sel(a, 1), Sel(b, 1))), floatNaN, floatPInf, floatNInf, floatNaN, fin(r0()), floatPInf, floatNInf}, floatNaN)
}

func (x *Exec) flt(a, b *Term) *Term {
	ka, kb := Sel(a, 0), Sel(b, 0)
	return And(Not(Eq(ka, Int(1))), Not(Eq(kb, Int(1))), Or(
		And(Eq(ka, Int(0)), Eq(kb, Int(0)), Lt(Sel(a, 1), Sel(b, 1))),
		And(Eq(ka, Int(3)), Not(Eq(kb, Int(3)))),
		And(Eq(kb, Int(2)), Not(Eq(ka, Int(2))))))
}

func (x *Exec) fle(a, b *Term) *Term {
	return And(Not(Eq(Sel(a, 0), Int(1))), Not(Eq(Sel(b, 0), Int(1))), Not(x.flt(b, a)))
}

// ---- strings

func (x *Exec) strLen(s *Term) *Term {
	if s.Op == "strlit" {
		return Int(int64(len(s.Name)))
	}
	t := App("st.len", IntS, s)
	if !x.noted[t] && !t.hasB {
		x.noted[t] = true
		x.global = append(x.global, Le(Int(0), t))
	}
	return t
}

func (x *Exec) strAt(s, i *Term) *Term {
	if s.Op == "strlit" {
		if n, ok := i.isInt(); ok && n >= 0 && n < int64(len(s.Name)) {
			return Int(int64(s.Name[n]))
		}
	}
	t := App("st.at", IntS, s, i)
	if !x.noted[t] && !t.hasB {
		x.noted[t] = true
		x.global = append(x.global, Le(Int(0), t), Le(t, Int(255)))
	}
	return t
}

func (x *Exec) scat(a, b *Term) *Term {
	if a.Op == "strlit" && b.Op == "strlit" {
		return StrLit(a.Name + b.Name)
	}
	if a == StrLit("") {
		return b
	}
	if b == StrLit("") {
		return a
	}
	return App("st.cat", StrS, a, b)
}

func (x *Exec) strLt(a, b *Term) *Term {
	if a.Op == "strlit" && b.Op == "strlit" {
		return Bool(a.Name < b.Name)
	}
	return App("st.lt", BoolS, a, b)
}

func (x *Exec) substr(s, lo, hi *Term) *Term {
	if s.Op == "strlit" {
		a, ok1 := lo.isInt()
		b, ok2 := hi.isInt()
		if ok1 && ok2 && a >= 0 && a <= b && b <= int64(len(s.Name)) {
			return StrLit(s.Name[a:b])
		}
	}
	if lo == Int(0) && hi == x.strLen(s) {
		return s
	}
	return App("st.sub", StrS, s, lo, hi)
}

// ---- slices

func (x *Exec) sliceOp(fr *Frame, st *State, in *ssa.Slice) Val {
	var lo, hi, max *Term
	if in.Low != nil {
		lo = x.term(st, in.Low)
	} else {
		lo = Int(0)
	}
	if in.High != nil {
		hi = x.term(st, in.High)
	}
	if in.Max != nil {
		max = x.term(st, in.Max)
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := x.term(st, in.X)
		if hi == nil {
			hi = x.strLen(s)
		}
		x.check(fr, st, "slice", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, x.strLen(s))))
		return x.substr(s, lo, hi)
	case *types.Slice:
		s := x.term(st, in.X)
		if hi == nil {
			hi = Sel(s, 2)
		}
		if max == nil {
			max = Sel(s, 3)
		}
		x.check(fr, st, "slice", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, max), Le(max, Sel(s, 3))))
		return Mk(SliceS, Sel(s, 0), Add(Sel(s, 1), lo), Sub(hi, lo), Sub(max, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p, ok := x.ptr(st, in.X).(*Term)
		if !ok {
			x.unsupported("slice of inner array")
		}
		x.nonNil(fr, st, p, in.Pos())
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		x.check(fr, st, "slice", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, max), Le(max, n)))
		return Mk(SliceS, p, lo, Sub(hi, lo), Sub(max, lo))
	}
	x.unsupported("slice of %s", in.X.Type())
	return nil
}

// ---- maps

func (x *Exec) newMap(st *State, mt *types.Map) *Term {
	r := x.alloc(st)
	x.initMap(st, mt, r)
	return r
}

func (x *Exec) initMap(st *State, mt *types.Map, r *Term) {
	dk, vk := x.mapKeys(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	x.set(st, dk, Store(x.get(st, dk), r, ConstArr(ArrayS(ks, BoolS), False)))
	x.set(st, vk, Store(x.get(st, vk), r, ConstArr(ArrayS(ks, vs), zeroOf(mt.Elem()))))
	lk := x.mapLenKey(mt)
	x.set(st, lk, Store(x.get(st, lk), r, Int(0)))
}

// mapRead: domain and value arrays of map m.
func (x *Exec) mapRead(st *State, mt *types.Map, m *Term) (dom, val *Term) {
	dk, vk := x.mapKeys(mt)
	if cm, ok := x.cmaps[m]; ok {
		return cm.dom, cm.val
	}
	dom = Select(x.get(st, dk), m)
	val = Select(x.get(st, vk), m)
	return
}

func (x *Exec) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	dom, _ := x.mapRead(st, mt, m)
	return And(Not(Eq(m, Int(0))), Select(dom, k))
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) *Term {
	_, val := x.mapRead(st, mt, m)
	v := Select(val, k)
	x.noteType(st, v, mt.Elem())
	return Ite(x.mapHas(st, mt, m, k), v, zeroOf(mt.Elem()))
}

func (x *Exec) mapSet(st *State, mt *types.Map, m, k, v *Term) {
	dk, vk := x.mapKeys(mt)
	lk := x.mapLenKey(mt)
	d, a := x.get(st, dk), x.get(st, vk)
	dom := Select(d, m)
	ln := x.get(st, lk)
	l0 := Select(ln, m)
	x.set(st, lk, Store(ln, m, Ite(Select(dom, k), l0, Add(l0, Int(1)))))
	x.set(st, dk, Store(d, m, Store(dom, k, True)))
	x.set(st, vk, Store(a, m, Store(Select(a, m), k, v)))
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	dk, _ := x.mapKeys(mt)
	lk := x.mapLenKey(mt)
	d := x.get(st, dk)
	dom := Select(d, m)
	ln := x.get(st, lk)
	l0 := Select(ln, m)
	x.set(st, lk, Store(ln, m, Ite(Select(dom, k), Add(l0, Int(-1)), l0)))
	x.set(st, dk, Store(d, m, Store(dom, k, False)))
}

func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	if cm, ok := x.cmaps[m]; ok && cm.n != nil {
		return cm.n
	}
	l := Select(x.get(st, x.mapLenKey(mt)), m)
	dom, _ := x.mapRead(st, mt, m)
	if l.Op != "int" && !x.noted[l] && !l.hasB {
		x.noted[l] = true
		k := BVar("k!ml", sortOf(mt.Key()))
		x.global = append(x.global, Le(Int(0), l), Implies(Eq(l, Int(0)), Forall([]*Term{k}, Not(Select(dom, k)))))
	}
	return Ite(Eq(m, Int(0)), Int(0), l)
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) {
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		m, k := x.term(st, in.X), x.term(st, in.Index)
		v := x.mapGet(st, mt, m, k)
		if in.CommaOk {
			st.env[in] = []Val{v, x.mapHas(st, mt, m, k)}
		} else {
			st.env[in] = v
		}
		return
	}
	s, i := x.term(st, in.X), x.term(st, in.Index)
	x.check(fr, st, "index", in.Pos(), And(Le(Int(0), i), Lt(i, x.strLen(s))))
	st.env[in] = x.strAt(s, i)
}

// ---- range

func (x *Exec) rangeInit(st *State, in *ssa.Range) {
	switch u := in.X.Type().Underlying().(type) {
	case *types.Map:
		m := x.term(st, in.X)
		dom, val := x.mapRead(st, u, m)
		ks := ArrayS(sortOf(u.Key()), BoolS)
		none := ConstArr(ks, False)
		d := Ite(Eq(m, Int(0)), none, dom)
		it := &Iter{kind: "map", m: m, mt: u, dom: d, val: val, seen: none, src: in}
		st.env[in] = it
		// the visited set is loop-carried state, kept in a heap cell
		k := x.keyFor('I', "IT|"+in.Parent().String()+"|"+in.Name(), ks, nil, false)
		x.set(st, k, none)
	case *types.Basic:
		s := x.term(st, in.X)
		it := &Iter{kind: "string", str: s, src: in}
		st.env[in] = it
		k := x.keyFor('I', "IT|"+in.Parent().String()+"|"+in.Name(), IntS, nil, false)
		x.set(st, k, Int(0))
	default:
		x.unsupported("range over %s", in.X.Type())
	}
}

func (x *Exec) iterKey(in *ssa.Range) string { return "IT|" + in.Parent().String() + "|" + in.Name() }

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) {
	it, ok := x.val(st, in.Iter).(*Iter)
	if !ok {
		x.unsupported("iterator")
	}
	key := x.iterKey(it.src)
	if it.kind == "map" {
		seen := x.get(st, key)
		more := Fresh("more", BoolS)
		k := Fresh("key", sortOf(it.mt.Key()))
		for _, f := range typeFacts(k, it.mt.Key(), st.base) {
			st.assume(Implies(more, f))
		}
		st.assume(Implies(more, And(Select(it.dom, k), Not(Select(seen, k)))))
		b := BVar("k!it", sortOf(it.mt.Key()))
		st.assume(Implies(Not(more), Forall([]*Term{b}, Eq(Select(seen, b), Select(it.dom, b)), Select(seen, b), Select(it.dom, b))))
		// the map may change during iteration only at keys already visited; values are read at the time of the visit
		_, cur := x.mapRead(st, it.mt, it.m)
		v := Select(cur, k)
		x.noteType(st, v, it.mt.Elem())
		x.set(st, key, Ite(more, Store(seen, k, True), seen))
		st.env[in] = []Val{more, k, v}
		return
	}
	// string: position cursor, decode one rune
	pos := x.get(st, key)
	more := Lt(pos, x.strLen(it.str))
	r := App("utf8.rune", IntS, it.str, pos)
	w := App("utf8.width", IntS, it.str, pos)
	x.global = append(x.global, Implies(more, And(Le(Int(1), w), Le(w, Int(4)), Le(Add(pos, w), x.strLen(it.str)), Le(Int(0), r), Le(r, Int(0x10ffff)))))
	x.set(st, key, Ite(more, Add(pos, w), pos))
	st.env[in] = []Val{more, pos, r}
}

// ---- conversions

func (x *Exec) changeType(st *State, v Val, from, to types.Type) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	return convSort(t, sortOf(to), x)
}

func convSort(t *Term, to *Sort, x *Exec) *Term {
	if t.S == to {
		return t
	}
	if t.S.Kind == SData && to.Kind == SData && len(t.S.Fields) == len(to.Fields) {
		args := make([]*Term, len(to.Fields))
		for i := range args {
			args[i] = convSort(Sel(t, i), to.Fields[i].Sort, x)
		}
		return Mk(to, args...)
	}
	x.unsupported("change type %s -> %s", t.S.Name, to.Name)
	return nil
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if isInteger(from) && isInteger(to) {
		if isUnsigned(to) {
			if isUnsigned(from) && intBits(from) <= intBits(to) {
				return v
			}
			if n, ok := v.isInt(); ok && n >= 0 && (intBits(to) == 64 || n < 1<<intBits(to)) {
				return v
			}
			m := new(big.Int).Lsh(big.NewInt(1), uint(intBits(to)))
			if !isUnsigned(from) && intBits(from) <= intBits(to) { // a non-negative value of the narrower type fits
				return Ite(Le(Int(0), v), v, Mod(v, BigInt(m)))
			}
			return Ite(And(Le(Int(0), v), Lt(v, BigInt(m))), v, Mod(v, BigInt(m)))
		}
		if intBits(to) >= intBits(from) && !isUnsigned(from) || intBits(to) > intBits(from) {
			return v
		}
		half := new(big.Int).Lsh(big.NewInt(1), uint(intBits(to)-1))
		m := new(big.Int).Lsh(big.NewInt(1), uint(intBits(to)))
		if v.isConst() {
			return v
		}
		nh := new(big.Int).Neg(half)
		return Ite(And(Le(BigInt(nh), v), Lt(v, BigInt(half))), v, Add(Mod(Add(v, BigInt(half)), BigInt(m)), BigInt(nh)))
	}
	if isInteger(from) && isFloat(to) {
		x.fl()
		return fin(ToReal(v))
	}
	if isFloat(from) && isFloat(to) {
		return v
	}
	if isFloat(from) && isInteger(to) {
		t := App("float.toint", IntS, v)
		r := Sel(v, 1)
		if !x.noted[t] {
			x.noted[t] = true
			x.global = append(x.global,
				Implies(And(Eq(Sel(v, 0), Int(0)), Le(r0(), r)), And(Le(ToReal(t), r), Lt(r, Add(ToReal(t), RealC(big.NewRat(1, 1)))))),
				Implies(And(Eq(Sel(v, 0), Int(0)), Le(r, r0())), And(Le(r, ToReal(t)), Lt(Add(ToReal(t), RealC(big.NewRat(-1, 1))), r))))
		}
		return t
	}
	if isString(from) {
		if sl, ok := tu.(*types.Slice); ok {
			if intBits(sl.Elem()) == 8 {
				return x.sliceFromSeq(st, x.strBytes(v), sl.Elem())
			}
		}
	}
	if isString(to) {
		if sl, ok := fu.(*types.Slice); ok && intBits(sl.Elem()) == 8 {
			return x.strOf(x.viewOf(st, v, sl.Elem()))
		}
		if isInteger(from) {
			return App("st.ofrune", StrS, v)
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	x.unsupported("conversion %s -> %s", from, to)
	return nil
}

// ---- type assertions

func (x *Exec) hasType(v *Term, t types.Type) *Term {
	tag := Sel(v, 0)
	if it, ok := t.Underlying().(*types.Interface); ok {
		return x.tagImplements(tag, t, it)
	}
	return Eq(tag, typeTag(t))
}

func (x *Exec) tagImplements(tag *Term, t types.Type, it *types.Interface) *Term {
	if n, ok := tag.isInt(); ok {
		if n == 0 {
			return False
		}
		return Bool(types.Implements(tagTypes[n], it))
	}
	if tag.Op == "ite" {
		return Ite(tag.Args[0], x.tagImplements(tag.Args[1], t, it), x.tagImplements(tag.Args[2], t, it))
	}
	r := App("implements."+sanitize(shortType(t)), BoolS, tag)
	for n, ty := range tagTypes {
		f := Eq(App("implements."+sanitize(shortType(t)), BoolS, Int(n)), Bool(types.Implements(ty, it)))
		if !x.noted[f] {
			x.noted[f] = true
			x.global = append(x.global, f)
		}
	}
	f := Not(App("implements."+sanitize(shortType(t)), BoolS, Int(0)))
	if !x.noted[f] {
		x.noted[f] = true
		x.global = append(x.global, f)
	}
	return r
}

func (x *Exec) unboxTo(v *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		return v
	}
	r := unbox(Sel(v, 1), sortOf(t))
	if !x.noted[r] && r.Op == "app" && !r.hasB {
		x.noted[r] = true
		// boxing is inverse to unboxing
		n := boxName(r.S)
		f := Implies(Eq(Sel(v, 0), typeTag(t)), Eq(mkTerm("app", n, IntS, r), r.Args[0]))
		x.global = append(x.global, f)
		for _, f := range typeFacts(r, t, nil) {
			x.global = append(x.global, Implies(Eq(Sel(v, 0), typeTag(t)), f))
		}
	}
	return r
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) Val {
	v := x.term(st, in.X)
	ok := x.hasType(v, in.AssertedType)
	if in.CommaOk {
		if ok == False {
			return []Val{zeroOf(in.AssertedType), False}
		}
		u := x.unboxTo(v, in.AssertedType)
		return []Val{Ite(ok, u, zeroOf(in.AssertedType)), ok}
	}
	x.check(fr, st, "type-assert", in.Pos(), ok)
	if ok == False {
		st.addCond(False)
		return zeroOf(in.AssertedType)
	}
	return x.unboxTo(v, in.AssertedType)
}

var _ = constant.MakeBool
var _ = os.Stderr
var _ = sort.Strings
var _ = strings.Join
