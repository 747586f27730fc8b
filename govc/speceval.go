package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a typed specification value; typ is nil for ghost values.
type TV struct {
	v   Val
	typ types.Type
}

// Ctx is the environment a specification expression is evaluated in.
type Ctx struct {
	x      *Exec
	st     *State
	old    *State
	fr     *Frame
	head   *ssa.BasicBlock
	pkg    string
	vars   map[string]TV
	loop   *loopCtx
	pos    string
	effect *State // state after the last piece of program code run by the specification
}

type loopCtx struct {
	entry *State // state when the loop was reached
	iter  *Term
	seen  *Term
}

func (t TV) tm(c *Ctx) *Term {
	switch v := t.v.(type) {
	case *Term:
		return v
	case *Addr:
		return c.x.addrTerm(v)
	case *lazyAgg:
		return c.x.load(c.st, v.ptr, v.typ)
	}
	c.fail("value of kind %T used as a term", t.v)
	return nil
}

type specErr struct{ msg string }

func (c *Ctx) fail(f string, a ...any) {
	panic(unsup{"specification " + c.pos + ": " + fmt.Sprintf(f, a...)})
}

func (c *Ctx) with(name string, v TV) *Ctx {
	n := *c
	n.vars = make(map[string]TV, len(c.vars)+1)
	for k, t := range c.vars {
		n.vars[k] = t
	}
	n.vars[name] = v
	return &n
}

func (c *Ctx) evalBool(cl *Clause) *Term {
	c.pos = cl.Pos
	t := c.eval(cl.E).tm(c)
	if t.S != BoolS {
		c.fail("not a boolean")
	}
	return t
}

type goal struct {
	st *State
	t  *Term
}

// goals skolemises outer quantifiers and splits conjunctions.
func (c *Ctx) goals(e *Expr) []goal {
	switch {
	case e.Op == "forall":
		n := *c
		n.st = c.st.clone()
		cc := &n
		for _, v := range e.Vars {
			s, t := c.x.specType(v.Type, c.pkg)
			k := Fresh("sk."+v.Name, s)
			if t != nil {
				for _, f := range typeFacts(k, t, n.st.base) {
					n.st.assume(f)
				}
			}
			cc = cc.with(v.Name, TV{k, t})
			cc.st = n.st
		}
		return cc.goals(e.Args[0])
	case e.Op == "exists" && len(e.Vars) == 1 && c.x.inspec == 0:
		_, t := c.x.specType(e.Vars[0].Type, c.pkg)
		p, ok := t, false
		if t != nil {
			if pt := objectType(t); pt != nil {
				p, ok = pt, true
			}
		}
		if ok {
			ws := c.st.witnesses(p)
			if len(ws) == 0 {
				ws = []*Term{Int(0)}
			}
			if len(ws) == 1 {
				return c.with(e.Vars[0].Name, TV{ws[0], t}).goals(e.Args[0])
			}
			if len(ws) > 1 {
				var alt []*Term
				for _, w := range ws {
					cc := c.with(e.Vars[0].Name, TV{w, t})
					alt = append(alt, cc.eval(e.Args[0]).tm(cc))
				}
				return []goal{{c.st, Or(alt...)}}
			}
		}
	case e.Op == "binary" && e.Name == "&&":
		return append(c.goals(e.Args[0]), c.goals(e.Args[1])...)
	case e.Op == "binary" && e.Name == "==>":
		n := *c
		n.st = c.st.clone()
		n.st.assume(n.eval(e.Args[0]).tm(&n))
		return n.goals(e.Args[1])
	case e.Op == "let":
		v := c.eval(e.Args[0])
		return c.with(e.Name, v).goals(e.Args[1])
	case e.Op == "call" && e.Args[0].Op == "ident":
		if f := c.x.spec.funcs[e.Args[0].Name]; f != nil && f.Body != nil && !f.Rec {
			if _, shadow := c.vars[f.Name]; !shadow {
				return c.macroCtx(f, e.Args[1:]).goals(f.Body)
			}
		}
	}
	return []goal{{c.st, c.eval(e).tm(c)}}
}

func (c *Ctx) macroCtx(f *SpecFunc, args []*Expr) *Ctx {
	if len(args) != len(f.Params) {
		c.fail("%s expects %d arguments", f.Name, len(f.Params))
	}
	n := *c
	n.vars = map[string]TV{}
	n.pkg = f.Pkg
	n.fr = nil
	for i, p := range f.Params {
		s, t := c.x.specType(p.Type, f.Pkg)
		v := c.eval(args[i])
		n.vars[p.Name] = c.x.mark(c.coerceTo(v, s, t), p.Type, f.Pkg)
	}
	return &n
}

func (c *Ctx) coerceTo(v TV, s *Sort, t types.Type) TV {
	v = c.force(v)
	tm, ok := v.v.(*Term)
	if !ok {
		return v
	}
	if tm.S == s {
		if t == nil {
			t = v.typ
		}
		if isUntypedNil(v.typ) {
			return TV{tm, t}
		}
		return TV{tm, t}
	}
	if isUntypedNil(v.typ) && isSeq(s) {
		return TV{seqNil(s), nil}
	}
	if isUntypedNil(v.typ) && t != nil {
		return TV{zeroOf(t), t}
	}
	if tm.S == IntS && s == RealS {
		return TV{ToReal(tm), nil}
	}
	if tm.S == IntS && s == FloatS {
		return TV{fin(ToReal(tm)), t}
	}
	if tm.S == RealS && s == FloatS {
		return TV{fin(tm), t}
	}
	if s == IfaceS && v.typ != nil {
		return TV{mkIface(tm, v.typ), t}
	}
	if tm.S == SliceS && isSeq(s) && v.typ != nil {
		return TV{c.x.viewOf(c.st, tm, v.typ.Underlying().(*types.Slice).Elem()), nil}
	}
	if tm.S == StrS && isSeq(s) {
		return TV{c.x.strBytes(tm), nil}
	}
	if isSeq(tm.S) && s == SliceS && t != nil {
		if sl, ok := t.Underlying().(*types.Slice); ok && sortOf(sl.Elem()) == tm.S.Elem {
			return TV{c.x.sliceFromSeq(c.st, tm, sl.Elem()), t}
		}
	}
	c.fail("cannot use %s value as %s", tm.S.Name, s.Name)
	return v
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (c *Ctx) eval(e *Expr) TV {
	x := c.x
	if e == nil {
		c.fail("empty expression")
	}
	switch e.Op {
	case "num":
		if strings.Contains(e.Name, ".") {
			r, _ := new(big.Rat).SetString(e.Name)
			return TV{RealC(r), nil}
		}
		n, ok := new(big.Int).SetString(e.Name, 0)
		if !ok {
			c.fail("bad number %s", e.Name)
		}
		return TV{BigInt(n), tInt}
	case "str":
		return TV{StrLit(e.Name), tString}
	case "ident":
		return c.ident(e.Name)
	case "unary":
		switch e.Name {
		case "!":
			return TV{Not(c.eval(e.Args[0]).tm(c)), tBool}
		case "-":
			v := c.eval(e.Args[0])
			if v.tm(c).S == FloatS {
				return TV{x.fneg(v.tm(c)), v.typ}
			}
			return TV{Neg(v.tm(c)), v.typ}
		case "*":
			v := c.eval(e.Args[0])
			p, ok := v.typ.Underlying().(*types.Pointer)
			if !ok {
				c.fail("dereference of non-pointer")
			}
			return TV{x.load(c.st, v.v, p.Elem()), p.Elem()}
		case "&":
			if a := e.Args[0]; a.Op == "ident" {
				if v, ok := c.x.localAddr(c.fr, c.st, a.Name); ok {
					return v
				}
			}
			return TV{c.addrOf(e.Args[0]), nil}
		}
	case "cond":
		cond := c.eval(e.Args[0]).tm(c)
		if cond == True || cond == False {
			k := 1
			if cond == False {
				k = 2
			}
			if r := c.eval(e.Args[k]); !isUntypedNil(r.typ) {
				return r
			}
		}
		a, b := c.eval(e.Args[1]), c.eval(e.Args[2])
		a, b = c.unify(a, b)
		t := a.typ
		if t == nil {
			t = b.typ
		}
		return TV{Ite(cond, a.tm(c), b.tm(c)), t}
	case "let":
		v := c.eval(e.Args[0])
		return c.with(e.Name, v).eval(e.Args[1])
	case "binary":
		return c.binary(e)
	case "forall", "exists":
		n := c
		var bs []*Term
		var guards []*Term
		for _, v := range e.Vars {
			s, t := x.specType(v.Type, c.pkg)
			x.bvN++
			b := BVar(fmt.Sprintf("%s!b%d", v.Name, x.bvN), s)
			bs = append(bs, b)
			if t != nil && isUnsigned(t) {
				guards = append(guards, Le(Int(0), b))
			}
			n = n.with(v.Name, x.mark(TV{b, t}, v.Type, c.pkg))
		}
		body := n.eval(e.Args[0]).tm(c)
		var pats []*Term
		for _, tr := range e.Trigs {
			var ts []*Term
			for _, te := range tr {
				ts = append(ts, n.eval(te).tm(c))
			}
			if len(ts) == 1 {
				pats = append(pats, ts[0])
			} else {
				pats = append(pats, mkTerm("multipat", "", BoolS, ts...))
			}
		}
		if e.Op == "forall" {
			return TV{Forall(bs, Implies(And(guards...), body), pats...), tBool}
		}
		return TV{Exists(bs, And(append(guards, body)...)), tBool}
	case "sel":
		return c.sel(e)
	case "index":
		return c.index(e)
	case "slice":
		return c.sliceExpr(e)
	case "assert":
		v := c.eval(e.Args[0]).tm(c)
		s, t := x.specType(e.Name, c.pkg)
		_ = s
		return TV{x.unboxTo(v, t), t}
	case "typecall":
		s, t := x.specType(e.Vars[0].Type, c.pkg)
		switch e.Name {
		case "zero":
			if t == nil {
				if isSeq(s) {
					return TV{seqNil(s), nil}
				}
				c.fail("zero of ghost sort %s", s.Name)
			}
			return TV{zeroOf(t), t}
		case "type", "tagOf":
			return TV{typeTag(t), tInt}
		case "mk":
			st := t.Underlying().(*types.Struct)
			var args []*Term
			for i := 0; i < st.NumFields(); i++ {
				v := c.coerceTo(c.eval(e.Args[i]), sortOf(st.Field(i).Type()), st.Field(i).Type())
				args = append(args, v.tm(c))
			}
			return TV{Mk(s, args...), t}
		case "unboxed":
			return TV{x.unboxTo(c.eval(e.Args[0]).tm(c), t), t}
		}
	case "call":
		return c.call(e)
	}
	c.fail("cannot evaluate %s %s", e.Op, e.Name)
	return TV{}
}

func (c *Ctx) unify(a, b TV) (TV, TV) {
	ta, tb := a.tm(c), b.tm(c)
	if ta.S == tb.S {
		return TV{ta, a.typ}, TV{tb, b.typ}
	}
	if isUntypedNil(a.typ) {
		if b.typ != nil {
			return TV{zeroOf(b.typ), b.typ}, b
		}
		if isSeq(tb.S) {
			return TV{seqNil(tb.S), nil}, b
		}
	}
	if isUntypedNil(b.typ) {
		if a.typ != nil {
			return a, TV{zeroOf(a.typ), a.typ}
		}
		if isSeq(ta.S) {
			return a, TV{seqNil(ta.S), nil}
		}
	}
	rank := func(s *Sort) int {
		switch s {
		case IntS:
			return 1
		case RealS:
			return 2
		case FloatS:
			return 3
		}
		return 0
	}
	if ra, rb := rank(ta.S), rank(tb.S); ra > 0 && rb > 0 {
		if ra < rb {
			return c.coerceTo(a, tb.S, b.typ), b
		}
		return a, c.coerceTo(b, ta.S, a.typ)
	}
	if isSeq(ta.S) {
		return a, c.coerceTo(b, ta.S, nil)
	}
	if isSeq(tb.S) {
		return c.coerceTo(a, tb.S, nil), b
	}
	if ta.S == IfaceS && b.typ != nil {
		return a, TV{mkIface(tb, b.typ), a.typ}
	}
	if tb.S == IfaceS && a.typ != nil {
		return TV{mkIface(ta, a.typ), b.typ}, b
	}
	c.fail("operands of sorts %s and %s", ta.S.Name, tb.S.Name)
	return a, b
}

func (c *Ctx) binary(e *Expr) TV {
	x := c.x
	switch e.Name {
	case "&&":
		a := c.eval(e.Args[0]).tm(c)
		if a == False {
			return TV{False, tBool}
		}
		return TV{And(a, c.eval(e.Args[1]).tm(c)), tBool}
	case "||":
		a := c.eval(e.Args[0]).tm(c)
		if a == True {
			return TV{True, tBool}
		}
		return TV{Or(a, c.eval(e.Args[1]).tm(c)), tBool}
	case "==>":
		a := c.eval(e.Args[0]).tm(c)
		if a == False {
			return TV{True, tBool}
		}
		return TV{Implies(a, c.eval(e.Args[1]).tm(c)), tBool}
	case "<==>":
		return TV{Eq(c.eval(e.Args[0]).tm(c), c.eval(e.Args[1]).tm(c)), tBool}
	}
	a, b := c.eval(e.Args[0]), c.eval(e.Args[1])
	if e.Name == "==" || e.Name == "!=" {
		var r *Term
		nilA, nilB := isUntypedNil(a.typ), isUntypedNil(b.typ)
		if nilA && !nilB {
			a, b = b, a
			nilA, nilB = nilB, nilA
		}
		if nilB && !nilA && a.tm(c).S == SliceS {
			r = Eq(Sel(a.tm(c), 0), Int(0))
		} else if nilB && !nilA && a.tm(c).S == IfaceS {
			r = Eq(Sel(a.tm(c), 0), Int(0))
		} else if _, isA := a.v.(*Addr); isA && nilB {
			r = False
		} else {
			a, b = c.unify(a, b)
			r = Eq(a.tm(c), b.tm(c))
		}
		if e.Name == "!=" {
			r = Not(r)
		}
		return TV{r, tBool}
	}
	a, b = c.unify(a, b)
	s, t := a.tm(c), b.tm(c)
	typ := a.typ
	switch {
	case s.S == FloatS:
		switch e.Name {
		case "<":
			return TV{x.flt(s, t), tBool}
		case ">":
			return TV{x.flt(t, s), tBool}
		case "<=":
			return TV{x.fle(s, t), tBool}
		case ">=":
			return TV{x.fle(t, s), tBool}
		case "+":
			return TV{x.fadd(s, t), typ}
		case "-":
			return TV{x.fadd(s, x.fneg(t)), typ}
		case "*":
			return TV{x.fmul(s, t), typ}
		case "/":
			return TV{x.fdiv(s, t), typ}
		}
	case s.S == StrS && e.Name == "+":
		return TV{x.scat(s, t), tString}
	case s.S == StrS && e.Name == "<":
		return TV{x.strLt(s, t), tBool}
	case s.S == StrS && e.Name == ">":
		return TV{x.strLt(t, s), tBool}
	case s.S == StrS && e.Name == "<=":
		return TV{Not(x.strLt(t, s)), tBool}
	case isSeq(s.S) && e.Name == "+":
		return TV{seqCat(s, t), nil}
	case s.S == IntS || s.S == RealS:
		switch e.Name {
		case "<":
			return TV{Lt(s, t), tBool}
		case ">":
			return TV{Lt(t, s), tBool}
		case "<=":
			return TV{Le(s, t), tBool}
		case ">=":
			return TV{Le(t, s), tBool}
		case "+":
			return TV{Add(s, t), typ}
		case "-":
			return TV{Sub(s, t), typ}
		case "*":
			return TV{Mul(s, t), typ}
		case "/":
			if s.S == RealS {
				return TV{RDiv(s, t), typ}
			}
			return TV{Div(s, t), typ}
		case "%":
			return TV{Mod(s, t), typ}
		}
	}
	c.fail("operator %s on %s", e.Name, s.S.Name)
	return TV{}
}

func (c *Ctx) typPkg() *types.Package { return c.x.P.typePkg(c.pkg) }

func (c *Ctx) ident(n string) TV {
	if v, ok := c.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return TV{True, tBool}
	case "false":
		return TV{False, tBool}
	case "nil":
		return TV{Int(0), types.Typ[types.UntypedNil]}
	case "NaN":
		return TV{floatNaN, types.Typ[types.Float64]}
	case "$i":
		if c.loop != nil && c.loop.iter != nil {
			return TV{c.loop.iter, tInt}
		}
		c.fail("no iteration counter here")
	case "$seen":
		if c.loop != nil && c.loop.seen != nil {
			return TV{c.loop.seen, nil}
		}
		c.fail("no map iteration here")
	}
	if c.fr != nil {
		if v, ok := c.x.resolveName(c.fr, c.head, c.st, n); ok {
			return v
		}
	}
	if f, ok := c.x.spec.funcs[n]; ok && len(f.Params) == 0 {
		if f.Body != nil && !f.Rec {
			return c.macroCtx(f, nil).eval(f.Body)
		}
		s, t := c.x.specType(f.Ret, f.Pkg)
		return TV{App("sp."+f.Name, s), t}
	}
	for _, s := range sortTable {
		for _, k := range s.Ctors {
			if k.Name == n && len(k.Fields) == 0 {
				return TV{MkC(s, n), nil}
			}
		}
	}
	if p := c.typPkg(); p != nil {
		if o := p.Scope().Lookup(n); o != nil {
			return c.object(o)
		}
	}
	c.fail("unknown identifier %s", n)
	return TV{}
}

func (c *Ctx) object(o types.Object) TV {
	x := c.x
	switch o := o.(type) {
	case *types.Const:
		return TV{constTerm(o.Val(), o.Type()), o.Type()}
	case *types.Var:
		sp := x.P.prog.ImportedPackage(o.Pkg().Path())
		if sp == nil {
			sp = x.P.prog.Package(o.Pkg())
		}
		if sp != nil {
			if g := sp.Var(o.Name()); g != nil {
				if t := x.constGlobal(g); t != nil {
					return TV{t, o.Type()}
				}
				if _, isS := o.Type().Underlying().(*types.Struct); isS {
					return TV{&lazyAgg{x.globalRef(g), o.Type()}, o.Type()}
				}
				if isAggregate(o.Type()) {
					return TV{x.load(c.st, x.globalRef(g), o.Type()), o.Type()}
				}
				return TV{x.load(c.st, &Addr{key: x.globalKey(g), typ: o.Type()}, o.Type()), o.Type()}
			}
		}
		c.fail("global %s not found", o)
	case *types.Func:
		f := x.P.prog.FuncValue(o)
		if f == nil {
			c.fail("function %s not found", o)
		}
		return TV{x.fnRef(f), o.Type()}
	}
	c.fail("object %s", o)
	return TV{}
}

func (c *Ctx) pkgByName(n string) *types.Package {
	if _, ok := c.vars[n]; ok {
		return nil
	}
	return c.x.P.lookupPkg(c.pkg, n)
}

// fieldOf selects field path from v.
func (c *Ctx) fieldOf(v TV, name string) (TV, bool) {
	x := c.x
	if v.typ == nil {
		t := v.tm(c)
		if t.S.Kind == SData {
			for _, k := range t.S.Ctors {
				for _, f := range k.Fields {
					if f.Name == name || f.Name == t.S.Name+"."+name {
						return TV{SelC(t, k.Name, f.Name), x.ghostFieldType(t.S.Name, name)}, true
					}
				}
			}
		}
		return TV{}, false
	}
	// ghost fields
	bt := v.typ
	isPtr := false
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
		isPtr = true
	}
	for _, g := range x.ghosts {
		if g.Field == name && g.Type == shortType(types.Unalias(bt)) {
			s, gt := x.specType(g.Sort, g.Pkg)
			k := x.ghostKey(g.Type, g.Field, s)
			var ref *Term
			if types.IsInterface(bt) {
				ref = Sel(v.tm(c), 1)
			} else if isPtr {
				ref = v.tm(c)
			} else if l, ok := v.v.(*lazyAgg); ok {
				ref = TV{l.ptr, types.NewPointer(l.typ)}.tm(c)
			} else {
				c.fail("ghost field %s needs a pointer", name)
			}
			gv := Select(x.get(c.st, k), ref)
			if gt != nil {
				x.noteType(c.st, gv, gt)
			}
			return TV{gv, gt}, true
		}
	}
	pk := c.typPkg()
	if n, ok := types.Unalias(bt).(*types.Named); ok && n.Obj().Pkg() != nil {
		pk = n.Obj().Pkg()
	}
	o, path, _ := types.LookupFieldOrMethod(v.typ, true, pk, name)
	if _, ok := o.(*types.Var); !ok {
		return TV{}, false
	}
	cur := v
	for _, i := range path {
		cur = c.step(cur, i)
	}
	return cur, true
}

func (c *Ctx) step(v TV, i int) TV {
	x := c.x
	if p, ok := v.typ.Underlying().(*types.Pointer); ok {
		ft := p.Elem().Underlying().(*types.Struct).Field(i).Type()
		fp := x.fieldPtr(v.v, p.Elem(), i)
		// keep embedded aggregates addressable
		if isAggregate(ft) {
			if isOpaque(ft) {
				return TV{fp, types.NewPointer(ft)}
			}
			if t, ok := fp.(*Term); ok {
				return TV{&lazyAgg{t, ft}, ft}
			}
		}
		return TV{x.load(c.st, fp, ft), ft}
	}
	if l, ok := v.v.(*lazyAgg); ok {
		return c.step(TV{l.ptr, types.NewPointer(l.typ)}, i)
	}
	st := v.typ.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	r := Sel(v.tm(c), i)
	x.noteType(c.st, r, ft)
	return TV{r, ft}
}

// lazyAgg: a struct that is part of an object on the heap.
type lazyAgg struct {
	ptr *Term
	typ types.Type
}

func (c *Ctx) force(v TV) TV {
	if l, ok := v.v.(*lazyAgg); ok {
		return TV{c.x.load(c.st, l.ptr, l.typ), l.typ}
	}
	return v
}

func (c *Ctx) selRaw(e *Expr) TV {
	if e.Op == "sel" {
		if e.Args[0].Op == "ident" {
			if p := c.pkgByName(e.Args[0].Name); p != nil {
				if _, isVar := c.tryLocal(e.Args[0].Name); !isVar {
					o := p.Scope().Lookup(e.Name)
					if o == nil {
						c.fail("%s.%s not found", p.Path(), e.Name)
					}
					return c.object(o)
				}
			}
		}
		v := c.selRaw(e.Args[0])
		r, ok := c.fieldOf(v, e.Name)
		if !ok {
			// method value
			c.fail("no field %s in %v", e.Name, v.typ)
		}
		return r
	}
	return c.eval(e)
}

func (c *Ctx) tryLocal(n string) (TV, bool) {
	if v, ok := c.vars[n]; ok {
		return v, true
	}
	if c.fr != nil {
		if v, ok := c.x.resolveName(c.fr, c.head, c.st, n); ok {
			return v, true
		}
	}
	return TV{}, false
}

func (c *Ctx) sel(e *Expr) TV { return c.force(c.selRaw(e)) }

func (c *Ctx) addrOf(e *Expr) Val {
	if e.Op == "sel" {
		v := c.selRaw(e.Args[0])
		if p, ok := v.typ.Underlying().(*types.Pointer); ok {
			pk := c.typPkg()
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg()
			}
			o, path, _ := types.LookupFieldOrMethod(v.typ, true, pk, e.Name)
			if o == nil || len(path) != 1 {
				c.fail("address of %s", e.Name)
			}
			return c.x.fieldPtr(v.v, p.Elem(), path[0])
		}
	}
	c.fail("address of %s", e.Op)
	return nil
}

func (c *Ctx) index(e *Expr) TV {
	x := c.x
	v := c.eval(e.Args[0])
	i := c.eval(e.Args[1])
	if v.typ != nil {
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			s := v.tm(c)
			arr := x.sliceArr(c.st, u.Elem(), Sel(s, 0))
			r := Select(arr, Add(Sel(s, 1), i.tm(c)))
			x.noteType(c.st, r, u.Elem())
			return TV{r, u.Elem()}
		case *types.Map:
			k := c.coerceTo(i, sortOf(u.Key()), u.Key())
			return TV{x.mapGet(c.st, u, v.tm(c), k.tm(c)), u.Elem()}
		case *types.Array:
			return TV{Select(v.tm(c), i.tm(c)), u.Elem()}
		case *types.Basic:
			return TV{x.strAt(v.tm(c), i.tm(c)), types.Typ[types.Byte]}
		}
	}
	t := v.tm(c)
	if isSeq(t.S) {
		et := x.seqElem[t]
		if et == nil {
			et = x.sortType(t.S.Elem)
		}
		return TV{seqAt(t, i.tm(c)), et}
	}
	if t.S.Kind == SArray {
		return TV{Select(t, i.tm(c)), x.sortType(t.S.Elem)}
	}
	c.fail("index of %s", t.S.Name)
	return TV{}
}

// sortType: a Go type with the given sort, where one is known.
func (x *Exec) sortType(s *Sort) types.Type {
	switch s {
	case IntS:
		return tInt
	case BoolS:
		return tBool
	case StrS:
		return tString
	}
	return x.typeOfSort[s]
}

func (c *Ctx) sliceExpr(e *Expr) TV {
	x := c.x
	v := c.eval(e.Args[0])
	t := v.tm(c)
	lo := Int(0)
	if e.Args[1] != nil {
		lo = c.eval(e.Args[1]).tm(c)
	}
	var hi *Term
	if e.Args[2] != nil {
		hi = c.eval(e.Args[2]).tm(c)
	}
	switch {
	case t.S == StrS:
		if hi == nil {
			hi = x.strLen(t)
		}
		return TV{x.substr(t, lo, hi), tString}
	case t.S == SliceS:
		if hi == nil {
			hi = Sel(t, 2)
		}
		return TV{Mk(SliceS, Sel(t, 0), Add(Sel(t, 1), lo), Sub(hi, lo), Sub(Sel(t, 3), lo)), v.typ}
	case isSeq(t.S):
		if hi == nil {
			hi = seqLen(t)
		}
		return TV{seqSub(t, lo, hi), nil}
	}
	c.fail("slice of %s", t.S.Name)
	return TV{}
}

func (c *Ctx) refOf(v TV) *Term {
	t := v.tm(c)
	switch t.S {
	case SliceS:
		return Sel(t, 0)
	case IfaceS:
		return Sel(t, 1)
	}
	return t
}

func (c *Ctx) call(e *Expr) TV {
	x := c.x
	fe := e.Args[0]
	args := e.Args[1:]
	if fe.Op == "ident" {
		lv, local := c.tryLocal(fe.Name)
		if local && lv.typ != nil {
			_, local = lv.typ.Underlying().(*types.Signature)
		}
		if !local {
			if r, ok := c.builtinCall(fe.Name, args); ok {
				return r
			}
			if f := x.spec.funcs[fe.Name]; f != nil {
				return c.specCall(f, args)
			}
			for _, s := range sortTable {
				if k := ctorOf(s, fe.Name); k != nil {
					var as []*Term
					for i, f := range k.Fields {
						as = append(as, c.coerceTo(c.eval(args[i]), f.Sort, nil).tm(c))
					}
					return TV{MkC(s, fe.Name, as...), nil}
				}
				if strings.HasPrefix(fe.Name, "is_") && ctorOf(s, fe.Name[3:]) != nil {
					return TV{IsC(c.eval(args[0]).tm(c), fe.Name[3:]), tBool}
				}
			}
		}
	}
	// method call or function from a package
	if fe.Op == "sel" {
		isPkg := false
		if fe.Args[0].Op == "ident" {
			if _, isVar := c.tryLocal(fe.Args[0].Name); !isVar && c.pkgByName(fe.Args[0].Name) != nil {
				isPkg = true
			}
		}
		if !isPkg {
			rv := c.selRaw(fe.Args[0])
			if rv.typ != nil {
				pk := c.typPkg()
				bt := rv.typ
				if p, ok := bt.Underlying().(*types.Pointer); ok {
					bt = p.Elem()
				}
				if n, ok := types.Unalias(bt).(*types.Named); ok && n.Obj().Pkg() != nil {
					pk = n.Obj().Pkg()
				}
				o, path, _ := types.LookupFieldOrMethod(rv.typ, true, pk, fe.Name)
				if m, ok := o.(*types.Func); ok {
					return c.methodCall(rv, path, m, args)
				}
			}
		}
	}
	fv := c.eval(fe)
	if fv.typ == nil {
		c.fail("call of untyped value")
	}
	pure := false
	if fe.Op == "sel" && fe.Args[0].Op == "ident" {
		if p := c.pkgByName(fe.Args[0].Name); p != nil {
			k := x.spec.contracts[strings.TrimPrefix(p.Path(), modulePath+"/")+"."+fe.Name]
			pure = k != nil && k.Pure
		}
	} else if fe.Op == "ident" {
		k := x.spec.contracts[c.pkg+"."+fe.Name]
		pure = k != nil && k.Pure
	}
	sig, ok := fv.typ.Underlying().(*types.Signature)
	if !ok {
		c.fail("call of non-function %s", exprTypeText(fe))
	}
	var vs []Val
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		a := c.eval(args[i])
		if pure && isSeqVal(a) { // pure functions see slices as sequences
			vs = append(vs, a.v)
			continue
		}
		vs = append(vs, c.coerceTo(a, sortOf(pt), pt).v)
	}
	return c.run(sig, func(st *State) []*exit { return x.callValue(nil, st, fv.tm(c), sig, vs, 0) })
}

func isSeqVal(v TV) bool {
	t, ok := v.v.(*Term)
	return ok && isSeq(t.S)
}

func (c *Ctx) methodCall(rv TV, path []int, m *types.Func, args []*Expr) TV {
	x := c.x
	for _, i := range path[:len(path)-1] {
		rv = c.step(rv, i)
	}
	sig := m.Type().(*types.Signature)
	var vs []Val
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		vs = append(vs, c.coerceTo(c.eval(args[i]), sortOf(pt), pt).v)
	}
	if types.IsInterface(rv.typ) {
		r := c.force(rv).tm(c)
		return c.run(sig, func(st *State) []*exit { return x.invoke(nil, st, r, rv.typ, m, vs, 0) })
	}
	f := x.P.prog.FuncValue(m)
	if f == nil {
		c.fail("method %s", m)
	}
	recvT := sig.Recv().Type()
	_, wantPtr := recvT.Underlying().(*types.Pointer)
	_, havePtr := rv.typ.Underlying().(*types.Pointer)
	var r Val
	switch {
	case wantPtr && havePtr:
		r = rv.v
	case wantPtr:
		if l, ok := rv.v.(*lazyAgg); ok {
			r = l.ptr
		} else {
			c.fail("method %s needs an address", m.Name())
		}
	case havePtr:
		r = x.load(c.st, rv.v, rv.typ.Underlying().(*types.Pointer).Elem())
	default:
		r = c.force(rv).v
	}
	return c.run(sig, func(st *State) []*exit { return x.callFn(nil, st, f, append([]Val{r}, vs...), nil, 0) })
}

// run executes program code inside a specification.
func (c *Ctx) run(sig *types.Signature, f func(*State) []*exit) TV {
	x := c.x
	x.dry++
	x.inspec++
	sp, safe := x.split, x.safe
	x.split, x.safe = false, false
	st := c.st.clone()
	pc0 := st.pc
	es := f(st)
	x.split, x.safe = sp, safe
	x.dry--
	x.inspec--
	if len(es) == 0 {
		if sig.Results().Len() == 0 {
			return TV{True, tBool}
		}
		t := sig.Results().At(0).Type()
		return TV{Fresh("none", sortOf(t)), t}
	}
	e := es[0]
	if len(es) > 1 {
		c.fail("code in specification does not merge")
	}
	// facts learned while running
	var seg []*Term
	for n := e.st.facts; n != nil && n != c.st.facts; n = n.up {
		seg = append(seg, n.t)
	}
	rel := True
	if e.st.pc != pc0 {
		old := map[*Term]bool{}
		for _, k := range conjuncts(pc0) {
			old[k] = true
		}
		var r []*Term
		for _, k := range conjuncts(e.st.pc) {
			if !old[k] {
				r = append(r, k)
			}
		}
		rel = And(r...)
	}
	for i := len(seg) - 1; i >= 0; i-- {
		if !seg[i].hasB && !rel.hasB {
			c.st.assume(Implies(rel, seg[i]))
		}
	}
	c.effect = e.st
	if sig.Results().Len() == 0 {
		return TV{True, tBool}
	}
	if sig.Results().Len() > 1 {
		return TV{e.res, sig.Results()}
	}
	return TV{e.res[0], sig.Results().At(0).Type()}
}

func (c *Ctx) specCall(f *SpecFunc, args []*Expr) TV {
	x := c.x
	if f.Body != nil && !f.Rec {
		s, t := x.specType(f.Ret, f.Pkg)
		r := c.macroCtx(f, args).eval(f.Body)
		if s == BoolS && t == nil {
			t = tBool
		}
		return c.coerceTo(r, s, t)
	}
	var as []*Term
	if len(args) != len(f.Params) {
		c.fail("%s expects %d arguments", f.Name, len(f.Params))
	}
	for i, p := range f.Params {
		s, t := x.specType(p.Type, f.Pkg)
		as = append(as, c.coerceTo(c.eval(args[i]), s, t).tm(c))
	}
	s, t := x.specType(f.Ret, f.Pkg)
	r := App("sp."+f.Name, s, as...)
	return TV{r, t}
}

func (c *Ctx) builtinCall(name string, args []*Expr) (TV, bool) {
	x := c.x
	ev := func(i int) TV { return c.eval(args[i]) }
	tm := func(i int) *Term { return c.eval(args[i]).tm(c) }
	switch name {
	case "old":
		n := *c
		n.st = c.old
		n.fr = nil
		if n.st == nil {
			c.fail("old() outside a postcondition")
		}
		for f := c.fr; f != nil; f = f.parent { // parameters denote their values on entry
			if f.specVars != nil {
				m := map[string]TV{}
				for k, v := range f.specVars {
					m[k] = v
				}
				for k, v := range c.vars {
					m[k] = v
				}
				n.vars = m
				break
			}
		}
		return n.eval(args[0]), true
	case "entry": // value when the loop was reached
		n := *c
		if c.loop == nil {
			c.fail("entry() outside a loop invariant")
		}
		n.st = c.loop.entry
		if len(args) == 2 { // entry(k, e): when loop k was reached
			k, err := strconv.Atoi(args[0].Name)
			if err != nil || c.x.loopIn[k] == nil {
				c.fail("entry(%s, ...): no such loop has been reached", args[0].Name)
			}
			n.st = c.x.loopIn[k]
			n.head = nil
			return n.eval(args[1]), true
		}
		return n.eval(args[0]), true
	case "len":
		v := ev(0)
		t := v.tm(c)
		switch {
		case isSeq(t.S):
			return TV{seqLen(t), tInt}, true
		case t.S == SliceS:
			return TV{Sel(t, 2), tInt}, true
		case t.S == StrS:
			return TV{x.strLen(t), tInt}, true
		}
		if mt, ok := v.typ.Underlying().(*types.Map); ok {
			return TV{x.mapLen(c.st, mt, t), tInt}, true
		}
	case "cap":
		return TV{Sel(tm(0), 3), tInt}, true
	case "ref":
		return TV{c.refOf(ev(0)), tInt}, true
	case "off":
		return TV{Sel(tm(0), 1), tInt}, true
	case "view":
		v := ev(0)
		if isSeqVal(v) {
			return v, true
		}
		if v.tm(c).S == StrS {
			return TV{x.strBytes(v.tm(c)), nil}, true
		}
		if at, ok := v.typ.Underlying().(*types.Array); ok { // an array value
			ss := SeqSort(sortOf(at.Elem()))
			r := App("view."+sfx(ss), ss, v.tm(c), Int(0), Int(at.Len()))
			x.seqElem[r] = at.Elem()
			return TV{r, nil}, true
		}
		et := v.typ.Underlying().(*types.Slice).Elem()
		r := x.viewOf(c.st, v.tm(c), et)
		x.seqElem[r] = et
		return TV{r, nil}, true
	case "bytes":
		return TV{x.strBytes(tm(0)), nil}, true
	case "str":
		return TV{x.strOf(tm(0)), tString}, true
	case "one":
		t := tm(0)
		return TV{seqOne(SeqSort(t.S), t), nil}, true
	case "cat":
		r := tm(0)
		for i := 1; i < len(args); i++ {
			o := c.coerceTo(ev(i), r.S, nil).tm(c)
			r = seqCat(r, o)
		}
		return TV{r, nil}, true
	case "has":
		v := ev(0)
		mt, ok := v.typ.Underlying().(*types.Map)
		if !ok {
			c.fail("has() of a non-map")
		}
		k := c.coerceTo(ev(1), sortOf(mt.Key()), mt.Key())
		return TV{x.mapHas(c.st, mt, v.tm(c), k.tm(c)), tBool}, true
	case "dom":
		v := ev(0)
		d, _ := x.mapRead(c.st, v.typ.Underlying().(*types.Map), v.tm(c))
		return TV{d, nil}, true
	case "mk": // mk(T, field values): a struct value
		srt, t := x.specType(exprTypeText(args[0]), c.pkg)
		st, ok := t.Underlying().(*types.Struct)
		if !ok || st.NumFields() != len(args)-1 {
			c.fail("mk() of %s with %d values", t, len(args)-1)
		}
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			as = append(as, c.coerceTo(ev(i+1), sortOf(ft), ft).tm(c))
		}
		return TV{Mk(srt, as...), t}, true
	case "mval":
		v := ev(0)
		_, d := x.mapRead(c.st, v.typ.Underlying().(*types.Map), v.tm(c))
		return TV{d, nil}, true
	case "fields": // fields(T.f): the field of every object, as a total function
		_, t := x.specType(exprTypeText(args[0].Args[0]), c.pkg)
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.fail("fields() of %s", t)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == args[0].Name {
				return TV{x.get(c.st, x.fieldKey(t, i)), nil}, true
			}
		}
		c.fail("no field %s", args[0].Name)
	case "fresh":
		o := c.old
		if o == nil {
			c.fail("fresh() needs a previous state")
		}
		return TV{Le(Add(o.base.t, Int(o.nalloc*refStep)), c.refOf(ev(0))), tBool}, true
	case "allocated":
		return TV{mkTerm("<=", "", BoolS, Add(c.refOf(ev(0)), Int(1)), Add(c.st.base.t, Int(c.st.nalloc*refStep))), tBool}, true
	case "tag":
		return TV{Sel(tm(0), 0), tInt}, true
	case "pay":
		return TV{Sel(tm(0), 1), tInt}, true
	case "val":
		return TV{Sel(tm(0), 1), nil}, true
	case "kind":
		return TV{Sel(tm(0), 0), tInt}, true
	case "isFinite":
		return TV{Eq(Sel(tm(0), 0), Int(0)), tBool}, true
	case "isNaN":
		return TV{Eq(Sel(tm(0), 0), Int(1)), tBool}, true
	case "real":
		return TV{ToReal(tm(0)), nil}, true
	case "float":
		t := tm(0)
		if t.S == IntS {
			t = ToReal(t)
		}
		return TV{fin(t), types.Typ[types.Float64]}, true
	case "iface":
		v := ev(0)
		return TV{mkIface(v.tm(c), v.typ), types.NewInterfaceType(nil, nil)}, true
	case "implements":
		_, t := x.specType(exprTypeText(args[1]), c.pkg)
		return TV{x.hasType(tm(0), t), tBool}, true
	case "first", "second", "third":
		v := ev(0)
		tup, ok := v.v.([]Val)
		if !ok {
			if name == "first" {
				return v, true
			}
			c.fail("%s of a single value", name)
		}
		i := map[string]int{"first": 0, "second": 1, "third": 2}[name]
		return TV{tup[i], v.typ.(*types.Tuple).At(i).Type()}, true
	case "prefix": // prefix(p, s): s starts with p
		a, b := tm(0), tm(1)
		if a.S == StrS {
			a = x.strBytes(a)
		}
		if b.S == StrS {
			b = x.strBytes(b)
		}
		return TV{App("sq.pre."+sfx(a.S), BoolS, a, b), tBool}, true
	case "format": // format(f, args): what fmt makes of them
		return TV{c.formatText(args[0], args[1]), nil}, true
	case "init": // all but the last element
		t := tm(0)
		return TV{App("sq.init."+sfx(t.S), t.S, t), nil}, true
	case "sub":
		return TV{seqSub(tm(0), tm(1), tm(2)), nil}, true
	case "setadd":
		return TV{Store(tm(0), tm(1), True), nil}, true
	case "upd":
		a := tm(0)
		return TV{Store(a, c.coerceTo(ev(1), a.S.Idx, nil).tm(c), c.coerceTo(ev(2), a.S.Elem, nil).tm(c)), nil}, true
	}
	return TV{}, false
}

func exprTypeText(e *Expr) string {
	switch e.Op {
	case "ident":
		return e.Name
	case "sel":
		return exprTypeText(e.Args[0]) + "." + e.Name
	case "unary":
		return e.Name + exprTypeText(e.Args[0])
	}
	return "?"
}

// places: the heap cells a modifies item denotes.
// noRef is no object's reference.
var noRef = Int(-(int64(1) << 42))

func (c *Ctx) places(e *Expr) []place {
	x := c.x
	if e.Op == "call" && e.Args[0].Op == "ident" {
		switch e.Args[0].Name {
		case "when": // when(cond, item): the item, and only if cond holds
			cond := c.st.known(c.eval(e.Args[1]).tm(c))
			var out []place
			for _, it := range e.Args[2:] {
				if cond.Op == "false" {
					continue
				}
				for _, p := range c.places(it) {
					if p.ref == nil {
						c.fail("when() needs a place with a reference")
					}
					p.ref = Ite(cond, p.ref, noRef)
					out = append(out, p)
				}
			}
			return out
		case "pointee": // pointee(v, T): the variable of type T that v, an interface, holds a pointer to
			v := c.eval(e.Args[1])
			_, t := x.specType(exprTypeText(e.Args[2]), c.pkg)
			return []place{{x.cellKey(t), Sel(v.tm(c), 1), nil}}
		case "spare": // the elements between length and capacity
			v := c.eval(e.Args[1])
			t := v.tm(c)
			end := Add(Sel(t, 1), Sel(t, 2))
			return []place{{key: x.sliceKey(v.typ.Underlying().(*types.Slice).Elem()), ref: Sel(t, 0), rng: &span{end, Add(Sel(t, 1), Sel(t, 3))}}}
		case "elems":
			v := c.eval(e.Args[1])
			return []place{{x.sliceKey(v.typ.Underlying().(*types.Slice).Elem()), Sel(v.tm(c), 0), nil}}
		case "map":
			v := c.eval(e.Args[1])
			mt := v.typ.Underlying().(*types.Map)
			d, w := x.mapKeys(mt)
			return []place{{d, v.tm(c), nil}, {w, v.tm(c), nil}, {x.mapLenKey(mt), v.tm(c), nil}}
		case "allelems":
			_, t := x.specType(exprTypeText(e.Args[1]), c.pkg)
			return []place{{x.sliceKey(t), nil, nil}}
		case "allcells": // every variable of a type that is held by a pointer
			_, t := x.specType(exprTypeText(e.Args[1]), c.pkg)
			return []place{{x.cellKey(t), nil, nil}}
		case "all": // all(T.f): the field in every object
			se := e.Args[1]
			_, t := x.specType(exprTypeText(se.Args[0]), c.pkg)
			for _, g := range x.ghosts {
				if g.Field == se.Name && g.Type == shortType(types.Unalias(t)) {
					s := x.specSort(g.Sort, g.Pkg)
					return []place{{x.ghostKey(g.Type, g.Field, s), nil, nil}}
				}
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				c.fail("all() of %s", t)
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == se.Name {
					return []place{{x.fieldKey(t, i), nil, nil}}
				}
			}
			c.fail("no field %s", se.Name)
		case "allmaps": // allmaps(T), or allmaps(T.f): every map of the type of that field
			te, fld := e.Args[1], ""
			if te.Op == "sel" && c.pkgByName(te.Args[0].Name) == nil {
				te, fld = te.Args[0], te.Name
			}
			_, t := x.specType(exprTypeText(te), c.pkg)
			if fld != "" {
				st := t.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == fld {
						t = st.Field(i).Type()
					}
				}
			}
			mt := t.Underlying().(*types.Map)
			d, w := x.mapKeys(mt)
			return []place{{d, nil, nil}, {w, nil, nil}, {x.mapLenKey(mt), nil, nil}}
		}
	}
	if e.Op == "unary" && e.Name == "*" {
		v := c.eval(e.Args[0])
		return x.ptrPlaces(v.v, v.typ.Underlying().(*types.Pointer).Elem(), c)
	}
	if e.Op == "sel" {
		if e.Args[0].Op == "ident" {
			if p := c.pkgByName(e.Args[0].Name); p != nil {
				if _, isVar := c.tryLocal(e.Args[0].Name); !isVar {
					return c.globalPlace(p, e.Name)
				}
			}
		}
		v := c.selRaw(e.Args[0])
		bt := v.typ
		if l, ok := v.v.(*lazyAgg); ok {
			v = TV{l.ptr, types.NewPointer(l.typ)}
			bt = v.typ
		}
		p, ok := bt.Underlying().(*types.Pointer)
		if !ok {
			if types.IsInterface(bt) {
				for _, g := range x.ghosts {
					if g.Field == e.Name && g.Type == shortType(types.Unalias(bt)) {
						return []place{{x.ghostKey(g.Type, g.Field, x.specSort(g.Sort, g.Pkg)), Sel(v.tm(c), 1), nil}}
					}
				}
			}
			c.fail("modifies: %s is not a field of an object", e.Name)
		}
		for _, g := range x.ghosts {
			if g.Field == e.Name && g.Type == shortType(types.Unalias(p.Elem())) {
				return []place{{x.ghostKey(g.Type, g.Field, x.specSort(g.Sort, g.Pkg)), v.tm(c), nil}}
			}
		}
		pk := c.typPkg()
		if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil {
			pk = n.Obj().Pkg()
		}
		o, path, _ := types.LookupFieldOrMethod(v.typ, true, pk, e.Name)
		if _, ok := o.(*types.Var); !ok {
			c.fail("modifies: no field %s", e.Name)
		}
		cur := v
		for _, i := range path[:len(path)-1] {
			cur = c.step(cur, i)
			if l, ok := cur.v.(*lazyAgg); ok {
				cur = TV{l.ptr, types.NewPointer(l.typ)}
			}
		}
		st := cur.typ.Underlying().(*types.Pointer).Elem()
		i := path[len(path)-1]
		ft := st.Underlying().(*types.Struct).Field(i).Type()
		fp := x.fieldPtr(cur.v, st, i)
		return x.ptrPlaces(fp, ft, c)
	}
	if e.Op == "ident" {
		if p := c.typPkg(); p != nil {
			return c.globalPlace(p, e.Name)
		}
	}
	c.fail("cannot interpret modifies item")
	return nil
}

func (c *Ctx) globalPlace(p *types.Package, name string) []place {
	x := c.x
	o, ok := p.Scope().Lookup(name).(*types.Var)
	if !ok {
		c.fail("modifies: global %s", name)
	}
	sp := x.P.prog.ImportedPackage(p.Path())
	if sp == nil {
		sp = x.P.prog.Package(p)
	}
	g := sp.Var(name)
	if isAggregate(o.Type()) {
		return x.ptrPlaces(x.globalRef(g), o.Type(), c)
	}
	return []place{{x.globalKey(g), nil, nil}}
}

func (x *Exec) ptrPlaces(p Val, t types.Type, c *Ctx) []place {
	switch a := p.(type) {
	case *Addr:
		return []place{{a.key, a.ref, nil}}
	case *Term:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if isOpaque(t) {
				var out []place
				out = append(out, place{x.cellKey(t), a, nil})
				for _, g := range x.ghosts {
					if g.Type == shortType(types.Unalias(t)) {
						out = append(out, place{x.ghostKey(g.Type, g.Field, x.specSort(g.Sort, g.Pkg)), a, nil})
					}
				}
				return out
			}
			var out []place
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, x.ptrPlaces(x.fieldPtr(a, t, i), u.Field(i).Type(), c)...)
			}
			return out
		case *types.Array:
			return []place{{x.sliceKey(u.Elem()), a, nil}}
		}
		return []place{{x.cellKey(t), a, nil}}
	}
	return nil
}

// ---------------------------------------------------------------------------
// Types in specifications

func (x *Exec) specSort(text, pkg string) *Sort {
	s, _ := x.specType(text, pkg)
	return s
}

func (x *Exec) specType(text, pkg string) (*Sort, types.Type) {
	text = strings.TrimSpace(text)
	switch text {
	case "real":
		return RealS, nil
	case "Str":
		return StrS, tString
	}
	if strings.HasPrefix(text, "seq[") {
		s, t := x.specType(text[4:len(text)-1], pkg)
		if t != nil {
			x.typeOfSort[s] = t
		}
		return SeqSort(s), nil
	}
	if strings.HasPrefix(text, "set[") {
		s, _ := x.specType(text[4:len(text)-1], pkg)
		return ArrayS(s, BoolS), nil
	}
	if strings.HasPrefix(text, "fmap[") { // fmap[K]V: a total ghost function
		d := 0
		for i, ch := range text {
			if ch == '[' {
				d++
			}
			if ch == ']' {
				d--
				if d == 0 {
					k, _ := x.specType(text[5:i], pkg)
					v, _ := x.specType(text[i+1:], pkg)
					return ArrayS(k, v), nil
				}
			}
		}
	}
	if s, ok := sortTable[text]; ok && (len(s.Ctors) > 0 || s.Kind == SUninterp) {
		return s, nil
	}
	t := x.goType(text, pkg)
	if t == nil {
		panic(unsup{"specification: unknown type " + text + " in package " + pkg})
	}
	return sortOf(t), t
}

// mark records the Go element type of a sequence value.
func (x *Exec) mark(v TV, text, pkg string) TV {
	text = strings.TrimSpace(text)
	if t, ok := v.v.(*Term); ok && isSeq(t.S) && strings.HasPrefix(text, "seq[") {
		if _, et := x.specType(text[4:len(text)-1], pkg); et != nil {
			x.seqElem[t] = et
		}
	}
	return v
}

func (x *Exec) goType(text, pkg string) types.Type {
	text = strings.TrimSpace(text)
	switch {
	case strings.HasPrefix(text, "*"):
		if t := x.goType(text[1:], pkg); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(text, "[]"):
		if t := x.goType(text[2:], pkg); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(text, "map["):
		d := 0
		for i, ch := range text {
			if ch == '[' {
				d++
			}
			if ch == ']' {
				d--
				if d == 0 {
					k, v := x.goType(text[4:i], pkg), x.goType(text[i+1:], pkg)
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
	case strings.HasPrefix(text, "["):
		i := strings.Index(text, "]")
		n, err := strconv.Atoi(text[1:i])
		t := x.goType(text[i+1:], pkg)
		if err == nil && t != nil {
			return types.NewArray(t, int64(n))
		}
		return nil
	case text == "any":
		return types.Universe.Lookup("any").Type()
	}
	if o := types.Universe.Lookup(text); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.Index(text, "."); i >= 0 {
		p := x.P.lookupPkg(pkg, text[:i])
		if p == nil {
			return nil
		}
		if o, ok := p.Scope().Lookup(text[i+1:]).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	if p := x.P.typePkg(pkg); p != nil {
		if o, ok := p.Scope().Lookup(text).(*types.TypeName); ok {
			return o.Type()
		}
	}
	return nil
}

func (x *Exec) ghostFieldType(sort, field string) types.Type { return x.dtTypes[sort+"."+field] }

// setupSpec declares the datatypes of the contract files.
func (x *Exec) setupSpec() {
	for _, d := range x.spec.dts {
		if _, ok := sortTable[d.Name]; ok && len(sortTable[d.Name].Ctors) > 0 {
			continue
		}
		s := regSort(&Sort{Kind: SData, Name: d.Name})
		s.Ctors = []SCtor{{Name: "?"}}
		var cs []SCtor
		for _, k := range d.Ctors {
			sc := SCtor{Name: k.Name}
			for _, f := range k.Fields {
				fs, ft := x.specType(f.Type, d.Pkg)
				sc.Fields = append(sc.Fields, SField{f.Name, fs})
				x.dtTypes[d.Name+"."+f.Name] = ft
			}
			cs = append(cs, sc)
		}
		s.Ctors = cs
	}
	for _, f := range x.spec.funcs {
		if f.Body != nil && !f.Rec {
			continue
		}
		s, _ := x.specType(f.Ret, f.Pkg)
		var as []*Sort
		for _, p := range f.Params {
			ps, _ := x.specType(p.Type, f.Pkg)
			as = append(as, ps)
		}
		DeclFunc("sp."+f.Name, s, as...)
	}
}

func (P *Program) typePkg(path string) *types.Package {
	if path == "" {
		return nil
	}
	if p, ok := P.tpkgs[path]; ok {
		return p
	}
	if p, ok := P.tpkgs[modulePath+"/"+path]; ok {
		return p
	}
	return nil
}

// lookupPkg resolves a package name as seen from pkg.
func (P *Program) lookupPkg(pkg, name string) *types.Package {
	if p := P.typePkg(pkg); p != nil {
		if p.Name() == name {
			return p
		}
		for _, i := range p.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	return P.byName[name]
}
