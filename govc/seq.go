package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Mathematical sequences: views of slices, strings as byte sequences.

func SeqSort(e *Sort) *Sort {
	n := "Seq." + sanitize(e.Name)
	s := UninterpSort(n)
	if s.Elem == nil {
		s.Elem = e
		setupSeq(s)
	}
	return s
}

func isSeq(s *Sort) bool {
	return s.Kind == SUninterp && strings.HasPrefix(s.Name, "Seq.") && s.Elem != nil
}

func sfx(s *Sort) string { return strings.TrimPrefix(s.Name, "Seq.") }

func seqNil(s *Sort) *Term          { return App("sq.nil."+sfx(s), s) }
func seqOne(s *Sort, v *Term) *Term { return App("sq.one."+sfx(s), s, v) }
func seqCat(a, b *Term) *Term       { return App("sq.cat."+sfx(a.S), a.S, a, b) }
func seqLen(a *Term) *Term          { return App("sq.len."+sfx(a.S), IntS, a) }
func seqAt(a, i *Term) *Term        { return App("sq.at."+sfx(a.S), a.S.Elem, a, i) }
func seqSub(a, lo, hi *Term) *Term  { return App("sq.sub."+sfx(a.S), a.S, a, lo, hi) }

func isApp(t *Term, name string) bool { return t.Op == "app" && t.Name == name }

func setupSeq(s *Sort) {
	x := sfx(s)
	e := s.Elem
	arr := ArrayS(IntS, e)
	DeclFunc("sq.nil."+x, s)
	DeclFunc("sq.one."+x, s, e)
	DeclFunc("sq.cat."+x, s, s, s)
	DeclFunc("sq.len."+x, IntS, s)
	DeclFunc("sq.at."+x, e, s, IntS)
	DeclFunc("sq.sub."+x, s, s, IntS, IntS)
	DeclFunc("view."+x, s, arr, IntS, IntS)
	DeclFunc("blit."+x, arr, arr, IntS, s)
	DeclFunc("realloc."+x, arr, arr, IntS, IntS)
	injective["sq.one."+x] = true
	if e == IntS {
		DeclFunc("st.bytes", s, StrS)
		DeclFunc("st.of", StrS, s)
		rewriters["st.bytes"] = func(a []*Term) *Term {
			t := a[0]
			switch {
			case t == StrLit(""):
				return seqNil(s)
			case isApp(t, "st.of"):
				return t.Args[0]
			case isApp(t, "st.cat"):
				return seqCat(App("st.bytes", s, t.Args[0]), App("st.bytes", s, t.Args[1]))
			case t.Op == "ite":
				return Ite(t.Args[0], App("st.bytes", s, t.Args[1]), App("st.bytes", s, t.Args[2]))
			}
			return nil
		}
		rewriters["st.of"] = func(a []*Term) *Term {
			t := a[0]
			switch {
			case isApp(t, "st.bytes"):
				return t.Args[0]
			case isApp(t, "sq.nil."+x):
				return StrLit("")
			case isApp(t, "sq.one."+x):
				if n, ok := t.Args[0].isInt(); ok && n < 128 && n >= 0 {
					return StrLit(string([]byte{byte(n)}))
				}
			}
			return nil
		}
	}
	rewriters["sq.cat."+x] = func(a []*Term) *Term {
		p, q := a[0], a[1]
		if isApp(p, "sq.nil."+x) {
			return q
		}
		if isApp(q, "sq.nil."+x) {
			return p
		}
		if isApp(q, "sq.cat."+x) {
			return seqCat(seqCat(p, q.Args[0]), q.Args[1])
		}
		if q.Op == "ite" && q.size < 4000 {
			return Ite(q.Args[0], seqCat(p, q.Args[1]), seqCat(p, q.Args[2]))
		}
		return nil
	}
	rewriters["sq.len."+x] = func(a []*Term) *Term {
		t := a[0]
		switch {
		case isApp(t, "sq.nil."+x):
			return Int(0)
		case isApp(t, "sq.one."+x):
			return Int(1)
		case isApp(t, "sq.cat."+x):
			return Add(seqLen(t.Args[0]), seqLen(t.Args[1]))
		case isApp(t, "view."+x):
			return t.Args[2] // views only arise from slices, whose lengths are non-negative
		case isApp(t, "st.bytes"):
			if t.Args[0].Op == "strlit" {
				return Int(int64(len(t.Args[0].Name)))
			}
			return App("st.len", IntS, t.Args[0])
		case t.Op == "ite":
			return Ite(t.Args[0], seqLen(t.Args[1]), seqLen(t.Args[2]))
		}
		return nil
	}
	rewriters["sq.at."+x] = func(a []*Term) *Term {
		t, i := a[0], a[1]
		switch {
		case isApp(t, "sq.one."+x) && i == Int(0):
			return t.Args[0]
		case isApp(t, "sq.cat."+x):
			n := seqLen(t.Args[0])
			c := Lt(i, n)
			if c == True {
				return seqAt(t.Args[0], i)
			}
			if c == False {
				return seqAt(t.Args[1], Sub(i, n))
			}
		case isApp(t, "view."+x):
			if i == Sub(t.Args[2], Int(1)) {
				return nil // the last element: known through whatever else the view equals
			}
			return Select(t.Args[0], Add(t.Args[1], i))
		case t.Op == "ite":
			return Ite(t.Args[0], seqAt(t.Args[1], i), seqAt(t.Args[2], i))
		}
		return nil
	}
	rewriters["view."+x] = func(a []*Term) *Term {
		arr, off, n := a[0], a[1], a[2]
		if n == Int(0) {
			return seqNil(s)
		}
		if off.Op == "ite" || arr.Op == "ite" || n.Op == "ite" {
			for _, t := range []*Term{arr, off, n} {
				if t.Op == "ite" {
					c := t.Args[0]
					mt, mf := map[*Term]*Term{c: True}, map[*Term]*Term{c: False}
					if c.Op == "not" {
						continue
					}
					return Ite(c, App("view."+x, s, substIte(arr, mt), substIte(off, mt), substIte(n, mt)),
						App("view."+x, s, substIte(arr, mf), substIte(off, mf), substIte(n, mf)))
				}
			}
		}
		end := Add(off, n)
		switch {
		case arr.Op == "store":
			i, v := arr.Args[1], arr.Args[2]
			if Add(i, Int(1)) == end {
				return seqCat(App("view."+x, s, arr.Args[0], off, Sub(n, Int(1))), seqOne(s, v))
			}
			if d := Sub(i, end); d.rat != nil && d.rat.Sign() >= 0 {
				return App("view."+x, s, arr.Args[0], off, n)
			}
			if d := Sub(i, off); d.rat != nil && d.rat.Sign() < 0 {
				return App("view."+x, s, arr.Args[0], off, n)
			}
		case isApp(arr, "blit."+x):
			o, q := arr.Args[1], arr.Args[2]
			if Add(o, seqLen(q)) == end {
				return seqCat(App("view."+x, s, arr.Args[0], off, Sub(o, off)), q)
			}
			if d := Sub(o, end); d.rat != nil && d.rat.Sign() >= 0 {
				return App("view."+x, s, arr.Args[0], off, n)
			}
			if d := Sub(Add(o, seqLen(q)), off); d.rat != nil && d.rat.Sign() <= 0 {
				return App("view."+x, s, arr.Args[0], off, n)
			}
		case isApp(arr, "realloc."+x):
			if off == Int(0) && n == arr.Args[2] {
				return App("view."+x, s, arr.Args[0], arr.Args[1], n)
			}
			if d := Sub(arr.Args[2], end); d.rat != nil && d.rat.Sign() >= 0 && off.rat != nil && off.rat.Sign() >= 0 {
				return App("view."+x, s, arr.Args[0], Add(arr.Args[1], off), n)
			}
		}
		if k, ok := n.isInt(); ok && k > 0 && k <= 12 && (arr.Op == "store" || arr.Op == "constarr" || k == 1) {
			r := seqNil(s)
			for i := int64(0); i < k; i++ {
				r = seqCat(r, seqOne(s, Select(arr, Add(off, Int(i)))))
			}
			return r
		}
		return nil
	}
	rewriters["blit."+x] = func(a []*Term) *Term {
		q := a[2]
		if isApp(q, "sq.nil."+x) {
			return a[0]
		}
		if parts, ok := seqParts(q, x); ok && len(parts) <= 12 {
			r := a[0]
			for i, p := range parts {
				r = Store(r, Add(a[1], Int(int64(i))), p)
			}
			return r
		}
		return nil
	}
	rewriters["sq.sub."+x] = func(a []*Term) *Term {
		if a[1] == a[2] {
			return seqNil(s)
		}
		if a[1] == Int(0) && a[2] == seqLen(a[0]) {
			return a[0]
		}
		if isApp(a[0], "view."+x) {
			return App("view."+x, s, a[0].Args[0], Add(a[0].Args[1], a[1]), Sub(a[2], a[1]))
		}
		if isApp(a[0], "sq.cat."+x) && a[1] == Int(0) && a[2] == seqLen(a[0].Args[0]) {
			return a[0].Args[0]
		}
		return nil
	}
	DeclFunc("sq.init."+x, s, s)
	rewriters["sq.init."+x] = func(a []*Term) *Term {
		if isApp(a[0], "sq.cat."+x) && isApp(a[0].Args[1], "sq.one."+x) {
			return a[0].Args[0]
		}
		return nil
	}
	DeclFunc("sq.pre."+x, BoolS, s, s)
	rewriters["sq.pre."+x] = func(a []*Term) *Term {
		for q := a[1]; ; q = q.Args[0] {
			if q == a[0] {
				return True
			}
			if !isApp(q, "sq.cat."+x) {
				break
			}
		}
		if isApp(a[0], "sq.nil."+x) {
			return True
		}
		return nil
	}
	// background axioms
	va, vo, vl, vi := BVar("a", arr), BVar("o", IntS), BVar("l", IntS), BVar("i", IntS)
	vv, vq, vr := BVar("v", e), BVar("q", s), BVar("r", s)
	view := func(a, o, l *Term) *Term { return mkTerm("app", "view."+x, s, a, o, l) }
	raw := func(n string, r *Sort, args ...*Term) *Term { return mkTerm("app", n+"."+x, r, args...) }
	st := mkTerm("store", "", arr, va, vi, vv)
	addBG("view."+x, Forall([]*Term{va, vi, vv, vo, vl}, Implies(Or(Lt(vi, vo), Le(Add(vo, vl), vi)), Eq(view(st, vo, vl), view(va, vo, vl))), view(st, vo, vl)))
	addBG("view."+x, Forall([]*Term{va, vo, vl}, Implies(Eq(vl, Int(0)), mkTerm("=", "", BoolS, view(va, vo, vl), raw("sq.nil", s))), view(va, vo, vl)))
	vm := BVar("m", IntS)
	addBG("view."+x, Forall([]*Term{va, vo, vl, vm}, Implies(And(Le(Int(0), vl), Eq(Add(vl, Int(1)), vm)), mkTerm("=", "", BoolS, view(va, vo, vm), raw("sq.cat", s, view(va, vo, vl), raw("sq.one", s, mkTerm("select", "", e, va, Add(vo, vl)))))), mkTerm("multipat", "", BoolS, view(va, vo, vl), view(va, vo, vm))))
	rcat := raw("sq.cat", s, vq, vr)
	addBG("sq.cat."+x, Forall([]*Term{vq, vr}, And(Implies(mkTerm("=", "", BoolS, vq, raw("sq.nil", s)), mkTerm("=", "", BoolS, rcat, vr)), Implies(mkTerm("=", "", BoolS, vr, raw("sq.nil", s)), mkTerm("=", "", BoolS, rcat, vq))), rcat))
	vt := BVar("t", s)
	addBG("sq.cat."+x, Forall([]*Term{vq, vr, vt}, mkTerm("=", "", BoolS, raw("sq.cat", s, vq, raw("sq.cat", s, vr, vt)), raw("sq.cat", s, rcat, vt)), raw("sq.cat", s, vq, raw("sq.cat", s, vr, vt))))
	bl := raw("blit", arr, va, vi, vq)
	addBG("blit."+x, Forall([]*Term{va, vi, vq, vo, vl}, Implies(Or(Le(Add(vi, raw("sq.len", IntS, vq)), vo), Le(Add(vo, vl), vi)), Eq(view(bl, vo, vl), view(va, vo, vl))), view(bl, vo, vl)))
	addBG("blit."+x, Forall([]*Term{va, vi, vq, vo}, Implies(Not(And(Le(vi, vo), Lt(vo, Add(vi, raw("sq.len", IntS, vq))))), Eq(mkTerm("select", "", e, bl, vo), mkTerm("select", "", e, va, vo))), mkTerm("select", "", e, bl, vo)))
	addBG("blit."+x, Forall([]*Term{va, vi, vq, vo}, Implies(And(Le(vi, vo), Lt(vo, Add(vi, raw("sq.len", IntS, vq)))), Eq(mkTerm("select", "", e, bl, vo), raw("sq.at", e, vq, Sub(vo, vi)))), mkTerm("select", "", e, bl, vo)))
	qone := raw("sq.cat", s, vq, raw("sq.one", s, vv))
	addBG("sq.init."+x, Forall([]*Term{vq, vv}, mkTerm("=", "", BoolS, raw("sq.init", s, qone), vq), qone))
	addBG("sq.init."+x, Forall([]*Term{va, vo, vl}, Implies(Lt(Int(0), vl), mkTerm("=", "", BoolS, raw("sq.init", s, view(va, vo, vl)), view(va, vo, Sub(vl, Int(1))))), raw("sq.init", s, view(va, vo, vl))))
	vp := BVar("p", IntS)
	pre := func(a, b *Term) *Term { return mkTerm("app", "sq.pre."+x, BoolS, a, b) }
	vw := BVar("w", s)
	addBG("sq.pre."+x, Forall([]*Term{vq, vr, vw}, Implies(pre(vw, vq), pre(vw, rcat)), pre(vw, rcat)))
	addBG("sq.pre."+x, Forall([]*Term{vq, vr, vw}, Implies(pre(rcat, vw), pre(vq, vw)), pre(rcat, vw)))
	addBG("sq.pre."+x, Forall([]*Term{vq, vr}, Implies(mkTerm("=", "", BoolS, vq, vr), pre(vq, vr)), pre(vq, vr)))
	addBG("sq.pre."+x, Forall([]*Term{vq, vr, vw}, Implies(And(pre(vq, vr), pre(vr, vw)), pre(vq, vw)), mkTerm("multipat", "", BoolS, pre(vq, vr), pre(vr, vw))))
	addBG("sq.pre."+x, Forall([]*Term{vq, va, vo, vl, vp}, Implies(And(pre(vq, view(va, vo, vl)), Le(Int(0), vl), Eq(raw("sq.len", IntS, vq), vp)), And(mkTerm("=", "", BoolS, view(va, vo, vp), vq), Le(vp, vl))), mkTerm("multipat", "", BoolS, pre(vq, view(va, vo, vl)), view(va, vo, vp))))
	addBG("sq.pre."+x, Forall([]*Term{vq, vr}, Implies(pre(vq, vr), Le(raw("sq.len", IntS, vq), raw("sq.len", IntS, vr))), pre(vq, vr)))
	addBG("blit."+x, Forall([]*Term{va, vi, vq, vo, vl}, Implies(And(Le(vo, vi), Eq(Add(vi, raw("sq.len", IntS, vq)), Add(vo, vl))), mkTerm("=", "", BoolS, view(bl, vo, vl), raw("sq.cat", s, view(va, vo, Sub(vi, vo)), vq))), view(bl, vo, vl)))
	addBG("view."+x, Forall([]*Term{va, vi, vv, vo, vl}, Implies(And(Le(vo, vi), Eq(Add(vi, Int(1)), Add(vo, vl))), mkTerm("=", "", BoolS, view(st, vo, vl), raw("sq.cat", s, view(va, vo, Sub(vi, vo)), raw("sq.one", s, vv)))), view(st, vo, vl)))
	re := raw("realloc", arr, va, vo, vl)
	addBG("realloc."+x, Forall([]*Term{va, vo, vl, vp}, Implies(And(Le(Int(0), vp), Le(vp, vl)), mkTerm("=", "", BoolS, view(re, Int(0), vp), view(va, vo, vp))), view(re, Int(0), vp)))
	addBG("realloc."+x, Forall([]*Term{va, vo, vl, vi}, Implies(And(Le(Int(0), vi), Lt(vi, vl)), Eq(mkTerm("select", "", e, re, vi), mkTerm("select", "", e, va, Add(vo, vi)))), mkTerm("select", "", e, re, vi)))
	vj := BVar("j", IntS)
	addBG("realloc."+x, Forall([]*Term{va, vo, vl, vj}, Implies(And(Le(vo, vj), Lt(vj, Add(vo, vl))), Eq(mkTerm("select", "", e, re, Sub(vj, vo)), mkTerm("select", "", e, va, vj))), mkTerm("multipat", "", BoolS, re, mkTerm("select", "", e, va, vj))))
	addBG("sq.len."+x, Forall([]*Term{vq}, Le(Int(0), raw("sq.len", IntS, vq)), raw("sq.len", IntS, vq)))
	addBG("sq.len."+x, Forall([]*Term{vq, vr}, Eq(raw("sq.len", IntS, raw("sq.cat", s, vq, vr)), Add(raw("sq.len", IntS, vq), raw("sq.len", IntS, vr))), raw("sq.cat", s, vq, vr)))
	addBG("sq.len."+x, Forall([]*Term{vv}, Eq(raw("sq.len", IntS, raw("sq.one", s, vv)), Int(1)), raw("sq.one", s, vv)))
	addBG("sq.len."+x, Eq(raw("sq.len", IntS, raw("sq.nil", s)), Int(0)))
	addBG("sq.len."+x, Forall([]*Term{va, vo, vl}, Implies(Le(Int(0), vl), Eq(raw("sq.len", IntS, view(va, vo, vl)), vl)), view(va, vo, vl)))
	addBG("sq.at."+x, Forall([]*Term{vq, vr, vi}, Implies(Lt(vi, raw("sq.len", IntS, vq)), Eq(raw("sq.at", e, raw("sq.cat", s, vq, vr), vi), raw("sq.at", e, vq, vi))), raw("sq.at", e, raw("sq.cat", s, vq, vr), vi)))
	addBG("sq.at."+x, Forall([]*Term{vq, vr, vi}, Implies(Le(raw("sq.len", IntS, vq), vi), Eq(raw("sq.at", e, raw("sq.cat", s, vq, vr), vi), raw("sq.at", e, vr, Sub(vi, raw("sq.len", IntS, vq))))), raw("sq.at", e, raw("sq.cat", s, vq, vr), vi)))
	addBG("sq.at."+x, Forall([]*Term{vv}, Eq(raw("sq.at", e, raw("sq.one", s, vv), Int(0)), vv), raw("sq.one", s, vv)))
	addBG("sq.at."+x, Forall([]*Term{va, vo, vl, vi}, Implies(And(Le(Int(0), vi), Lt(vi, vl)), Eq(raw("sq.at", e, view(va, vo, vl), vi), mkTerm("select", "", e, va, Add(vo, vi)))), raw("sq.at", e, view(va, vo, vl), vi)))
}

// substIte replaces a known condition, without touching anything else of the term's structure.
func substIte(t *Term, m map[*Term]*Term) *Term { return Subst(t, m) }

func seqParts(q *Term, x string) ([]*Term, bool) {
	switch {
	case isApp(q, "sq.nil."+x):
		return nil, true
	case isApp(q, "sq.one."+x):
		return []*Term{q.Args[0]}, true
	case isApp(q, "sq.cat."+x):
		a, ok := seqParts(q.Args[0], x)
		if !ok {
			return nil, false
		}
		b, ok := seqParts(q.Args[1], x)
		if !ok {
			return nil, false
		}
		return append(append([]*Term(nil), a...), b...), true
	}
	return nil, false
}

// background axioms, included when the trigger symbol occurs in a query
type bgAxiom struct {
	sym string
	f   *Term
}

var bgAxioms []bgAxiom

func addBG(sym string, f *Term) { bgAxioms = append(bgAxioms, bgAxiom{sym, f}) }

func (x *Exec) strBytes(s *Term) *Term { return App("st.bytes", SeqSort(IntS), s) }
func (x *Exec) strOf(q *Term) *Term    { SeqSort(IntS); return App("st.of", StrS, q) }

// viewOf: the contents of slice s as a sequence.
// sliceArr: the slice memory at ref.
func (x *Exec) sliceArr(st *State, et types.Type, ref *Term) *Term {
	if k := x.constArr(ref); k != nil {
		return k
	}
	return Select(x.get(st, x.sliceKey(et)), ref)
}

func (x *Exec) viewOf(st *State, s *Term, et types.Type) *Term {
	ss := SeqSort(sortOf(et))
	arr := x.sliceArr(st, et, Sel(s, 0))
	return App("view."+sfx(ss), ss, arr, Sel(s, 1), Sel(s, 2))
}

// sliceFromSeq allocates a slice with the given contents.
func (x *Exec) sliceFromSeq(st *State, q *Term, et types.Type) *Term {
	ss := SeqSort(sortOf(et))
	r := x.alloc(st)
	k := x.sliceKey(et)
	base := ConstArr(ArrayS(IntS, ss.Elem), zeroOf(et))
	x.set(st, k, Store(x.get(st, k), r, App("blit."+sfx(ss), ArrayS(IntS, ss.Elem), base, Int(0), q)))
	n := seqLen(q)
	c := Fresh("cap", IntS)
	st.assume(Le(n, c))
	st.assume(Le(Int(0), n))
	return Mk(SliceS, r, Int(0), n, c)
}

// appendSeq models append(s, q...).
func (x *Exec) appendSeq(st *State, s, q *Term, et types.Type) *Term {
	ss := SeqSort(sortOf(et))
	sf := sfx(ss)
	as := ArrayS(IntS, ss.Elem)
	n := seqLen(q)
	if n == Int(0) {
		return s
	}
	k := x.sliceKey(et)
	h := x.get(st, k)
	ref, off, ln, cp := Sel(s, 0), Sel(s, 1), Sel(s, 2), Sel(s, 3)
	st.assume(Le(Int(0), n))
	fits := Le(Add(ln, n), cp)
	arr := Select(h, ref)
	nr := x.alloc(st)
	inPlace := App("blit."+sf, as, arr, Add(off, ln), q)
	moved := App("blit."+sf, as, App("realloc."+sf, as, arr, off, ln), ln, q)
	ncap := Fresh("cap", IntS)
	st.assume(Le(Add(ln, n), ncap))
	rref := Ite(fits, ref, nr)
	if fits == True {
		x.set(st, k, Store(h, ref, inPlace))
	} else if fits == False {
		x.set(st, k, Store(h, nr, moved))
	} else {
		x.set(st, k, Store(Store(h, ref, Ite(fits, inPlace, arr)), nr, moved))
	}
	return Mk(SliceS, rref, Ite(fits, off, Int(0)), Add(ln, n), Ite(fits, cp, ncap))
}

// seqOf builds a literal sequence.
func seqLit(s *Sort, vs ...*Term) *Term {
	r := seqNil(s)
	for _, v := range vs {
		r = seqCat(r, seqOne(s, v))
	}
	return r
}

var _ = fmt.Sprint
