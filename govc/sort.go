package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Sorting functions of the standard library. The slice afterwards holds a permutation of its elements
// (given by a bijection on the indexes); it is ordered by the comparison, whose being a strict weak
// order on the elements is an obligation.

func init() {
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		intrinsics[n] = func(x *Exec, fr *Frame, st *State, f *ssa.Function, args []Val, pos token.Pos) []*exit {
			v := x.asTerm(st, args[0], f.Signature.Params().At(0).Type())
			t := tagType(Sel(v, 0))
			if t == nil {
				x.unsupported("sort of a slice of unknown type")
			}
			sl, ok := t.Underlying().(*types.Slice)
			if !ok {
				x.unsupported("sort of %s", t)
			}
			s := unbox(Sel(v, 1), SliceS)
			less := x.asTerm(st, args[1], f.Signature.Params().At(1).Type())
			sig := f.Signature.Params().At(1).Type().Underlying().(*types.Signature)
			x.sortSlice(fr, st, s, sl.Elem(), func(st *State, i, j *Term) *Term {
				c := &Ctx{x: x, st: st}
				return c.run(sig, func(s2 *State) []*exit { return x.callValue(nil, s2, less, sig, []Val{i, j}, 0) }).tm(c)
			}, pos)
			return x.one(st)
		}
	}
	for _, n := range []string{"sort.Strings", "sort.Ints", "slices.Sort"} {
		intrinsics[n] = func(x *Exec, fr *Frame, st *State, f *ssa.Function, args []Val, pos token.Pos) []*exit {
			pt := f.Signature.Params().At(0).Type()
			sl, ok := pt.Underlying().(*types.Slice)
			if !ok || !(isString(sl.Elem()) || isInteger(sl.Elem())) {
				x.unsupported("sort of %s", pt)
			}
			s := x.asTerm(st, args[0], pt)
			x.sortSlice(fr, st, s, sl.Elem(), func(st *State, i, j *Term) *Term {
				arr := Select(x.get(st, x.sliceKey(sl.Elem())), Sel(s, 0))
				return x.binop(nil, st, token.LSS, Select(arr, Add(Sel(s, 1), i)), Select(arr, Add(Sel(s, 1), j)), sl.Elem(), sl.Elem(), pos)
			}, pos)
			return x.one(st)
		}
	}
}

func (x *Exec) sortSlice(fr *Frame, st *State, s *Term, et types.Type, less func(*State, *Term, *Term) *Term, pos token.Pos) {
	x.used["assume:the sorting functions of the standard library permute the slice and leave it ordered when the comparison is a strict weak order"] = true
	key := x.sliceKey(et)
	ref, off, n := Sel(s, 0), Sel(s, 1), Sel(s, 2)
	h := x.get(st, key)
	old := Select(h, ref)
	nw := Fresh("sorted", ArrayS(IntS, sortOf(et)))
	x.sortN++
	p, q := fmt.Sprintf("perm.%d", x.sortN), fmt.Sprintf("mrep.%d", x.sortN)
	DeclFunc(p, IntS, IntS)
	DeclFunc(q, IntS, IntS)
	P := func(i *Term) *Term { return App(p, IntS, i) }
	Q := func(i *Term) *Term { return App(q, IntS, i) }
	in := func(i *Term) *Term { return And(Le(Int(0), i), Lt(i, n)) }
	i, j := BVar("i!so", IntS), BVar("j!so", IntS)
	at := func(a, i *Term) *Term { return Select(a, Add(off, i)) }
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(P(i)), Eq(at(nw, i), at(old, P(i))), Eq(Q(P(i)), i))), at(nw, i)))
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(Q(i)), Eq(at(nw, Q(i)), at(old, i)), Eq(P(Q(i)), i))), at(old, i)))
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(P(i)), Eq(at(nw, i), at(old, P(i))), Eq(Q(P(i)), i))), P(i)))
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(Q(i)), Eq(at(nw, Q(i)), at(old, i)), Eq(P(Q(i)), i))), Q(i)))
	// elements outside the slice stay
	st.assume(Forall([]*Term{i}, Implies(Or(Lt(i, off), Le(Add(off, n), i)), Eq(Select(nw, i), Select(old, i))), Select(nw, i)))
	x.set(st, key, Store(h, ref, nw))
	if isRefType(et) {
		arrayIsRef[nw] = true
		arrayBirth[nw] = x.bumpBase(st)
	}
	// the comparison is a strict weak order on the elements, however they are arranged
	a, b, c := Fresh("i", IntS), Fresh("j", IntS), Fresh("k", IntS)
	st2 := st.clone()
	for _, v := range []*Term{a, b, c} {
		st2.assume(in(v))
	}
	x.obligation(fr, "sort", "comparison is asymmetric", pos, st2, Or(Not(less(st2, a, b)), Not(less(st2, b, a))))
	x.obligation(fr, "sort", "comparison is negatively transitive", pos, st2, Implies(less(st2, a, c), Or(less(st2, a, b), less(st2, b, c))))
	st.assume(Forall([]*Term{i, j}, Implies(And(Le(Int(0), i), Lt(i, j), Lt(j, n)), Not(less(st, j, i))), mkTerm("multipat", "", BoolS, at(nw, i), at(nw, j))))
}
