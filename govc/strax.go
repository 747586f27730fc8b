package main

// Background facts about strings. Strings are arbitrary finite sequences of integers (bytes).

func init() {
	ss := SeqSort(IntS)
	DeclFunc("st.len", IntS, StrS)
	DeclFunc("st.cat", StrS, StrS, StrS)
	DeclFunc("st.at", IntS, StrS, IntS)
	DeclFunc("st.sub", StrS, StrS, IntS, IntS)
	DeclFunc("st.lt", BoolS, StrS, StrS)
	a, b, c, q, i, j := BVar("a", StrS), BVar("b", StrS), BVar("c", StrS), BVar("q", ss), BVar("i", IntS), BVar("j", IntS)
	raw := func(n string, r *Sort, args ...*Term) *Term { return mkTerm("app", n, r, args...) }
	eq := func(x, y *Term) *Term { return mkTerm("=", "", BoolS, x, y) }
	ln := func(x *Term) *Term { return raw("st.len", IntS, x) }
	by := func(x *Term) *Term { return raw("st.bytes", ss, x) }
	sl := func(x *Term) *Term { return raw("sq.len.Int", IntS, x) }
	at := func(x, i *Term) *Term { return raw("st.at", IntS, x, i) }
	addBG("st.len", Forall([]*Term{a}, Le(Int(0), ln(a)), ln(a)))
	addBG("st.len", Forall([]*Term{a}, Implies(eq(ln(a), Int(0)), eq(a, StrLit(""))), ln(a)))
	cat := raw("st.cat", StrS, a, b)
	addBG("st.cat", Forall([]*Term{a, b}, eq(ln(cat), Add(ln(a), ln(b))), cat))
	addBG("st.at", Forall([]*Term{a, b, i}, Implies(Lt(i, ln(a)), eq(at(cat, i), at(a, i))), at(cat, i)))
	addBG("st.at", Forall([]*Term{a, b, i}, Implies(Le(ln(a), i), eq(at(cat, i), at(b, Sub(i, ln(a))))), at(cat, i)))
	addBG("st.bytes", Forall([]*Term{a}, eq(raw("st.of", StrS, by(a)), a), by(a)))
	addBG("st.of", Forall([]*Term{q}, eq(by(raw("st.of", StrS, q)), q), raw("st.of", StrS, q)))
	addBG("st.bytes", Forall([]*Term{a}, eq(sl(by(a)), ln(a)), by(a)))
	addBG("st.of", Forall([]*Term{q}, eq(ln(raw("st.of", StrS, q)), sl(q)), raw("st.of", StrS, q)))
	sub := raw("st.sub", StrS, a, i, j)
	addBG("st.sub", Forall([]*Term{a, i, j}, Implies(And(Le(Int(0), i), Le(i, j), Le(j, ln(a))), eq(ln(sub), Sub(j, i))), sub))
	lt := func(x, y *Term) *Term { return raw("st.lt", BoolS, x, y) }
	addBG("st.lt", Forall([]*Term{a, b}, Implies(lt(a, b), Not(lt(b, a))), lt(a, b)))
	addBG("st.lt", Forall([]*Term{a, b}, Or(lt(a, b), lt(b, a), eq(a, b)), lt(a, b)))
	addBG("st.lt", Forall([]*Term{a, b, c}, Implies(And(lt(a, b), lt(b, c)), lt(a, c)), mkTerm("multipat", "", BoolS, lt(a, b), lt(b, c))))
}
