package main

import "strconv"

// Quantifiers are prepared for the solvers' pattern matching: an index of the form base+i is replaced by a variable
// ranging over absolute positions (an equivalent formula), and patterns are reduced to terms without interpreted
// connectives.

var normMemo = map[*Term]*Term{}

func hasQuant(t *Term, memo map[*Term]bool) bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	if b, ok := memo[t]; ok {
		return b
	}
	r := false
	for _, a := range t.Args {
		if hasQuant(a, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

var hasQMemo = map[*Term]bool{}

func normQ(t *Term) *Term {
	if !hasQuant(t, hasQMemo) {
		return t
	}
	if r, ok := normMemo[t]; ok {
		return r
	}
	r := t
	if t.Op == "forall" || t.Op == "exists" {
		r = normQuant(t)
	} else {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = normQ(a)
			ch = ch || args[i] != a
		}
		if ch {
			r = rebuild(t, args)
		}
	}
	normMemo[t] = r
	return r
}

func normQuant(t *Term) *Term {
	n, _ := strconv.Atoi(t.Name)
	vars := append([]*Term(nil), t.Args[1:1+n]...)
	pats := t.Args[1+n:]
	body := normQ(t.Args[0])
	if body.Op == "true" || body.Op == "false" {
		return body
	}
	outer := map[*Term]bool{}
	freeB(mkTerm(t.Op, t.Name, BoolS, append(append([]*Term{body}, vars...))...), outer, map[*Term]bool{})
	isV := map[*Term]bool{}
	for _, v := range vars {
		isV[v] = true
	}
	okFree := func(u *Term) bool { // only variables of enclosing quantifiers
		f := map[*Term]bool{}
		freeB(u, f, map[*Term]bool{})
		for v := range f {
			if !outer[v] {
				return false
			}
		}
		return true
	}
	bases := map[*Term][]*Term{}
	direct := map[*Term]bool{}
	collect(body, map[*Term]bool{}, func(u *Term) {
		if u.Op == "select" && isV[u.Args[1]] || u.Op == "app" {
			for _, a := range u.Args {
				if isV[a] {
					direct[a] = true
				}
			}
		}
		if u.Op != "select" || u.Args[1].Op != "+" {
			return
		}
		idx := u.Args[1]
		for _, a := range idx.Args {
			if isV[a] {
				b := Sub(idx, a)
				if okFree(b) {
					for _, o := range bases[a] {
						if o == b {
							return
						}
					}
					bases[a] = append(bases[a], b)
				}
			}
		}
	})
	mk := func(vs []*Term, body *Term, ps []*Term) *Term {
		ps = fixPats(vs, ps)
		if len(ps) == 0 && len(vs) == 1 && t.Op == "exists" {
			ps = storePats(vs[0], body)
		}
		return quant(t.Op, vs, body, ps)
	}
	join := func(ts []*Term) *Term {
		if t.Op == "forall" {
			return And(ts...)
		}
		return Or(ts...)
	}
	if len(bases) == 0 {
		return mk(vars, body, pats)
	}
	subst := func(m map[*Term]*Term) *Term { // v -> base
		sm := map[*Term]*Term{}
		vs := append([]*Term(nil), vars...)
		for i, v := range vs {
			if b := m[v]; b != nil {
				p := BVar(v.Name+"!p", IntS)
				sm[v] = Sub(p, b)
				vs[i] = p
			}
		}
		var ps []*Term
		for _, p := range pats {
			ps = append(ps, Subst(p, sm))
		}
		return mk(vs, Subst(body, sm), ps)
	}
	var out []*Term
	if len(vars) == 1 {
		v := vars[0]
		if direct[v] || len(pats) > 0 {
			out = append(out, mk(vars, body, pats))
		}
		for i, b := range bases[v] {
			if i < 3 {
				out = append(out, subst(map[*Term]*Term{v: b}))
			}
		}
		return join(out)
	}
	m := map[*Term]*Term{}
	for v, bs := range bases {
		if !direct[v] {
			m[v] = bs[0]
		}
	}
	if len(m) == 0 {
		return mk(vars, body, pats)
	}
	return subst(m)
}

// fixPats keeps patterns usable by the solvers.
func fixPats(vars []*Term, pats []*Term) []*Term {
	isV := map[*Term]bool{}
	for _, v := range vars {
		isV[v] = true
	}
	clean := map[*Term]bool{}
	var pure func(t *Term) bool
	pure = func(t *Term) bool {
		if b, ok := clean[t]; ok {
			return b
		}
		r := true
		switch t.Op {
		case "ite", "and", "or", "not", "=", "<=", "<", "+", "*", "forall", "exists", "true", "false", "is", "toreal", "div", "mod":
			r = !t.hasB // ground arithmetic is harmless, connectives are not
			if t.Op != "+" && t.Op != "*" {
				r = false
			}
		}
		for _, a := range t.Args {
			r = r && pure(a)
		}
		clean[t] = r
		return r
	}
	vset := func(t *Term) map[*Term]bool {
		out := map[*Term]bool{}
		collect(t, map[*Term]bool{}, func(u *Term) {
			if isV[u] {
				out[u] = true
			}
		})
		return out
	}
	var out []*Term
	for _, p := range pats {
		parts := []*Term{p}
		if p.Op == "multipat" {
			parts = p.Args
		}
		var res []*Term
		covered := map[*Term]bool{}
		for _, q := range parts {
			if pure(q) && (q.Op == "app" || q.Op == "select" || q.Op == "sel" || q.Op == "store") {
				res = append(res, q)
				for v := range vset(q) {
					covered[v] = true
				}
				continue
			}
			// largest usable subterms
			need := vset(q)
			var walk func(t *Term)
			seen := map[*Term]bool{}
			var cands []*Term
			walk = func(t *Term) {
				if seen[t] || !t.hasB {
					return
				}
				seen[t] = true
				if pure(t) && (t.Op == "app" || t.Op == "select" || t.Op == "sel") && len(vset(t)) > 0 {
					cands = append(cands, t)
					return
				}
				for i := len(t.Args) - 1; i >= 0; i-- {
					walk(t.Args[i])
				}
			}
			walk(q)
			// prefer values to conditions: candidates come from the last arguments first
			got := map[*Term]bool{}
			for _, c := range cands {
				add := false
				for v := range vset(c) {
					if need[v] && !got[v] {
						add = true
					}
				}
				if add {
					res = append(res, c)
					for v := range vset(c) {
						got[v] = true
						covered[v] = true
					}
				}
			}
		}
		if len(covered) < len(vars) || len(res) == 0 {
			continue
		}
		if len(res) == 1 {
			out = append(out, res[0])
		} else {
			out = append(out, mkTerm("multipat", "", BoolS, res...))
		}
	}
	return out
}

// storePats gives patterns for a variable that indexes an updated array: the array before the update matters too.
func storePats(v *Term, body *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	found := false
	var arr func(a *Term)
	arr = func(a *Term) {
		if a.hasB || seen[a] {
			return
		}
		seen[a] = true
		switch {
		case a.Op == "store":
			found = true
			arr(a.Args[0])
			// the updated cell itself
			return
		case a.Op == "ite":
			arr(a.Args[1])
			arr(a.Args[2])
			return
		}
		p := mkTerm("select", "", a.S.Elem, a, v)
		out = append(out, p)
	}
	collect(body, map[*Term]bool{}, func(u *Term) {
		if u.Op == "select" && u.Args[1] == v {
			arr(u.Args[0])
		}
	})
	if !found {
		return nil
	}
	// instances at the updated cells come from the updated array
	collect(body, map[*Term]bool{}, func(u *Term) {
		if u.Op == "select" && u.Args[1] == v && !u.Args[0].hasB && u.Args[0].Op == "store" {
			out = append(out, u)
		}
	})
	return out
}
