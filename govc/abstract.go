package main

// abstractQuery weakens an obligation: large conditional terms (the merged results of what happened before) become
// unknown constants and hypotheses that stay large are dropped. A proof of the weaker obligation proves the original.
func abstractQuery(hyps []*Term, goal *Term, termMax, hypMax int) ([]*Term, *Term) {
	memo := map[*Term]*Term{}
	var rep func(t *Term) *Term
	rep = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch {
		case t.size < termMax || len(t.Args) == 0:
		case t.Op == "ite" && !t.hasB && t.S != BoolS:
			r = Fresh("abs", t.S)
		default:
			as := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				as[i] = rep(a)
				ch = ch || as[i] != a
			}
			if ch {
				r = rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	g := rep(goal)
	var hs []*Term
	for _, h := range flatten(hyps) {
		for _, c := range conjuncts(rep(h)) {
			if c.size <= hypMax {
				hs = append(hs, c)
			}
		}
	}
	return hs, g
}
