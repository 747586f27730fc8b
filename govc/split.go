package main

import "sort"

// splitCases cuts an obligation the solvers did not decide into cases on the conditions that occur in it: each case is
// the same obligation with one more hypothesis and the condition replaced by its value.

type caseOf struct {
	hyps []*Term
	goal *Term
}

// conds lists the ground conditions of conditional terms in t.
func conds(t *Term, count map[*Term]int) {
	collect(t, map[*Term]bool{}, func(u *Term) {
		if u.Op == "ite" && !u.Args[0].hasB && !hasQuant(u.Args[0], hasQMemo) {
			for _, a := range atoms(u.Args[0]) {
				count[a]++
			}
		}
	})
}

func atoms(c *Term) []*Term {
	switch c.Op {
	case "and", "or", "not":
		var out []*Term
		for _, a := range c.Args {
			out = append(out, atoms(a)...)
		}
		return out
	case "true", "false":
		return nil
	}
	return []*Term{c}
}

func splitCases(hyps []*Term, goal *Term, depth int) []caseOf {
	if goal == True {
		return nil
	}
	for _, h := range hyps {
		if h == False {
			return nil
		}
	}
	if depth == 0 {
		return []caseOf{{hyps, goal}}
	}
	count := map[*Term]int{}
	conds(goal, count)
	if len(count) == 0 {
		for _, h := range hyps {
			conds(h, count)
		}
	}
	if len(count) == 0 {
		return []caseOf{{hyps, goal}}
	}
	var cs []*Term
	for c := range count {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool {
		if count[cs[i]] != count[cs[j]] {
			return count[cs[i]] > count[cs[j]]
		}
		return cs[i].id < cs[j].id
	})
	c := cs[0]
	var out []caseOf
	for _, val := range []*Term{True, False} {
		m := map[*Term]*Term{c: val}
		var hs []*Term
		for _, h := range flatten(hyps) {
			hs = append(hs, Subst(h, m))
		}
		lit := c
		if val == False {
			lit = Not(c)
		}
		// the literal comes last, so that nothing above replaces it
		hs = append(hs, lit)
		out = append(out, splitCases(hs, Subst(goal, m), depth-1)...)
	}
	return out
}
