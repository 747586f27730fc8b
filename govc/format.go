package main

import (
	"fmt"
	"go/types"
	"strings"
)

// formatText: the text fmt makes of a constant format whose verbs are all %s or %v; an argument that is neither a
// string nor a byte slice (for %s) contributes an unknown text.
func (c *Ctx) formatText(f, args *Expr) *Term {
	x := c.x
	ss := SeqSort(IntS)
	ft := c.eval(f).tm(c)
	v := c.eval(args)
	av := v.tm(c)
	if !isSeq(av.S) {
		av = x.viewOf(c.st, av, v.typ.Underlying().(*types.Slice).Elem())
	}
	unknown := App("fmt.text", ss, ft, av)
	if ft.Op != "strlit" {
		return unknown
	}
	rest, out, n := ft.Name, x.strBytes(StrLit("")), 0
	for rest != "" {
		i := strings.IndexByte(rest, '%')
		if i < 0 {
			i = len(rest)
		}
		if i > 0 {
			out = seqCat(out, x.strBytes(StrLit(rest[:i])))
			rest = rest[i:]
			continue
		}
		if len(rest) < 2 {
			return unknown
		}
		verb := rest[1]
		rest = rest[2:]
		switch verb {
		case '%':
			out = seqCat(out, x.strBytes(StrLit("%")))
		case 's', 'v':
			a := c.eval(&Expr{Op: "index", Args: []*Expr{args, {Op: "num", Name: fmt.Sprint(n), Pos: f.Pos}}, Pos: f.Pos}).tm(c)
			n++
			piece := App("fmt.arg", ss, Int(int64(verb)), a)
			if verb == 's' {
				bt := types.NewSlice(types.Typ[types.Byte])
				piece = Ite(x.hasType(a, bt), x.viewOf(c.st, x.unboxTo(a, bt), types.Typ[types.Byte]), piece)
			}
			piece = Ite(x.hasType(a, tString), x.strBytes(x.unboxTo(a, tString)), piece)
			out = seqCat(out, piece)
		default:
			return unknown
		}
	}
	return out
}
