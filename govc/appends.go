package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Library functions that append the result of another function to a byte slice, as documented:
// AppendX(dst, args) is append(dst, X(args)...).
func init() {
	for n, m := range map[string]struct {
		key string
		dst int
	}{
		"strconv.AppendInt":        {"strconv.FormatInt", 0},
		"strconv.AppendUint":       {"strconv.FormatUint", 0},
		"strconv.AppendFloat":      {"strconv.FormatFloat", 0},
		"strconv.AppendQuote":      {"strconv.Quote", 0},
		"strconv.AppendBool":       {"strconv.FormatBool", 0},
		"(time.Time).AppendFormat": {"(time.Time).Format", 1},
	} {
		n, m := n, m
		intrinsics[n] = func(x *Exec, fr *Frame, st *State, f *ssa.Function, args []Val, pos token.Pos) []*exit {
			x.used["assume:"+n+" appends the result of "+m.key] = true
			bt := f.Signature.Results().At(0).Type()
			var as []*Term
			k := 0
			if r := f.Signature.Recv(); r != nil {
				as = append(as, x.encodeArg(st, args[0], r.Type()))
				k = 1
			}
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if i+k != m.dst {
					as = append(as, x.encodeArg(st, args[i+k], f.Signature.Params().At(i).Type()))
				}
			}
			txt := App(fmt.Sprintf("fn.%s.0", sanitize(m.key)), StrS, as...)
			dst := x.asTerm(st, args[m.dst], bt)
			return x.one(st, x.appendSeq(st, dst, x.strBytes(txt), bt.Underlying().(*types.Slice).Elem()))
		}
	}
}
