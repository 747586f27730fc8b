package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

const modulePath = "github.com/madkins23/go-slog"

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modulePath), "/")
	})
}

func inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

// isOpaque: struct types of other modules with unexported fields are abstract values.
// transparent: library types whose unexported fields are modelled because library code that uses
// them is inlined.
var transparent = map[string]bool{"log/slog.Record": true, "runtime.Frame": true}

func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if inRepo(n.Obj().Pkg()) || transparent[shortType(n)] {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

var sortMemo = map[string]*Sort{}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if s, ok := sortMemo[key]; ok {
		return s
	}
	s := sortOf1(t)
	sortMemo[key] = s
	return s
}

func sortOf1(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsString != 0:
			return StrS
		case u.Info()&types.IsFloat != 0:
			return FloatS
		}
		return IntS
	case *types.Slice:
		return SliceS
	case *types.Interface:
		return IfaceS
	case *types.Struct:
		name := "T." + sanitize(shortType(t))
		if isOpaque(t) {
			return UninterpSort("O." + sanitize(shortType(t)))
		}
		if len(name) > 60 {
			name = fmt.Sprintf("T.struct%d", len(sortTable))
		}
		fs := make([]SField, u.NumFields())
		for i := range fs {
			fs[i] = SField{fmt.Sprintf("%s.%s", strings.TrimPrefix(name, "T."), sanitize(u.Field(i).Name())), sortOf(u.Field(i).Type())}
			if u.Field(i).Name() == "_" {
				fs[i].Name = fmt.Sprintf("%s_%d", fs[i].Name, i)
			}
		}
		return DataSort(name, "mk."+name, fs)
	case *types.Array:
		return ArrayS(IntS, sortOf(u.Elem()))
	case *types.TypeParam:
		return UninterpSort("TP." + sanitize(t.String()))
	}
	return IntS
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

var nilSlice = Mk(SliceS, Int(0), Int(0), Int(0), Int(0))
var nilIface = Mk(IfaceS, Int(0), Int(0))

func FloatC(r *big.Rat) *Term { return Mk(FloatS, Int(0), RealC(r)) }

var floatNaN = Mk(FloatS, Int(1), RealC(new(big.Rat)))
var floatPInf = Mk(FloatS, Int(2), RealC(new(big.Rat)))
var floatNInf = Mk(FloatS, Int(3), RealC(new(big.Rat)))

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return StrLit("")
		case u.Info()&types.IsFloat != 0:
			return FloatC(new(big.Rat))
		}
		return Int(0)
	case *types.Slice:
		return nilSlice
	case *types.Interface:
		return nilIface
	case *types.Struct:
		s := sortOf(t)
		if s.Kind == SUninterp {
			return App("zero."+s.Name, s)
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return Mk(s, args...)
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.TypeParam:
		return App("zero."+sortOf(t).Name, sortOf(t))
	}
	return Int(0)
}

func constTerm(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zeroOf(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return StrLit(constant.StringVal(v))
	case constant.Int, constant.Float:
		if isFloat(t) {
			r, ok := new(big.Rat).SetString(v.ExactString())
			if !ok {
				f, _ := constant.Float64Val(v)
				r = new(big.Rat).SetFloat64(f)
			}
			return FloatC(r)
		}
		n, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		if !ok {
			return Fresh("const", IntS)
		}
		return BigInt(n)
	}
	return Fresh("const", sortOf(t))
}

// typeFacts: facts every value of Go type t satisfies (pre-existing at base).
func typeFacts(x *Term, t types.Type, base *refBase) []*Term {
	t = types.Unalias(t)
	var out []*Term
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			if x.isConst() {
				return nil
			}
			b := intBits(t)
			if isUnsigned(t) {
				out = append(out, Le(Int(0), x))
				if b < 64 {
					out = append(out, Le(x, Int(1<<b-1)))
				}
			} else if b < 64 {
				out = append(out, Le(x, Int(1<<(b-1)-1)), Le(Int(-(1<<(b-1))), x))
			}
		}
	case *types.Slice:
		out = append(out, sliceFacts(x, base)...)
	case *types.Struct:
		if !isOpaque(t) {
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, typeFacts(Sel(x, i), u.Field(i).Type(), base)...)
			}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		if !x.isConst() && base != nil {
			if _, _, isB := splitRef(x); !isB {
				size := int64(1)
				if p, ok := u.(*types.Pointer); ok && hasParts(p.Elem()) { // its parts are as old as the object
					size = refStep / 4
					out = append(out, mkTerm("<=", "", BoolS, Int(-(1<<40)), x))
				}
				out = append(out, mkTerm("<=", "", BoolS, Add(x, Int(size)), base.t))
				if _, ok := olderThan[x]; !ok && (x.Op == "var" || x.Op == "select" || x.Op == "sel" || x.Op == "app") {
					olderThan[x] = base
				}
			}
		}
	case *types.Interface:
		notePayload(x, base)
	}
	return out
}

// hasParts: does the struct contain structs or arrays, which are addressed by offsets from its own address?
func hasParts(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || isOpaque(t) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isAggregate(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// notePayload: the object an interface value refers to (when it refers to one) is no younger than the value. Payloads
// that are not references are never compared with references.
func notePayload(x *Term, base *refBase) {
	if base == nil || x.S != IfaceS {
		return
	}
	if p := Sel(x, 1); p.Op == "sel" || p.Op == "app" || p.Op == "select" {
		if _, ok := olderThan[p]; !ok {
			olderThan[p] = base
		}
	}
}

func sliceFacts(x *Term, base *refBase) []*Term {
	r, o, l, c := Sel(x, 0), Sel(x, 1), Sel(x, 2), Sel(x, 3)
	out := []*Term{Le(Int(0), o), Le(Int(0), l), Le(l, c), Implies(Eq(r, Int(0)), And(Eq(c, Int(0)), Eq(o, Int(0))))}
	if base != nil && !r.isConst() {
		if _, _, isB := splitRef(r); !isB {
			out = append(out, mkTerm("<=", "", BoolS, Add(r, Int(1)), base.t))
			if _, ok := olderThan[r]; !ok && (r.Op == "var" || r.Op == "select" || r.Op == "sel" || r.Op == "app") {
				olderThan[r] = base
			}
		}
	}
	return out
}

// ---- type tags for interfaces

var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

// byte and uint8 are one type, and so are rune and int32
var (
	byteName  = regexp.MustCompile(`(^|[^\w./])byte\b`)
	uint8Name = regexp.MustCompile(`(^|[^\w./])uint8\b`)
	runeName  = regexp.MustCompile(`(^|[^\w./])rune\b`)
)

func typeTag(t types.Type) *Term {
	k := types.TypeString(types.Unalias(t), nil)
	k = byteName.ReplaceAllString(k, "${1}uint8")
	k = runeName.ReplaceAllString(k, "${1}int32")
	n, ok := typeTags[k]
	if !ok {
		n = int64(len(typeTags) + 1)
		typeTags[k] = n
		tagTypes[n] = t
	}
	return Int(n)
}

func tagType(tag *Term) types.Type {
	if n, ok := tag.isInt(); ok {
		return tagTypes[n]
	}
	return nil
}

func boxName(s *Sort) string { return "box." + sanitize(s.Name) }

func box(v *Term) *Term {
	switch v.S {
	case IntS:
		return v
	case BoolS:
		return Ite(v, Int(1), Int(0))
	}
	n := boxName(v.S)
	injective[n] = true
	if v.Op == "app" && v.Name == "un"+n {
		return v.Args[0]
	}
	return App(n, IntS, v)
}

func unbox(p *Term, s *Sort) *Term {
	switch s {
	case IntS:
		return p
	case BoolS:
		return Eq(p, Int(1))
	}
	n := boxName(s)
	injective[n] = true
	if p.Op == "app" && p.Name == n {
		return p.Args[0]
	}
	if p.Op == "ite" {
		return Ite(p.Args[0], unbox(p.Args[1], s), unbox(p.Args[2], s))
	}
	DeclFunc(n, IntS, s)
	return App("un"+n, s, p)
}

func mkIface(v *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		return v
	}
	return Mk(IfaceS, typeTag(t), box(v))
}
