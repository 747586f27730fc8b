package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Sorts

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SReal
	SUninterp
	SArray
	SData
)

type Sort struct {
	Kind   SortKind
	Name   string // SMT name
	Idx    *Sort  // arrays
	Elem   *Sort
	Ctor   string // single-constructor datatypes
	Fields []SField
	// multi-constructor datatypes (declared in contract files)
	Ctors []SCtor
	order int
}

type SCtor struct {
	Name   string
	Fields []SField
}

type SField struct {
	Name string
	Sort *Sort
}

var (
	BoolS = &Sort{Kind: SBool, Name: "Bool"}
	IntS  = &Sort{Kind: SInt, Name: "Int"}
	RealS = &Sort{Kind: SReal, Name: "Real"}
	StrS  = &Sort{Kind: SUninterp, Name: "Str"}
)

var sortTable = map[string]*Sort{"Bool": BoolS, "Int": IntS, "Real": RealS, "Str": StrS}
var sortOrder []*Sort = []*Sort{StrS}

func regSort(s *Sort) *Sort {
	if t, ok := sortTable[s.Name]; ok {
		return t
	}
	sortTable[s.Name] = s
	s.order = len(sortOrder)
	sortOrder = append(sortOrder, s)
	return s
}

func UninterpSort(name string) *Sort { return regSort(&Sort{Kind: SUninterp, Name: name}) }

func ArrayS(idx, elem *Sort) *Sort {
	n := "(Array " + idx.Name + " " + elem.Name + ")"
	if t, ok := sortTable[n]; ok {
		return t
	}
	s := &Sort{Kind: SArray, Name: n, Idx: idx, Elem: elem}
	sortTable[n] = s
	return s
}

func DataSort(name, ctor string, fields []SField) *Sort {
	return regSort(&Sort{Kind: SData, Name: name, Ctor: ctor, Fields: fields})
}

// Built-in datatypes.
var (
	SliceS = DataSort("Slice", "mkSlice", []SField{{"s_ref", IntS}, {"s_off", IntS}, {"s_len", IntS}, {"s_cap", IntS}})
	IfaceS = DataSort("Iface", "mkIface", []SField{{"i_tag", IntS}, {"i_pay", IntS}})
	// floats: kind 0 finite, 1 NaN, 2 +Inf, 3 -Inf
	FloatS = DataSort("Float", "mkFloat", []SField{{"f_kind", IntS}, {"f_val", RealS}})
)

// ---------------------------------------------------------------------------
// Terms (hash-consed)

type Term struct {
	id   int
	Op   string // see below
	Name string // symbol / literal
	Args []*Term
	S    *Sort
	hasB bool // contains bound variables
	size int
	rat  *big.Rat
}

// Ops: "var" "bvar" "int" "real" "true" "false" "app"(uninterpreted, Name) "strlit"
// "ite" "and" "or" "not" "=" "+" "*" "<=" "<" "/" "div" "mod" "select" "store" "mk" "sel" "forall" "exists" "constarr"
// "is" (datatype tester; Name = ctor)

var termTab = map[string]*Term{}
var termCount int

func mkTerm(op, name string, s *Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(s.Name)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{id: termCount, Op: op, Name: name, Args: args, S: s, size: 1}
	for _, a := range args {
		if a.hasB {
			t.hasB = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if op == "bvar" {
		t.hasB = true
	}
	termTab[k] = t
	return t
}

var (
	True  = mkTerm("true", "", BoolS)
	False = mkTerm("false", "", BoolS)
)

func Int(n int64) *Term { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term {
	t := mkTerm("int", n.String(), IntS)
	if t.rat == nil {
		t.rat = new(big.Rat).SetInt(n)
	}
	return t
}
func RealC(r *big.Rat) *Term {
	t := mkTerm("real", r.RatString(), RealS)
	if t.rat == nil {
		t.rat = r
	}
	return t
}
func Var(name string, s *Sort) *Term  { return mkTerm("var", name, s) }
func BVar(name string, s *Sort) *Term { return mkTerm("bvar", name, s) }
func StrLit(s string) *Term           { return mkTerm("strlit", s, StrS) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshN = map[string]int{}

func Fresh(name string, s *Sort) *Term {
	freshN[name]++
	return Var(fmt.Sprintf("%s!%d", sanitize(name), freshN[name]), s)
}

func sanitize(n string) string {
	var sb strings.Builder
	for _, c := range n {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (t *Term) isConst() bool { return t.rat != nil }
func (t *Term) isInt() (int64, bool) {
	if t.Op == "int" && t.rat.Num().IsInt64() {
		return t.rat.Num().Int64(), true
	}
	return 0, false
}

// ---------------------------------------------------------------------------
// Boolean constructors

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mkTerm("not", "", BoolS, a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True || seen[t] {
			return true
		}
		if t == False || seen[Not(t)] {
			return false
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkTerm("and", "", BoolS, out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False || seen[t] {
			return true
		}
		if t == True || seen[Not(t)] {
			return false
		}
		if t.Op == "or" {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// (a and x) or (a and not x) => a ; factor common conjuncts of all disjuncts
	conj := func(t *Term) []*Term {
		if t.Op == "and" {
			return t.Args
		}
		return []*Term{t}
	}
	common := map[*Term]bool{}
	for _, c := range conj(out[0]) {
		common[c] = true
	}
	for _, o := range out[1:] {
		here := map[*Term]bool{}
		for _, c := range conj(o) {
			here[c] = true
		}
		for c := range common {
			if !here[c] {
				delete(common, c)
			}
		}
	}
	if len(common) > 0 {
		var cs []*Term
		for _, c := range conj(out[0]) {
			if common[c] {
				cs = append(cs, c)
			}
		}
		var rest []*Term
		for _, o := range out {
			var r []*Term
			for _, c := range conj(o) {
				if !common[c] {
					r = append(r, c)
				}
			}
			rest = append(rest, And(r...))
		}
		cs = append(cs, Or(rest...))
		return And(cs...)
	}
	return mkTerm("or", "", BoolS, out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.S == BoolS {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s / %s: %s %s", a.S.Name, b.S.Name, a, b))
	}
	// ite(c, ite(c,x,y), z)
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Op == "mk" && b.Op == "mk" {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return Mk(a.S, args...)
	}
	return mkTerm("ite", "", a.S, c, a, b)
}

// ---------------------------------------------------------------------------
// Arithmetic with linear normal form

type lin struct {
	c     *big.Rat
	coef  map[*Term]*big.Rat
	order []*Term
}

func toLin(t *Term) *lin {
	l := &lin{c: new(big.Rat), coef: map[*Term]*big.Rat{}}
	l.add(t, big.NewRat(1, 1))
	return l
}

func (l *lin) add(t *Term, k *big.Rat) {
	switch {
	case t.rat != nil:
		l.c.Add(l.c, new(big.Rat).Mul(t.rat, k))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && len(t.Args) == 2 && t.Args[0].rat != nil:
		l.add(t.Args[1], new(big.Rat).Mul(k, t.Args[0].rat))
	default:
		if c, ok := l.coef[t]; ok {
			c.Add(c, k)
		} else {
			l.coef[t] = new(big.Rat).Set(k)
			l.order = append(l.order, t)
		}
	}
}

func (l *lin) term(s *Sort) *Term {
	sort.Slice(l.order, func(i, j int) bool { return l.order[i].id < l.order[j].id })
	var out []*Term
	k := func(r *big.Rat) *Term {
		if s == IntS {
			return BigInt(r.Num())
		}
		return RealC(r)
	}
	for _, t := range l.order {
		c := l.coef[t]
		if c.Sign() == 0 {
			continue
		}
		if c.Cmp(big.NewRat(1, 1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mkTerm("*", "", s, k(c), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, k(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkTerm("+", "", s, out...)
}

func Add(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewRat(1, 1))
	return l.term(a.S)
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewRat(-1, 1))
	return l.term(a.S)
}
func Neg(a *Term) *Term {
	l := &lin{c: new(big.Rat), coef: map[*Term]*big.Rat{}}
	l.add(a, big.NewRat(-1, 1))
	return l.term(a.S)
}
func Mul(a, b *Term) *Term {
	if a.rat != nil {
		l := &lin{c: new(big.Rat), coef: map[*Term]*big.Rat{}}
		l.add(b, a.rat)
		return l.term(b.S)
	}
	if b.rat != nil {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm("*", "", a.S, a, b)
}
func RDiv(a, b *Term) *Term {
	if b.rat != nil && b.rat.Sign() != 0 {
		l := &lin{c: new(big.Rat), coef: map[*Term]*big.Rat{}}
		l.add(a, new(big.Rat).Inv(b.rat))
		return l.term(RealS)
	}
	return mkTerm("/", "", RealS, a, b)
}
func Div(a, b *Term) *Term { // Euclidean/floor for positive divisor
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok && y > 0 && x >= 0 {
			return Int(x / y)
		}
	}
	return mkTerm("div", "", IntS, a, b)
}
func Mod(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok && y > 0 {
			return Int(((x % y) + y) % y)
		}
	}
	return mkTerm("mod", "", IntS, a, b)
}

func Le(a, b *Term) *Term {
	d := toLin(Sub(a, b))
	if t := d.term(a.S); t.rat != nil {
		return Bool(t.rat.Sign() <= 0)
	}
	if v, ok := orderKnown(a, b); ok {
		return Bool(v)
	}
	if a.Op == "ite" && b.rat != nil && a.Args[1].rat != nil && a.Args[2].rat != nil {
		return Ite(a.Args[0], Le(a.Args[1], b), Le(a.Args[2], b))
	}
	return mkTerm("<=", "", BoolS, a, b)
}
func Lt(a, b *Term) *Term {
	if a.S == IntS {
		return Le(Add(a, Int(1)), b)
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---------------------------------------------------------------------------
// Equality

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s / %s: %s = %s", a.S.Name, b.S.Name, a, b))
	}
	if a.S == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.S == IntS || a.S == RealS {
		d := Sub(a, b)
		if d.rat != nil {
			return Bool(d.rat.Sign() == 0)
		}
		if distinctRefs(a, b) {
			return False
		}
		if a.Op == "app" && b.Op == "app" && a.Name == b.Name && injective[a.Name] {
			return eqArgs(a, b)
		}
	}
	if a.Op == "strlit" && b.Op == "strlit" {
		return Bool(a.Name == b.Name)
	}
	if a.Op == "mk" && b.Op == "mk" {
		if a.Name != b.Name {
			return False
		}
		return eqArgs(a, b)
	}
	if a.Op == "ite" && isLit(a.Args[1]) && isLit(a.Args[2]) && isLit(b) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && isLit(b.Args[1]) && isLit(b.Args[2]) && isLit(a) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm("=", "", BoolS, a, b)
}

func isLit(t *Term) bool {
	if t.rat != nil || t.Op == "strlit" || t.Op == "true" || t.Op == "false" {
		return true
	}
	if t.Op == "mk" {
		for _, a := range t.Args {
			if !isLit(a) {
				return false
			}
		}
		return true
	}
	if t.Op == "ite" {
		return isLit(t.Args[1]) && isLit(t.Args[2])
	}
	return false
}

func eqArgs(a, b *Term) *Term {
	var cs []*Term
	for i := range a.Args {
		cs = append(cs, Eq(a.Args[i], b.Args[i]))
	}
	return And(cs...)
}

// functions declared injective (boxing)
var injective = map[string]bool{}

// ---------------------------------------------------------------------------
// Reference ordering knowledge: refs are Ints; "bases" are symbolic allocation
// frontiers. base i+1 >= base i + all allocations made from base i.

const refStep = 1 << 20

type refBase struct {
	t    *Term
	idx  int
	prev []*refBase
}

var refBases = map[*Term]*refBase{}
var refBaseN int

// olderThan[t] = base: t < base (t is a reference that existed when base was created)
var olderThan = map[*Term]*refBase{}

func newRefBase(prev ...*refBase) *refBase {
	refBaseN++
	b := &refBase{t: Var(fmt.Sprintf("alloc!%d", refBaseN), IntS), idx: refBaseN, prev: prev}
	refBases[b.t] = b
	return b
}

// geqBase: is base a (transitively) at or after base b?
func (a *refBase) after(b *refBase) bool {
	if a == b {
		return true
	}
	for _, p := range a.prev {
		if p.after(b) {
			return true
		}
	}
	return false
}

// splitRef: t = base + k
func splitRef(t *Term) (*refBase, int64, bool) {
	if b, ok := refBases[t]; ok {
		return b, 0, true
	}
	if t.Op == "+" && len(t.Args) == 2 {
		var k int64
		var b *refBase
		ok1, ok2 := false, false
		for _, a := range t.Args {
			if n, ok := a.isInt(); ok {
				k, ok1 = n, true
			} else if bb, ok := refBases[a]; ok {
				b, ok2 = bb, true
			}
		}
		if ok1 && ok2 {
			return b, k, true
		}
	}
	return nil, 0, false
}

func refOlder(t *Term, b *refBase) bool {
	if t.rat != nil { // nil and global refs
		n, ok := t.isInt()
		return ok && n < refStep
	}
	if o, ok := olderThan[t]; ok {
		return b.after(o)
	}
	if t.Op == "ite" {
		return refOlder(t.Args[1], b) && refOlder(t.Args[2], b)
	}
	if tb, _, ok := splitRef(t); ok {
		return tb != b && b.after(tb)
	}
	if t.Op == "+" && len(t.Args) == 2 { // sub-object of an older ref
		for i, a := range t.Args {
			if n, ok := a.isInt(); ok && n > 0 && n < refStep/2 {
				return refOlder(t.Args[1-i], b)
			}
		}
	}
	return false
}

func distinctRefs(a, b *Term) bool {
	if x, k, ok := splitRef(a); ok && k >= 0 {
		if refOlder(b, x) {
			return true
		}
	}
	if x, k, ok := splitRef(b); ok && k >= 0 {
		if refOlder(a, x) {
			return true
		}
	}
	return false
}

// orderKnown decides a <= b for refs where possible.
func orderKnown(a, b *Term) (bool, bool) {
	if a.S != IntS {
		return false, false
	}
	if x, k, ok := splitRef(b); ok && k >= 0 && refOlder(a, x) {
		return true, true // a < base <= b
	}
	if x, k, ok := splitRef(a); ok && k >= 0 && refOlder(b, x) {
		return false, true // b < base <= a
	}
	// a = t+1 form (from Lt): t < b
	if a.Op == "+" {
		t := Sub(a, Int(1))
		if x, k, ok := splitRef(b); ok && k >= 0 && refOlder(t, x) {
			return true, true
		}
	}
	return false, false
}

// ---------------------------------------------------------------------------
// Arrays

func Select(a, i *Term) *Term {
	if a.S.Kind != SArray {
		panic("select on " + a.S.Name + " " + a.String())
	}
	for {
		if a.Op == "store" {
			e := Eq(a.Args[1], i)
			if e == True {
				return a.Args[2]
			}
			if e == False {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	if i.Op == "ite" && i.S == IntS && i.size < 200 {
		return Ite(i.Args[0], Select(a, i.Args[1]), Select(a, i.Args[2]))
	}
	if a.Op == "ite" {
		x := Select(a.Args[1], i)
		y := Select(a.Args[2], i)
		return Ite(a.Args[0], x, y)
	}
	if a.Op == "store" { // constant table
		var idx, val []*Term
		b := a
		for b.Op == "store" && isLit(b.Args[1]) && isLit(b.Args[2]) && len(idx) <= 24 {
			idx, val = append(idx, b.Args[1]), append(val, b.Args[2])
			b = b.Args[0]
		}
		if b.Op == "constarr" && isLit(b.Args[0]) {
			r := b.Args[0]
			for k := len(idx) - 1; k >= 0; k-- {
				r = Ite(Eq(i, idx[k]), val[k], r)
			}
			return r
		}
	}
	t := mkTerm("select", "", a.S.Elem, a, i)
	if b, ok := arrayBirth[a]; ok && !t.hasB && (arrayInner[a] || refOlder(i, b)) {
		noteLoaded(t, b)
	}
	return t
}

// heap constants: references read out of them are older than their birth base
var arrayBirth = map[*Term]*refBase{}

// arrayInner: contents of one slice (its index is not a reference)
var arrayInner = map[*Term]bool{}

// refSorted: array consts whose Int elements are references
var arrayIsRef = map[*Term]bool{}

func noteLoaded(t *Term, b *refBase) {
	if t.S == IntS {
		if arrayIsRef[t.Args[0]] {
			if _, ok := olderThan[t]; !ok {
				olderThan[t] = b
			}
		}
		return
	}
	if t.S.Kind == SArray { // slice memory: inner arrays
		if _, ok := arrayBirth[t]; !ok {
			arrayBirth[t] = b
			arrayInner[t] = true
			if arrayIsRef[t.Args[0]] {
				arrayIsRef[t] = true
			}
		}
		return
	}
	if t.S == SliceS {
		r := Sel(t, 0)
		if _, ok := olderThan[r]; !ok {
			olderThan[r] = b
		}
	}
	if t.S == IfaceS {
		notePayload(t, b)
	}
}

func Store(a, i, v *Term) *Term {
	if a.S.Elem != v.S || a.S.Idx != i.S {
		panic(fmt.Sprintf("store sorts %s [%s] := %s (%s)", a.S.Name, i.S.Name, v.S.Name, v))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mkTerm("store", "", a.S, a, i, v)
}

func ConstArr(s *Sort, v *Term) *Term { return mkTerm("constarr", "", s, v) }

// ---------------------------------------------------------------------------
// Datatypes

func Mk(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("mk arity " + s.Name)
	}
	for i, a := range args {
		if a.S != s.Fields[i].Sort {
			panic(fmt.Sprintf("mk %s field %s: sort %s, got %s %s", s.Name, s.Fields[i].Name, s.Fields[i].Sort.Name, a.S.Name, a))
		}
	}
	// eta
	if len(args) > 0 && args[0].Op == "sel" && args[0].Name == s.Fields[0].Name {
		x := args[0].Args[0]
		ok := x.S == s
		for i, a := range args {
			if !(a.Op == "sel" && a.Name == s.Fields[i].Name && a.Args[0] == x) {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return mkTerm("mk", s.Ctor, s, args...)
}

func Sel(t *Term, i int) *Term {
	if t.Op == "mk" {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Sel(t.Args[1], i), Sel(t.Args[2], i))
	}
	f := t.S.Fields[i]
	return mkTerm("sel", f.Name, f.Sort, t)
}

func SelName(t *Term, name string) *Term {
	for i, f := range t.S.Fields {
		if f.Name == name {
			return Sel(t, i)
		}
	}
	panic("no field " + name + " in " + t.S.Name)
}

func WithField(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(t.S.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(t, j)
		}
	}
	return Mk(t.S, args...)
}

// multi-constructor datatypes
func MkC(s *Sort, ctor string, args ...*Term) *Term { return mkTerm("mk", ctor, s, args...) }

func ctorOf(s *Sort, name string) *SCtor {
	for i := range s.Ctors {
		if s.Ctors[i].Name == name {
			return &s.Ctors[i]
		}
	}
	return nil
}

func IsC(t *Term, ctor string) *Term {
	if t.Op == "mk" {
		return Bool(t.Name == ctor)
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], IsC(t.Args[1], ctor), IsC(t.Args[2], ctor))
	}
	return mkTerm("is", ctor, BoolS, t)
}

func SelC(t *Term, ctor, field string) *Term {
	c := ctorOf(t.S, ctor)
	for i, f := range c.Fields {
		if f.Name == field {
			if t.Op == "mk" && t.Name == ctor {
				return t.Args[i]
			}
			if t.Op == "ite" {
				return Ite(t.Args[0], SelC(t.Args[1], ctor, field), SelC(t.Args[2], ctor, field))
			}
			return mkTerm("sel", f.Name, f.Sort, t)
		}
	}
	panic("no field " + field)
}

// ---------------------------------------------------------------------------
// Uninterpreted functions

type FuncDecl struct {
	Name string
	Args []*Sort
	Ret  *Sort
}

var funcDecls = map[string]*FuncDecl{}

func DeclFunc(name string, ret *Sort, args ...*Sort) *FuncDecl {
	if f, ok := funcDecls[name]; ok {
		return f
	}
	f := &FuncDecl{name, args, ret}
	funcDecls[name] = f
	return f
}

// rewriters: semantic simplification for particular function symbols
var rewriters = map[string]func(args []*Term) *Term{}

func App(name string, ret *Sort, args ...*Term) *Term {
	if rw, ok := rewriters[name]; ok {
		if r := rw(args); r != nil {
			return r
		}
	}
	if f, ok := funcDecls[name]; ok {
		if len(f.Args) != len(args) {
			panic("arity of " + name)
		}
		for i := range args {
			if f.Args[i] != args[i].S {
				panic(fmt.Sprintf("app %s arg %d: want %s got %s (%s)", name, i, f.Args[i].Name, args[i].S.Name, args[i]))
			}
		}
		ret = f.Ret
	} else {
		ss := make([]*Sort, len(args))
		for i, a := range args {
			ss[i] = a.S
		}
		DeclFunc(name, ret, ss...)
	}
	return mkTerm("app", name, ret, args...)
}

func Forall(vars []*Term, body *Term, pats ...*Term) *Term { return quant("forall", vars, body, pats) }
func Exists(vars []*Term, body *Term) *Term                { return quant("exists", vars, body, nil) }

func quant(op string, vars []*Term, body *Term, pats []*Term) *Term {
	if body == True || body == False {
		return body
	}
	args := append([]*Term{body}, vars...)
	args = append(args, pats...)
	t := mkTerm(op, strconv.Itoa(len(vars)), BoolS, args...)
	// closedness: recompute hasB
	free := map[*Term]bool{}
	freeB(t, free, map[*Term]bool{})
	t.hasB = len(free) > 0
	return t
}

func freeB(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.hasB && t.Op != "forall" && t.Op != "exists" {
		return
	}
	if t.Op == "bvar" {
		out[t] = true
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		n, _ := strconv.Atoi(t.Name)
		inner := map[*Term]bool{}
		freeB(t.Args[0], inner, map[*Term]bool{})
		for _, v := range t.Args[1 : 1+n] {
			delete(inner, v)
		}
		for v := range inner {
			out[v] = true
		}
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		freeB(a, out, seen)
	}
}

// Subst replaces variables (var or bvar terms) by terms, rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	return substRec(t, m, map[*Term]*Term{})
}

func substRec(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substRec(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(args[0], args[1])
	case "/":
		return RDiv(args[0], args[1])
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "constarr":
		return ConstArr(t.S, args[0])
	case "mk":
		if len(t.S.Ctors) > 0 {
			return MkC(t.S, t.Name, args...)
		}
		return Mk(t.S, args...)
	case "sel":
		if len(t.S.Fields) == 0 || true {
			if len(args[0].S.Ctors) > 0 {
				for _, c := range args[0].S.Ctors {
					for _, f := range c.Fields {
						if f.Name == t.Name {
							return SelC(args[0], c.Name, f.Name)
						}
					}
				}
			}
		}
		return SelName(args[0], t.Name)
	case "is":
		return IsC(args[0], t.Name)
	case "app":
		return App(t.Name, t.S, args...)
	case "toreal":
		return ToReal(args[0])
	case "forall", "exists":
		n, _ := strconv.Atoi(t.Name)
		return quant(t.Op, args[1:1+n], args[0], args[1+n:])
	}
	return mkTerm(t.Op, t.Name, t.S, args...)
}

func ToReal(a *Term) *Term {
	if a.rat != nil {
		return RealC(a.rat)
	}
	return mkTerm("toreal", "", RealS, a)
}

// ---------------------------------------------------------------------------
// Printing

func (t *Term) String() string {
	s := smt(t, nil)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func smtSym(n string) string {
	ok := n != ""
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!$", c)) {
			ok = false
		}
	}
	if ok && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
}

func ratSMT(r *big.Rat, real bool) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if a.IsInt() {
		s = a.Num().String()
		if real {
			s += ".0"
		}
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

// smt prints t; names maps shared terms to defined names.
func smt(t *Term, names map[*Term]string) string {
	if names != nil {
		if n, ok := names[t]; ok {
			return n
		}
	}
	return smtBody(t, names)
}

func smtBody(t *Term, names map[*Term]string) string {
	list := func(op string) string {
		var sb strings.Builder
		sb.WriteString("(")
		sb.WriteString(op)
		for _, a := range t.Args {
			sb.WriteByte(' ')
			sb.WriteString(smt(a, names))
		}
		sb.WriteString(")")
		return sb.String()
	}
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		return ratSMT(t.rat, false)
	case "real":
		return ratSMT(t.rat, true)
	case "var", "bvar":
		return smtSym(t.Name)
	case "strlit":
		return strLitName(t)
	case "app":
		if len(t.Args) == 0 {
			return smtSym(t.Name)
		}
		return list(smtSym(t.Name))
	case "mk":
		if len(t.Args) == 0 {
			return t.Name
		}
		return list(smtSym(t.Name))
	case "sel":
		return list(smtSym(t.Name))
	case "is":
		return list("(_ is " + smtSym(t.Name) + ")")
	case "constarr":
		return "((as const " + t.S.Name + ") " + smt(t.Args[0], names) + ")"
	case "toreal":
		return list("to_real")
	case "forall", "exists":
		n, _ := strconv.Atoi(t.Name)
		var sb strings.Builder
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Args[1 : 1+n] {
			sb.WriteString("(" + smtSym(v.Name) + " " + v.S.Name + ")")
		}
		sb.WriteString(") ")
		body := smt(t.Args[0], names)
		pats := t.Args[1+n:]
		if len(pats) > 0 {
			sb.WriteString("(! " + body)
			for _, p := range pats {
				if p.Op == "multipat" {
					sb.WriteString(" :pattern (")
					for i, q := range p.Args {
						if i > 0 {
							sb.WriteByte(' ')
						}
						sb.WriteString(smt(q, names))
					}
					sb.WriteString(")")
				} else {
					sb.WriteString(" :pattern (" + smt(p, names) + ")")
				}
			}
			sb.WriteString(")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		return sb.String()
	}
	return list(t.Op)
}

var strLitIds = map[*Term]int{}

func strLitName(t *Term) string {
	if t.Name == "" {
		return "st.empty"
	}
	id, ok := strLitIds[t]
	if !ok {
		id = len(strLitIds) + 1
		strLitIds[t] = id
	}
	c := sanitize(t.Name)
	if len(c) > 24 {
		c = c[:24]
	}
	return smtSym(fmt.Sprintf("lit%d.%s", id, c))
}

func collect(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		collect(a, seen, f)
	}
	f(t)
}
