package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------------------
// Contract files.
//
//   package <import path relative to the module, or absolute for other modules>
//   sort Name
//   datatype Name = C1(f T, ...) | C2 | ...
//   spec func name(x T, ...) R [= expr]          (= expr: macro, expanded in place)
//   rec func name(x T, ...) R = expr             (recursive definition, unfolded on ground terms)
//   axiom [name] (x T, ...) {trig; trig} : expr  (trusted, or proved elsewhere)
//   func <key> (names) (results) [trusted] [pure]
//     prop C01, C02            (tags for the following clauses)
//     requires expr
//     ensures [label:] expr
//     modifies place, place
//     loop N [modifies ...]
//       invariant expr
//   Comments start with #.

type SType struct {
	Text string // Go type text, or ghost sort name, or seq[T]
}

type Expr struct {
	Op    string // ident int str call sel index slice unary binary cond forall exists old
	Name  string
	Args  []*Expr
	Vars  []Param
	Trigs [][]*Expr
	Pos   string
}

type Param struct {
	Name string
	Type string
}

type Clause struct {
	Label string
	E     *Expr
	Props map[string]bool
	Text  string
	Pos   string
}

type LoopSpec struct {
	Index int
	Inv   []*Clause
	Mod   []*Expr
	Own   bool
}

type Contract struct {
	Pkg      string
	Key      string
	Params   []string
	Results  []string
	Trusted  bool
	Pure     bool
	Inline   bool // only carries loop specs
	Safe     map[string]bool
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Expr
	ModProps []map[string]bool
	HasMod   bool
	Cuts     []*Clause
	Loops    map[int]*LoopSpec
	Asserts  []*Clause
	Pos      string
	Props    map[string]bool
	Witness  []*Clause
	Lemmas   []*Clause
	Optional bool
	Split    bool
	Hide     map[string]bool // recursive specification functions not unfolded and lemmas not used in the proof
	NoFrame  bool
}

type SpecFunc struct {
	Name    string
	Pkg     string
	Params  []Param
	Ret     string
	Body    *Expr
	Rec     bool
	Builtin bool
}

type Axiom struct {
	Name   string
	Pkg    string
	Vars   []Param
	Trigs  [][]*Expr
	Body   *Expr
	Props  map[string]bool
	Pos    string
	Ground bool
	Rule   bool // considered only for goals that mention a predicate some rule introduces
}

type SpecFile struct {
	contracts map[string]*Contract
	order     []*Contract
	funcs     map[string]*SpecFunc
	axioms    []*Axiom
	dts       []dtDecl
	ghosts    []ghostDecl
	lemmas    []*Lemma
	globals   []globalDecl
}

// Lemma: closed formula proved from the axioms/definitions by the solver.
type Lemma struct {
	Name  string
	Pkg   string
	Vars  []Param
	Req   []*Clause
	Ens   []*Clause
	Props map[string]bool
	Pos   string
	Trigs [][]*Expr
	Hint  []*Clause
	Hide  map[string]bool
	Ind   string // induction variable (int): the lemma for Ind-1 is assumed when Ind >= 1
}

type dtDecl struct {
	Name  string
	Ctors []dtCtor
	Pkg   string
}
type dtCtor struct {
	Name   string
	Fields []Param
}
type ghostDecl struct {
	Type  string // opaque Go type
	Field string
	Sort  string
	Zero  *Expr
	Pkg   string
}
type globalDecl struct {
	Name string
	Pkg  string
}

type lexer struct {
	s    string
	i    int
	toks []tok
	pos  string
}
type tok struct {
	k string // ident int str op eof
	s string
}

func lexExpr(s, pos string) ([]tok, error) {
	var out []tok
	rs := []rune(s)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '#':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{"ident", string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i + 1
			for j < len(rs) && (unicode.IsDigit(rs[j]) || rs[j] == '.' && j+1 < len(rs) && unicode.IsDigit(rs[j+1]) || rs[j] == 'x' || rs[i] == '0' && j > i+1 && rs[i+1] == 'x' && unicode.IsLetter(rs[j])) {
				j++
			}
			out = append(out, tok{"num", string(rs[i:j])})
			i = j
		case c == '"':
			var sb strings.Builder
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' && j+1 < len(rs) {
					j++
					switch rs[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					case 'r':
						sb.WriteByte('\r')
					case 'u':
						n, err := strconv.ParseUint(string(rs[j+1:j+5]), 16, 32)
						if err != nil {
							panic(err)
						}
						sb.WriteRune(rune(n))
						j += 4
					default:
						sb.WriteRune(rs[j])
					}
				} else {
					sb.WriteRune(rs[j])
				}
				j++
			}
			out = append(out, tok{"str", sb.String()})
			i = j + 1
		case c == '`':
			j := i + 1
			for j < len(rs) && rs[j] != '`' {
				j++
			}
			out = append(out, tok{"str", string(rs[i+1 : j])})
			i = j + 1
		case c == '\'':
			j := i + 1
			r := rs[j]
			if r == '\\' {
				j++
				switch rs[j] {
				case 'n':
					r = '\n'
				case 't':
					r = '\t'
				case 'r':
					r = '\r'
				case 'b':
					r = '\b'
				case 'f':
					r = '\f'
				default:
					r = rs[j]
				}
			}
			out = append(out, tok{"num", fmt.Sprint(int(r))})
			i = j + 2
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||"}
			found := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					out = append(out, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	t   []tok
	i   int
	pos string
}

type parseErr struct{ msg string }

func (p *parser) fail(f string, a ...any) {
	near := ""
	for j := max(0, p.i-3); j < min(len(p.t), p.i+4); j++ {
		near += p.t[j].s + " "
	}
	panic(parseErr{p.pos + ": " + fmt.Sprintf(f, a...) + " near: " + near})
}
func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) is(s string) bool {
	return p.t[p.i].k == "op" && p.t[p.i].s == s || p.t[p.i].k == "ident" && p.t[p.i].s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	if p.t[p.i].k != "ident" {
		p.fail("expected identifier")
	}
	p.i++
	return p.t[p.i-1].s
}

func parseExprStr(s, pos string) (e *Expr) {
	t, err := lexExpr(s, pos)
	if err != nil {
		panic(parseErr{err.Error()})
	}
	p := &parser{t: t, pos: pos}
	e = p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing tokens")
	}
	return e
}

func (p *parser) expr() *Expr {
	if p.is("forall") || p.is("exists") {
		op := p.ident()
		vars := p.params(func() bool { return p.is("::") || p.is("{") })
		var trigs [][]*Expr
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			trigs = append(trigs, tr)
		}
		p.expect("::")
		b := p.expr()
		return &Expr{Op: op, Vars: vars, Args: []*Expr{b}, Trigs: trigs, Pos: p.pos}
	}
	if p.is("let") && p.t[p.i+1].k == "ident" {
		p.i++
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect(";")
		b := p.expr()
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}, Pos: p.pos}
	}
	return p.iff()
}

// params parses "x T, y, z U" until stop.
func (p *parser) params(stop func() bool) []Param {
	var out []Param
	for !stop() {
		n := p.ident()
		typ := ""
		if !p.is(",") && !stop() {
			typ = p.typeText(stop)
		}
		out = append(out, Param{n, typ})
		if !p.accept(",") {
			break
		}
	}
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].Type == "" {
			out[i].Type = out[i+1].Type
		}
	}
	return out
}

func (p *parser) typeText(stop func() bool) string {
	depth := 0
	var sb strings.Builder
	for {
		t := p.peek()
		if t.k == "eof" {
			break
		}
		if depth == 0 && (p.is(",") || stop()) {
			break
		}
		if t.s == "(" || t.s == "[" {
			depth++
		}
		if t.s == ")" || t.s == "]" {
			if depth == 0 {
				break
			}
			depth--
		}
		if sb.Len() > 0 && t.k == "ident" && (strings.HasSuffix(sb.String(), "func") || strings.HasSuffix(sb.String(), ")")) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t.s)
		p.i++
	}
	return sb.String()
}

func (p *parser) iff() *Expr {
	l := p.impl()
	for p.is("<==>") {
		p.i++
		r := p.impl()
		l = &Expr{Op: "binary", Name: "<==>", Args: []*Expr{l, r}, Pos: p.pos}
	}
	return l
}
func (p *parser) impl() *Expr {
	l := p.cond()
	if p.accept("==>") {
		var r *Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			r = p.expr()
		} else {
			r = p.impl()
		}
		return &Expr{Op: "binary", Name: "==>", Args: []*Expr{l, r}, Pos: p.pos}
	}
	return l
}
func (p *parser) cond() *Expr {
	c := p.or()
	if p.accept("?") {
		a := p.impl()
		p.expect(":")
		b := p.impl()
		return &Expr{Op: "cond", Args: []*Expr{c, a, b}, Pos: p.pos}
	}
	return c
}
func (p *parser) bin(next func() *Expr, ops ...string) *Expr {
	l := next()
	for {
		m := ""
		for _, o := range ops {
			if p.peek().k == "op" && p.is(o) {
				m = o
			}
		}
		if m == "" {
			return l
		}
		p.i++
		var r *Expr
		if (m == "&&" || m == "||") && (p.is("forall") || p.is("exists") || p.is("let")) {
			r = p.expr()
		} else {
			r = next()
		}
		l = &Expr{Op: "binary", Name: m, Args: []*Expr{l, r}, Pos: p.pos}
	}
}
func (p *parser) or() *Expr  { return p.bin(p.and, "||") }
func (p *parser) and() *Expr { return p.bin(p.cmp, "&&") }
func (p *parser) cmp() *Expr {
	l := p.add()
	var res *Expr
	for {
		m := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.peek().k == "op" && p.peek().s == o {
				m = o
			}
		}
		if m == "" {
			if res != nil {
				return res
			}
			return l
		}
		p.i++
		r := p.add()
		c := &Expr{Op: "binary", Name: m, Args: []*Expr{l, r}, Pos: p.pos}
		if res == nil {
			res = c
		} else {
			res = &Expr{Op: "binary", Name: "&&", Args: []*Expr{res, c}, Pos: p.pos}
		}
		l = r
	}
}
func (p *parser) add() *Expr { return p.bin(p.mul, "+", "-") }
func (p *parser) mul() *Expr { return p.bin(p.unary, "*", "/", "%") }
func (p *parser) unary() *Expr {
	for _, o := range []string{"!", "-", "*", "&"} {
		if p.peek().k == "op" && p.peek().s == o {
			p.i++
			x := p.unary()
			return &Expr{Op: "unary", Name: o, Args: []*Expr{x}, Pos: p.pos}
		}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.is("."):
			p.i++
			if p.accept("(") { // type assertion x.(T)
				stop := func() bool { return p.is(")") }
				t := p.typeText(stop)
				p.expect(")")
				e = &Expr{Op: "assert", Name: t, Args: []*Expr{e}, Pos: p.pos}
				continue
			}
			n := p.ident()
			e = &Expr{Op: "sel", Name: n, Args: []*Expr{e}, Pos: p.pos}
		case p.is("["):
			p.i++
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, nil, hi}, Pos: p.pos}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, hi}, Pos: p.pos}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}, Pos: p.pos}
		case p.is("("):
			p.i++
			// type-argument builtins take a type text as first argument
			args := []*Expr{e}
			if e.Op == "ident" && (e.Name == "zero" || e.Name == "type" || e.Name == "tagOf") {
				t := p.typeText(func() bool { return p.is(")") })
				p.expect(")")
				e = &Expr{Op: "typecall", Name: e.Name, Pos: p.pos, Vars: []Param{{"", t}}}
				continue
			}
			if e.Op == "ident" && e.Name == "mk" || e.Op == "ident" && e.Name == "unboxed" {
				nm := e.Name
				t := p.typeText(func() bool { return p.is(",") || p.is(")") })
				var as []*Expr
				for p.accept(",") {
					as = append(as, p.expr())
				}
				p.expect(")")
				e = &Expr{Op: "typecall", Name: nm, Pos: p.pos, Vars: []Param{{"", t}}, Args: as}
				continue
			}
			for !p.is(")") {
				args = append(args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = &Expr{Op: "call", Args: args, Pos: p.pos}
		default:
			return e
		}
	}
}
func (p *parser) primary() *Expr {
	t := p.peek()
	switch t.k {
	case "num":
		p.i++
		return &Expr{Op: "num", Name: t.s, Pos: p.pos}
	case "str":
		p.i++
		return &Expr{Op: "str", Name: t.s, Pos: p.pos}
	case "ident":
		if t.s == "forall" || t.s == "exists" {
			return p.expr()
		}
		p.i++
		return &Expr{Op: "ident", Name: t.s, Pos: p.pos}
	}
	if p.accept("(") {
		e := p.expr()
		p.expect(")")
		return e
	}
	p.fail("unexpected token %q", t.s)
	return nil
}

// ---------------------------------------------------------------------------

func loadSpecs(dir string) (sf *SpecFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	sf = &SpecFile{contracts: map[string]*Contract{}, funcs: map[string]*SpecFunc{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		sf.parse(string(b), filepath.Base(f))
	}
	return sf, nil
}

var clauseWords = map[string]bool{"package": true, "sort": true, "datatype": true, "spec": true, "rec": true, "axiom": true, "rule": true, "func": true,
	"prop": true, "requires": true, "ensures": true, "modifies": true, "loop": true, "invariant": true, "cut": true, "ghost": true, "lemma": true, "safe": true,
	"assert": true, "hide": true, "hint": true, "ground": true, "induction": true}

func (sf *SpecFile) parse(text, file string) {
	// Join continuation lines: a new item starts at a line whose first word is a clause word.
	type item struct {
		word, rest, pos string
	}
	var items []item
	for n, line := range strings.Split(text, "\n") {
		l := strings.TrimSpace(line)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		w := l
		if i := strings.IndexAny(l, " \t("); i >= 0 {
			w = l[:i]
		}
		if clauseWords[w] && !strings.HasPrefix(l, w+"(") {
			items = append(items, item{w, strings.TrimSpace(l[len(w):]), fmt.Sprintf("%s:%d", file, n+1)})
		} else if len(items) > 0 {
			items[len(items)-1].rest += "\n" + l
		}
	}
	pkg := ""
	var cur *Contract
	var curLoop *LoopSpec
	var curLemma *Lemma
	props := map[string]bool{}
	parseProps := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, x := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
			if x != "all" {
				m[x] = true
			}
		}
		return m
	}
	clause := func(it item) *Clause {
		rest := it.rest
		label := ""
		if i := strings.Index(rest, ":"); i > 0 && (i+1 >= len(rest) || rest[i+1] != ':') {
			w := strings.TrimSpace(rest[:i])
			ok := w != ""
			for _, c := range w {
				if !(unicode.IsLetter(c) || unicode.IsDigit(c) || c == '_' || c == '-') {
					ok = false
				}
			}
			if ok {
				label = w
				rest = rest[i+1:]
			}
		}
		return &Clause{Label: label, E: parseExprStr(rest, it.pos), Props: props, Text: strings.Join(strings.Fields(rest), " "), Pos: it.pos}
	}
	for _, it := range items {
		switch it.word {
		case "package":
			pkg = it.rest
			cur, curLoop, curLemma = nil, nil, nil
			props = map[string]bool{}
		case "sort":
			UninterpSort(it.rest)
		case "datatype":
			i := strings.Index(it.rest, "=")
			d := dtDecl{Name: strings.TrimSpace(it.rest[:i]), Pkg: pkg}
			ts, _ := lexExpr(it.rest[i+1:], it.pos)
			p := &parser{t: ts, pos: it.pos}
			for {
				c := dtCtor{Name: p.ident()}
				if p.accept("(") {
					c.Fields = p.params(func() bool { return p.is(")") })
					p.expect(")")
				}
				d.Ctors = append(d.Ctors, c)
				if !p.accept("|") {
					break
				}
			}
			sf.dts = append(sf.dts, d)
		case "spec", "rec":
			ts, _ := lexExpr(it.rest, it.pos)
			p := &parser{t: ts, pos: it.pos}
			p.expect("func")
			f := &SpecFunc{Name: p.ident(), Pkg: pkg, Rec: it.word == "rec"}
			p.expect("(")
			f.Params = p.params(func() bool { return p.is(")") })
			p.expect(")")
			f.Ret = p.typeText(func() bool { return p.is("=") })
			if p.accept("=") {
				f.Body = p.expr()
			}
			if p.peek().k != "eof" {
				p.fail("trailing tokens in spec func")
			}
			if sf.funcs[f.Name] != nil {
				p.fail("spec function " + f.Name + " is already defined")
			}
			sf.funcs[f.Name] = f
		case "axiom", "ground", "rule":
			ts, _ := lexExpr(it.rest, it.pos)
			p := &parser{t: ts, pos: it.pos}
			a := &Axiom{Pkg: pkg, Props: map[string]bool{}, Pos: it.pos, Ground: it.word == "ground", Rule: it.word == "rule"}
			if p.peek().k == "ident" {
				a.Name = p.ident()
			}
			if p.accept("(") {
				a.Vars = p.params(func() bool { return p.is(")") })
				p.expect(")")
			}
			for p.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if !p.accept(",") && !p.accept(";") {
						break
					}
				}
				p.expect("}")
				a.Trigs = append(a.Trigs, tr)
			}
			p.expect(":")
			a.Body = p.expr()
			if p.peek().k != "eof" {
				p.fail("trailing tokens in axiom")
			}
			sf.axioms = append(sf.axioms, a)
		case "ghost": // ghost field T.f Sort = zero
			ts, _ := lexExpr(it.rest, it.pos)
			p := &parser{t: ts, pos: it.pos}
			p.expect("field")
			name := p.ident()
			for {
				if p.accept(".") {
					name += "." + p.ident()
				} else if p.accept("/") {
					name += "/" + p.ident()
				} else {
					break
				}
			}
			i := strings.LastIndex(name, ".")
			g := ghostDecl{Type: name[:i], Field: name[i+1:], Pkg: pkg}
			g.Sort = p.typeText(func() bool { return p.is("=") })
			if p.accept("=") {
				g.Zero = p.expr()
			}
			sf.ghosts = append(sf.ghosts, g)
		case "lemma":
			ts, _ := lexExpr(it.rest, it.pos)
			p := &parser{t: ts, pos: it.pos}
			curLemma = &Lemma{Name: p.ident(), Pkg: pkg, Pos: it.pos, Props: map[string]bool{}}
			p.expect("(")
			curLemma.Vars = p.params(func() bool { return p.is(")") })
			p.expect(")")
			for p.accept("{") {
				var tr []*Expr
				for {
					tr = append(tr, p.expr())
					if !p.accept(",") && !p.accept(";") {
						break
					}
				}
				p.expect("}")
				curLemma.Trigs = append(curLemma.Trigs, tr)
			}
			sf.lemmas = append(sf.lemmas, curLemma)
			cur = nil
			props = map[string]bool{}
		case "induction":
			curLemma.Ind = it.rest
		case "hint":
			if curLemma != nil {
				curLemma.Hint = append(curLemma.Hint, clause(it))
			}
		case "func":
			// key ( names ) ( names ) flags
			c := &Contract{Pkg: pkg, Loops: map[int]*LoopSpec{}, Pos: it.pos, Safe: map[string]bool{}, Props: map[string]bool{}}
			rest := it.rest
			// key may start with '(' for methods: (*T).M or (T).M
			ki := 0
			if strings.HasPrefix(rest, "(") {
				ki = strings.Index(rest, ")") + 1
			}
			i := strings.Index(rest[ki:], "(")
			flags := ""
			if i < 0 {
				f := strings.Fields(rest)
				c.Key = f[0]
				flags = strings.Join(f[1:], " ")
			} else {
				i += ki
				c.Key = strings.TrimSpace(rest[:i])
				j := strings.Index(rest[i:], ")") + i
				for _, n := range strings.Split(rest[i+1:j], ",") {
					if n = strings.TrimSpace(n); n != "" {
						c.Params = append(c.Params, strings.Fields(n)[0])
					}
				}
				rest = strings.TrimSpace(rest[j+1:])
				if strings.HasPrefix(rest, "(") {
					j := strings.Index(rest, ")")
					for _, n := range strings.Split(rest[1:j], ",") {
						if n = strings.TrimSpace(n); n != "" {
							c.Results = append(c.Results, strings.Fields(n)[0])
						}
					}
					rest = rest[j+1:]
				}
				flags = rest
			}
			for _, f := range strings.Fields(flags) {
				switch f {
				case "trusted":
					c.Trusted = true
				case "pure":
					c.Pure, c.Trusted = true, true
				case "inline":
					c.Inline = true
				case "split":
					c.Split = true
				case "noframe":
					c.NoFrame = true
				case "optional":
					c.Optional = true
				default:
					panic(parseErr{it.pos + ": unknown flag " + f})
				}
			}
			full := c.Key
			if pkg != "" && !strings.HasPrefix(full, "(error).") {
				if strings.HasPrefix(full, "(*") {
					full = "(*" + pkg + "." + full[2:]
				} else if strings.HasPrefix(full, "(") {
					full = "(" + pkg + "." + full[1:]
				} else {
					full = pkg + "." + full
				}
			}
			c.Key = full
			if old, dup := sf.contracts[full]; dup {
				// Further clauses for the same function (other property groups).
				cur = old
				if len(c.Params) > 0 && strings.Join(c.Params, ",") != strings.Join(old.Params, ",") {
					panic(parseErr{it.pos + ": parameter names differ from " + old.Pos})
				}
			} else {
				cur = c
				sf.contracts[full] = c
				sf.order = append(sf.order, c)
			}
			curLoop, curLemma = nil, nil
			props = map[string]bool{}
		case "prop":
			props = parseProps(it.rest)
			if cur != nil {
				for p := range props {
					cur.Props[p] = true
				}
			}
			if curLemma != nil {
				for p := range props {
					curLemma.Props[p] = true
				}
			}
		case "safe":
			if len(props) == 0 {
				cur.Safe["*"] = true
			}
			for p := range props {
				cur.Safe[p] = true
			}
		case "hide":
			m := map[string]bool{}
			for _, w := range strings.Fields(it.rest) {
				m[w] = true
			}
			if curLemma != nil {
				curLemma.Hide = m
			} else {
				for k := range cur.Hide {
					m[k] = true
				}
				cur.Hide = m
			}
		case "requires":
			if curLemma != nil {
				curLemma.Req = append(curLemma.Req, clause(it))
			} else {
				cur.Requires = append(cur.Requires, clause(it))
			}
		case "ensures":
			if curLemma != nil {
				curLemma.Ens = append(curLemma.Ens, clause(it))
			} else {
				cur.Ensures = append(cur.Ensures, clause(it))
			}
		case "assert":
			cur.Asserts = append(cur.Asserts, clause(it))
		case "modifies":
			ts, _ := lexExpr(it.rest, it.pos)
			p := &parser{t: ts, pos: it.pos}
			var es []*Expr
			for p.peek().k != "eof" {
				if p.accept("nothing") {
					break
				}
				if curLoop != nil && p.accept("allocations") {
					// what the function itself has allocated may change
					curLoop.Own = true
				} else if p.is("*") && p.t[p.i+1].k != "ident" {
					p.i++
					es = append(es, &Expr{Op: "ident", Name: "*"})
				} else {
					es = append(es, p.expr())
				}
				if !p.accept(",") {
					break
				}
			}
			if curLoop != nil {
				curLoop.Mod = append(curLoop.Mod, es...)
			} else {
				cur.HasMod = true
				for _, e := range es {
					cur.Modifies = append(cur.Modifies, e)
					cur.ModProps = append(cur.ModProps, props)
				}
			}
		case "loop":
			n := 0
			fmt.Sscan(it.rest, &n)
			if cur.Loops[n] == nil {
				cur.Loops[n] = &LoopSpec{Index: n}
			}
			curLoop = cur.Loops[n]
		case "cut":
			cur.Cuts = append(cur.Cuts, clause(it))
		case "invariant":
			curLoop.Inv = append(curLoop.Inv, clause(it))
		}
	}
}

func (c *Clause) active(prop string) bool {
	return len(c.Props) == 0 || prop == "" || c.Props[prop]
}
