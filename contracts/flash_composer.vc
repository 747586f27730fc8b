package handlers/flash

# ---------------------------------------------------------------- strings

spec func hexOf(n int) int = n < 10 ? 48 + n : 55 + n
spec func esc1(b byte) seq[byte] =
	b == 92 || b == 47 || b == 34 ? cat(one(92), one(b)) :
	b == 8 ? cat(one(92), one(98)) :
	b == 12 ? cat(one(92), one(102)) :
	b == 10 ? cat(one(92), one(110)) :
	b == 13 ? cat(one(92), one(114)) :
	b == 9 ? cat(one(92), one(116)) :
	b < 32 || b == 127 ? cat(bytes("\\u00"), one(hexOf(b / 16)), one(hexOf(b % 16))) :
	one(b)
rec func esc(s seq[byte], n int) seq[byte] = n <= 0 ? nil : cat(esc(s, n-1), esc1(s[n-1]))

spec func clean(s seq[byte]) seq[byte] = utf8.Valid(s) ? s : toValid(s, bytes("\ufffd"))
spec func escText(s seq[byte]) seq[byte] = esc(clean(s), len(clean(s)))

# The buffer has only been appended to: in place, or in a new array.
spec func grown(c *composer) bool =
	(ref(c.buffer) == old(ref(c.buffer)) && off(c.buffer) == old(off(c.buffer)) && cap(c.buffer) == old(cap(c.buffer)) && len(c.buffer) >= old(len(c.buffer))) || fresh(c.buffer) && len(c.buffer) >= old(len(c.buffer))

func (*composer).addEscaped(c, s) split
	prop C01 C03 C05 C07 C08
	requires c != nil && ref(s) != ref(c.buffer)
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07
	ensures text: view(c.buffer) == cat(old(view(c.buffer)), escText(old(view(s))))
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	loop 0
		prop C01 C03 C05 C07
		invariant view(s) == clean(old(view(s))) && ref(s) != ref(c.buffer) && ref(s) != ref(uniByte) && ref(uniByte) != ref(c.buffer) && fresh(uniByte)
		invariant uniMore == pend(clean(old(view(s))), $i) && 0 <= index && (index == $i - 1 || $i == 0 && index == 0)
		invariant uniMore == 0 ==> len(uniByte) == 0 && 0 <= begin && begin <= $i && cat(view(c.buffer), sub(view(s), begin, $i)) == cat(old(view(c.buffer)), esc(clean(old(view(s))), $i))
		invariant uniMore > 0 ==> cat(view(c.buffer), view(uniByte)) == cat(old(view(c.buffer)), esc(clean(old(view(s))), $i))
	safe
	prop C01 C03 C05 C07 C08
		invariant grown(c)

# ---------------------------------------------------------------- values

rec func quote(s seq[byte]) seq[byte] = cat(one(34), escText(s), one(34))
rec func keyed(st bool, k string) seq[byte] = cat(st ? bytes(", ") : nil, quote(bytes(k)), bytes(": "))

spec func errText(e error) string = "!ERROR:" + e.Error()

rec func rAny(v any) seq[byte] =
	implements(v, fmt.Stringer) ? quote(bytes(v.(fmt.Stringer).String())) :
	implements(v, error) ? quote(bytes(v.(error).Error())) :
	implements(v, json.Marshaler) ? quote(jtextOf(v.(json.Marshaler))) :
	implements(v, encoding.TextMarshaler) ? quote(textOf(v.(encoding.TextMarshaler))) : jsonOf(v)
rec func okAny(v any) bool =
	implements(v, fmt.Stringer) || implements(v, error) ? true :
	implements(v, json.Marshaler) ? jtextErr(v.(json.Marshaler)) == nil :
	implements(v, encoding.TextMarshaler) ? textErr(v.(encoding.TextMarshaler)) == nil : jsonErr(v) == nil

# Only the buffer, its spare capacity and the started flag change.
func (*composer).addBytes(c, b)
	prop C01 C03 C05 C07 C08
	requires c != nil && ref(b) != ref(c.buffer)
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07 C08
	ensures view(c.buffer) == cat(old(view(c.buffer)), old(view(b)))
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

func (*composer).addByteArray(c, b)
	prop C01 C03 C05 C07 C08
	requires c != nil && ref(b) != ref(c.buffer)
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07 C08
	ensures view(c.buffer) == cat(old(view(c.buffer)), old(view(b)))
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

func (*composer).addString(c, str)
	prop C01 C03 C05 C07 C08
	requires c != nil
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07
	ensures text: view(c.buffer) == cat(old(view(c.buffer)), quote(bytes(str)))
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

func (*composer).addKey(c, key)
	prop C01 C03 C05 C07 C08
	requires c != nil
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07
	ensures text: view(c.buffer) == cat(old(view(c.buffer)), keyed(false, key))
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

func (*composer).addSeparator(c)
	prop C01 C03 C05 C07 C08
	requires c != nil
	modifies c.buffer, spare(c.buffer), c.started
	prop C01 C03 C05 C07
	ensures text: view(c.buffer) == cat(old(view(c.buffer)), old(c.started) ? bytes(", ") : nil)
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	prop C01 C03 C05 C07
	ensures c.started
	prop C01 C03 C05 C07 C08
	safe

func (*composer).reset(c)
	prop C01 C03 C05 C07 C08
	requires c != nil
	modifies c.started
	prop C01 C03 C05 C07
	ensures !c.started
	prop C01 C03 C05 C07 C08
	safe

func (*composer).getBytes(c) (r)
	prop C01 C03 C05 C07 C08
	requires c != nil
	ensures r == c.buffer
	safe

rec func rFloat(f float64) seq[byte] =
	math.IsNaN(f) || math.IsInf(f, 0) ? quote(bytes(strconv.FormatFloat(f, 102, -1, 64))) : bytes(strconv.FormatFloat(f, 102, -1, 64))

func (*composer).addFloat64(c, f)
	prop C01 C03 C05 C07 C08
	requires c != nil
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07
	ensures text: view(c.buffer) == cat(old(view(c.buffer)), rFloat(f))
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

func (*composer).addTime(c, t)
	prop C01 C03 C05 C07 C08
	requires c != nil && c.extras != nil
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07
	ensures text: view(c.buffer) == cat(old(view(c.buffer)), quote(bytes(t.Format(c.extras.TimeFormat))))
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

# On failure what was there before is still there.
spec func keeps(c *composer) bool = prefix(old(view(c.buffer)), view(c.buffer))

func (*composer).addJSONMarshaler(c, m) (err)
	prop C01 C03 C05 C07 C08
	requires c != nil && m != nil
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07
	ensures text: err == nil ==> view(c.buffer) == cat(old(view(c.buffer)), quote(jtextOf(m)))
	prop C01 C03 C05 C07 C08
	ensures ok: err == nil <==> jtextErr(m) == nil
	prop C01 C03 C05 C07
	ensures keeps: keeps(c)
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

func (*composer).addTextMarshaler(c, m) (err)
	prop C01 C03 C05 C07 C08
	requires c != nil && m != nil
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07
	ensures text: err == nil ==> view(c.buffer) == cat(old(view(c.buffer)), quote(textOf(m)))
	prop C01 C03 C05 C07 C08
	ensures ok: err == nil <==> textErr(m) == nil
	prop C01 C03 C05 C07
	ensures keeps: keeps(c)
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

func (*composer).addAny(c, a) (err)
	prop C01 C03 C05 C07 C08
	requires c != nil
	modifies c.buffer, spare(c.buffer)
	prop C01 C03 C05 C07
	ensures text: err == nil ==> view(c.buffer) == cat(old(view(c.buffer)), rAny(a))
	prop C01 C03 C05 C07 C08
	ensures ok: err == nil <==> okAny(a)
	prop C01 C03 C05 C07
	ensures keeps: keeps(c)
	prop C01 C03 C05 C07 C08
	ensures grown: grown(c)
	safe

# ---------------------------------------------------------------- attributes

rec func rScalar(tf string, v slog.Value) seq[byte] =
	v.Kind() == slog.KindBool ? (v.Bool() ? bytes("true") : bytes("false")) :
	v.Kind() == slog.KindDuration ? bytes(strconv.FormatInt(v.Duration().Nanoseconds(), 10)) :
	v.Kind() == slog.KindFloat64 ? rFloat(v.Float64()) :
	v.Kind() == slog.KindInt64 ? bytes(strconv.FormatInt(v.Int64(), 10)) :
	v.Kind() == slog.KindString ? quote(bytes(v.String())) :
	v.Kind() == slog.KindTime ? quote(bytes(v.Time().Format(tf))) :
	v.Kind() == slog.KindUint64 ? bytes(strconv.FormatUint(v.Uint64(), 10)) : rAny(v.Any())
spec func scalarKind(k slog.Kind) bool = k == slog.KindBool || k == slog.KindDuration || k == slog.KindFloat64 || k == slog.KindInt64 || k == slog.KindString || k == slog.KindTime || k == slog.KindUint64
rec func okScalar(v slog.Value) bool = scalarKind(v.Kind()) || okAny(v.Any())

# The attribute with its value resolved, and replaced unless it is a group.
spec func resolved(a slog.Attr) slog.Attr = mk(slog.Attr, a.Key, a.Value.Resolve())
rec func prep(f infra.AttrFn, gs seq[string], a slog.Attr) slog.Attr =
	f != nil && a.Value.Resolve().Kind() != slog.KindGroup ? resolved(f(gs, resolved(a))) : resolved(a)

# Nothing but empty attributes and groups.
rec func hollow(a slog.Attr) bool =
	resolved(a) == zero(slog.Attr) || a.Value.Resolve().Kind() == slog.KindGroup && hollows(attrsOf(a.Value.Resolve()), len(attrsOf(a.Value.Resolve())))
rec func hollows(as seq[slog.Attr], n int) bool = n <= 0 || hollows(as, n-1) && hollow(as[n-1])

spec func inside(f infra.AttrFn, gs seq[string], name string) seq[string] = f != nil ? cat(gs, one(name)) : gs

rec func rAttr(tf string, f infra.AttrFn, gs seq[string], st bool, a slog.Attr) seq[byte] =
	let b = prep(f, gs, a);
	b == zero(slog.Attr) ? nil :
	b.Value.Kind() == slog.KindGroup ?
		(let as = attrsOf(b.Value);
		hollows(as, len(as)) ? nil :
		b.Key == "" ? rAttrs(tf, f, gs, st, as, len(as)) :
		cat(keyed(st, b.Key), one(123), rAttrs(tf, f, inside(f, gs, b.Key), false, as, len(as)), one(125))) :
	cat(keyed(st, b.Key), rScalar(tf, b.Value))
rec func rAttrs(tf string, f infra.AttrFn, gs seq[string], st bool, as seq[slog.Attr], n int) seq[byte] =
	n <= 0 ? nil : (let p = rAttrs(tf, f, gs, st, as, n-1); cat(p, rAttr(tf, f, gs, st || len(p) > 0, as[n-1])))

rec func okAttr(f infra.AttrFn, gs seq[string], a slog.Attr) bool =
	let b = prep(f, gs, a);
	b == zero(slog.Attr) ? true :
	b.Value.Kind() == slog.KindGroup ?
		(let as = attrsOf(b.Value);
		hollows(as, len(as)) || okAttrs(f, b.Key == "" ? gs : inside(f, gs, b.Key), as, len(as))) :
	okScalar(b.Value)
rec func okAttrs(f infra.AttrFn, gs seq[string], as seq[slog.Attr], n int) bool =
	n <= 0 || okAttrs(f, gs, as, n-1) && okAttr(f, gs, as[n-1])

lemma hollowsDown(as seq[slog.Attr], i, n int) {hollows(as, i), hollows(as, n)}
	prop C01 C02 C03 C04 C05 C06 C07 C08
	induction n
	requires i <= n && hollows(as, n)
	ensures hollows(as, i) && (i < n ==> hollows(as, i+1))

lemma okAttrsDown(f infra.AttrFn, gs seq[string], as seq[slog.Attr], i, n int) {okAttrs(f, gs, as, i), okAttrs(f, gs, as, n)}
	prop C01 C03 C05 C07 C08
	induction n
	requires i <= n && okAttrs(f, gs, as, n)
	ensures okAttrs(f, gs, as, i) && (i < n ==> okAttrs(f, gs, as, i+1))

func emptyGroup(attrs) (r)
	prop C01 C03 C05 C07 C08
	ensures r <==> hollows(view(attrs), len(attrs))
	loop 0
		invariant hollows(view(attrs), $i)
	safe

func (*composer).addAttribute(c, attr) (err)
	prop C01 C03 C05 C07 C08
	requires c != nil && c.extras != nil
	modifies c.buffer, spare(c.buffer), c.started, c.groups
	prop C01 C03 C05 C07
	ensures text: err == nil ==> view(c.buffer) == cat(old(view(c.buffer)), rAttr(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), attr))
	ensures started: err == nil ==> c.started == (old(c.started) || len(rAttr(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), attr)) > 0)
	prop C01
	ensures form: err == nil ==> isMore(old(c.started), rAttr(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), attr))
	prop C01 C03 C05 C07 C08
	ensures ok: err == nil <==> okAttr(c.replace, old(view(c.groups)), attr)
	prop C01 C03 C05 C07
	ensures keeps: keeps(c)
	prop C01 C03 C05 C07 C08
	ensures groups: c.groups == old(c.groups) && view(c.groups) == old(view(c.groups))
	ensures grown: grown(c)
	safe

func (*composer).addAttributes(c, attrs) (err)
	prop C01 C03 C05 C07 C08
	requires c != nil && c.extras != nil
	modifies c.buffer, spare(c.buffer), c.started, c.groups
	prop C01 C03 C05 C07
	ensures text: err == nil ==> view(c.buffer) == cat(old(view(c.buffer)), rAttrs(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), view(attrs), len(attrs)))
	ensures started: err == nil ==> c.started == (old(c.started) || len(rAttrs(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), view(attrs), len(attrs))) > 0)
	prop C01
	ensures form: err == nil ==> isMore(old(c.started), rAttrs(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), view(attrs), len(attrs)))
	prop C01 C03 C05 C07 C08
	ensures ok: err == nil <==> okAttrs(c.replace, old(view(c.groups)), view(attrs), len(attrs))
	prop C01 C03 C05 C07
	ensures keeps: keeps(c)
	prop C01 C03 C05 C07 C08
	ensures groups: c.groups == old(c.groups) && view(c.groups) == old(view(c.groups))
	ensures grown: grown(c)
	loop 0
	prop C01 C03 C05 C07
		invariant view(c.buffer) == cat(old(view(c.buffer)), rAttrs(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), view(attrs), $i))
		invariant c.started == (old(c.started) || len(rAttrs(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), view(attrs), $i)) > 0)
	prop C01
		invariant isMore(old(c.started), rAttrs(c.extras.TimeFormat, c.replace, old(view(c.groups)), old(c.started), view(attrs), $i))
	prop C01 C03 C05 C07 C08
		invariant okAttrs(c.replace, old(view(c.groups)), view(attrs), $i)
		invariant c.groups == old(c.groups) && view(c.groups) == old(view(c.groups))
		invariant grown(c)
	safe

func (*composer).addGroup(c, name, attrs) (err)
	prop C01 C03 C05 C07 C08
	requires c != nil && c.extras != nil
	modifies c.buffer, spare(c.buffer), c.started, c.groups
	prop C01 C03 C05 C07
	ensures text: err == nil ==> view(c.buffer) == cat(old(view(c.buffer)), one(123), rAttrs(c.extras.TimeFormat, c.replace, inside(c.replace, old(view(c.groups)), name), false, view(attrs), len(attrs)), one(125))
	ensures started: err == nil ==> c.started
	prop C01
	ensures form: err == nil ==> isMore(false, rAttrs(c.extras.TimeFormat, c.replace, inside(c.replace, old(view(c.groups)), name), false, view(attrs), len(attrs)))
	prop C01 C03 C05 C07 C08
	ensures ok: err == nil <==> okAttrs(c.replace, inside(c.replace, old(view(c.groups)), name), view(attrs), len(attrs))
	prop C01 C03 C05 C07
	ensures keeps: keeps(c)
	prop C01 C03 C05 C07 C08
	ensures groups: c.groups == old(c.groups) && view(c.groups) == old(view(c.groups))
	ensures grown: grown(c)
	safe

# ---------------------------------------------------------------- form
lemma utfStays(s seq[byte], n int) {utf(s, n)}
	prop C01
	ensures n >= 1 && utf(s, n) >= 0 ==> utf(s, n-1) >= 0
lemma utfRange(s seq[byte], n int) {utf(s, n)}
	prop C01
	ensures -1 <= utf(s, n) && utf(s, n) <= 7
lemma utfNext(s seq[byte], n int) {utf(s, n)}
	prop C01
	ensures n >= 1 ==> utf(s, n) == utfStep(utf(s, n-1), s[n-1])
rec func escByte(b int) seq[byte] = esc1(b)
lemma escNext(s seq[byte], n int) {chars(0, esc(s, n))}
	prop C01
	ensures n >= 1 ==> esc(s, n) == cat(esc(s, n-1), escByte(s[n-1]))
lemma escByteChars(st, b int) {chars(st, escByte(b))}
	prop C01
	hint 0 <= b && b < 256 ==> 0 <= b / 16 && b / 16 < 16 && 0 <= b % 16 && b % 16 < 16
	hint 0 <= st && st <= 7 && utfStep(st, b) >= 0 && b >= 128 ==> chars(st, escByte(b)) == utfStep(st, b)
	hint 0 <= st && st <= 7 && utfStep(st, b) >= 0 && b < 128 ==> st == 0 && utfStep(st, b) == 0
	hint 32 <= b && b < 127 && b != 92 && b != 47 && b != 34 ==> chars(0, escByte(b)) == 0
	hint b == 92 || b == 47 || b == 34 ==> chars(0, escByte(b)) == 0
	hint b == 8 || b == 12 || b == 10 || b == 13 || b == 9 ==> chars(0, escByte(b)) == 0
	hint (0 <= b && b < 32 || b == 127) && b != 8 && b != 12 && b != 10 && b != 13 && b != 9 ==> chars(0, bytes("\\u00")) == 12
	hint (0 <= b && b < 32 || b == 127) && b != 8 && b != 12 && b != 10 && b != 13 && b != 9 ==> chars(0, escByte(b)) == 0
	ensures 0 <= st && st <= 7 && utfStep(st, b) >= 0 ==> chars(st, escByte(b)) == utfStep(st, b)
# Escaping leaves the automaton of JSON strings where that of UTF-8 is.
lemma escChars(s seq[byte], n int) {chars(0, esc(s, n))}
	prop C01
	hide escByte
	induction n
	requires 0 <= n && n <= len(s) && utf(s, n) >= 0
	hint n == 0 ==> esc(s, n) == nil
	hint n >= 1 ==> 0 <= utf(s, n-1) && utf(s, n-1) <= 7
	hint n >= 1 ==> chars(0, esc(s, n)) == chars(utf(s, n-1), escByte(s[n-1]))
	ensures chars(0, esc(s, n)) == utf(s, n)
lemma utfDown(s seq[byte], i, n int) {utf(s, i), utf(s, n)}
	prop C01
	induction n
	requires 0 <= i && i <= n && utf(s, n) >= 0
	ensures utf(s, i) >= 0
lemma quoteText(s seq[byte]) {isStr(quote(s))}
	prop C01
	ensures isStr(quote(s))
lemma keyedText(st bool, k string) {isKey(st, keyed(st, k))}
	prop C01
	ensures isKey(st, keyed(st, k))
lemma floatForm(f float64) {isVal(rFloat(f))}
	prop C01
	ensures isVal(rFloat(f))
lemma anyForm(v any) {isVal(rAny(v))}
	prop C01
	ensures okAny(v) ==> isVal(rAny(v))
lemma scalarForm(tf string, v slog.Value) {isVal(rScalar(tf, v))}
	prop C01
	ensures okScalar(v) ==> isVal(rScalar(tf, v))
