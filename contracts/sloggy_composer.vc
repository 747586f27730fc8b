package handlers/sloggy

# ---------------------------------------------------------------- the buffer

# Composers write to a buffer of their own.
spec func sout(c *composer) []byte = c.Writer.(*bytes.Buffer).content
spec func sready(c *composer) bool = c != nil && private(c.Writer) && c.Writer.(*bytes.Buffer) != nil
spec func sgrown(c *composer) bool = extends(sout(c), old(sout(c))) && len(sout(c)) >= len(old(sout(c))) && sready(c)
spec func skeeps(c *composer) bool = prefix(old(view(sout(c))), view(sout(c)))

# ---------------------------------------------------------------- values

rec func squote(s seq[byte]) seq[byte] = jsonString(s, false)
rec func skeyed(st bool, k string) seq[byte] = cat(st ? bytes(", ") : nil, squote(bytes(k)), bytes(": "))

rec func sAny(v any) seq[byte] =
	tag(v) == type(net.IP) ? squote(bytes(ipText(v.(net.IP)))) :
	tag(v) == type(net.IPNet) ? squote(bytes(netText(v.(net.IPNet)))) :
	tag(v) == type(net.HardwareAddr) ? squote(bytes(macText(v.(net.HardwareAddr)))) :
	implements(v, error) ? squote(bytes(v.(error).Error())) :
	implements(v, fmt.Stringer) ? squote(bytes(v.(fmt.Stringer).String())) :
	implements(v, json.Marshaler) ? (jtextErr(v.(json.Marshaler)) == nil ? squote(jtextOf(v.(json.Marshaler))) : squote(bytes(errText(jtextErr(v.(json.Marshaler)))))) :
	implements(v, encoding.TextMarshaler) ? (textErr(v.(encoding.TextMarshaler)) == nil ? squote(textOf(v.(encoding.TextMarshaler))) : squote(bytes(errText(textErr(v.(encoding.TextMarshaler)))))) :
	jsonOf(v)
rec func sokAny(v any) bool =
	tag(v) == type(net.IP) || tag(v) == type(net.IPNet) || tag(v) == type(net.HardwareAddr) || implements(v, error) || implements(v, fmt.Stringer) || implements(v, json.Marshaler) || implements(v, encoding.TextMarshaler) || jsonErr(v) == nil

func newComposer(writer, started, replace, groups) (r)
	prop C02 C04 C06 C07 C08
	ensures r != nil && fresh(r)
	ensures r.Writer == writer && r.started == started && r.replace == replace && r.groups == groups
	safe

func (*composer).setStarted(c, started)
	prop C02 C04 C06 C07 C08
	requires c != nil
	modifies c.started
	ensures c.started == started
	safe

func (*composer).begin(c) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil && view(sout(c)) == cat(old(view(sout(c))), one(123))
	ensures grown: sgrown(c)
	safe

func (*composer).end(c) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil && view(sout(c)) == cat(old(view(sout(c))), one(125))
	ensures grown: sgrown(c)
	safe

func quote(str) (r)
	prop C02 C04 C06 C07 C08
	ensures text: view(r) == squote(bytes(str))
	safe

func (*composer).addString(c, str) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil
	prop C02 C04 C06 C07
	ensures text: view(sout(c)) == cat(old(view(sout(c))), squote(bytes(str)))
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

func (*composer).addStringAsBytes(c, str) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil
	prop C02 C04 C06 C07
	ensures text: view(sout(c)) == cat(old(view(sout(c))), squote(old(view(str))))
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

func (*composer).addBool(c, b) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil
	prop C02 C04 C06 C07
	ensures text: view(sout(c)) == cat(old(view(sout(c))), b ? bytes("true") : bytes("false"))
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

func (*composer).addDuration(c, d) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil
	prop C02 C04 C06 C07
	ensures text: view(sout(c)) == cat(old(view(sout(c))), bytes(strconv.FormatInt(d.Nanoseconds(), 10)))
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

func (*composer).addInt64(c, i) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil
	prop C02 C04 C06 C07
	ensures text: view(sout(c)) == cat(old(view(sout(c))), bytes(strconv.FormatInt(i, 10)))
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

func (*composer).addUint64(c, i) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil
	prop C02 C04 C06 C07
	ensures text: view(sout(c)) == cat(old(view(sout(c))), bytes(strconv.FormatUint(i, 10)))
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

rec func sFloat(f float64) seq[byte] =
	math.IsNaN(f) || math.IsInf(f, 0) ? squote(bytes(strconv.FormatFloat(f, 102, -1, 64))) : bytes(strconv.FormatFloat(f, 102, -1, 64))

func (*composer).addFloat64(c, f) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil
	prop C02 C04 C06 C07
	ensures text: view(sout(c)) == cat(old(view(sout(c))), sFloat(f))
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

func (*composer).addTime(c, t) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures err == nil
	prop C02 C04 C06 C07
	ensures text: view(sout(c)) == cat(old(view(sout(c))), squote(bytes(t.Format("2006-01-02T15:04:05.999999999Z07:00"))))
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

func (*composer).addAny(c, a) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures ok: err == nil <==> sokAny(a)
	prop C02 C04 C06 C07
	ensures text: err == nil ==> view(sout(c)) == cat(old(view(sout(c))), sAny(a))
	ensures keeps: skeeps(c)
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

# ---------------------------------------------------------------- attributes

rec func sScalar(v slog.Value) seq[byte] =
	v.Kind() == slog.KindBool ? (v.Bool() ? bytes("true") : bytes("false")) :
	v.Kind() == slog.KindDuration ? bytes(strconv.FormatInt(v.Duration().Nanoseconds(), 10)) :
	v.Kind() == slog.KindFloat64 ? sFloat(v.Float64()) :
	v.Kind() == slog.KindInt64 ? bytes(strconv.FormatInt(v.Int64(), 10)) :
	v.Kind() == slog.KindString ? squote(bytes(v.String())) :
	v.Kind() == slog.KindTime ? squote(bytes(v.Time().Format("2006-01-02T15:04:05.999999999Z07:00"))) :
	v.Kind() == slog.KindUint64 ? bytes(strconv.FormatUint(v.Uint64(), 10)) : sAny(v.Any())
rec func sokScalar(v slog.Value) bool = scalarKind(v.Kind()) || sokAny(v.Any())

rec func sAttr(f infra.AttrFn, gs seq[string], st bool, a slog.Attr) seq[byte] =
	let b = prep(f, gs, a);
	b == zero(slog.Attr) ? nil :
	b.Value.Kind() == slog.KindGroup ?
		(let as = attrsOf(b.Value);
		hollows(as, len(as)) ? nil :
		b.Key == "" ? sAttrs(f, gs, st, as, len(as)) :
		cat(skeyed(st, b.Key), one(123), sAttrs(f, cat(gs, one(b.Key)), false, as, len(as)), one(125))) :
	cat(skeyed(st, b.Key), sScalar(b.Value))
rec func sAttrs(f infra.AttrFn, gs seq[string], st bool, as seq[slog.Attr], n int) seq[byte] =
	n <= 0 ? nil : (let p = sAttrs(f, gs, st, as, n-1); cat(p, sAttr(f, gs, st || len(p) > 0, as[n-1])))

rec func sokAttr(f infra.AttrFn, gs seq[string], a slog.Attr) bool =
	let b = prep(f, gs, a);
	b == zero(slog.Attr) ? true :
	b.Value.Kind() == slog.KindGroup ?
		(let as = attrsOf(b.Value);
		hollows(as, len(as)) || sokAttrs(f, b.Key == "" ? gs : cat(gs, one(b.Key)), as, len(as))) :
	sokScalar(b.Value)
rec func sokAttrs(f infra.AttrFn, gs seq[string], as seq[slog.Attr], n int) bool =
	n <= 0 || sokAttrs(f, gs, as, n-1) && sokAttr(f, gs, as[n-1])

lemma sokAttrsDown(f infra.AttrFn, gs seq[string], as seq[slog.Attr], i, n int) {sokAttrs(f, gs, as, i), sokAttrs(f, gs, as, n)}
	prop C02 C04 C06 C07 C08
	induction n
	requires i <= n && sokAttrs(f, gs, as, n)
	ensures sokAttrs(f, gs, as, i) && (i < n ==> sokAttrs(f, gs, as, i+1))

lemma skeyedSome(st bool, k string) {skeyed(st, k)}
	prop C02 C04 C06 C07 C08
	ensures len(skeyed(st, k)) > 0

func emptyGroup(attrs) (r)
	prop C02 C04 C06 C07 C08
	ensures r <==> hollows(view(attrs), len(attrs))
	loop 0
		invariant hollows(view(attrs), $i)
	safe

func (*composer).addAttribute(c, attr) (err)
	prop C02 C04 C06 C07 C08
	hide sAttrs sokAttrs sAny sokAny hollow hollows hollowsDown squote sFloat sokAttrsDown
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c)), c.started
	ensures ok: err == nil <==> sokAttr(c.replace, view(c.groups), attr)
	prop C02 C04 C06 C07
	ensures text: err == nil ==> view(sout(c)) == cat(old(view(sout(c))), sAttr(c.replace, view(c.groups), old(c.started), attr))
	ensures started: err == nil ==> c.started == (old(c.started) || len(sAttr(c.replace, view(c.groups), old(c.started), attr)) > 0)
	prop C02
	ensures form: err == nil ==> isMore(old(c.started), sAttr(c.replace, view(c.groups), old(c.started), attr))
	prop C02 C04 C06 C07
	ensures keeps: skeeps(c)
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

func (*composer).addAttributes(c, attrs) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c)), c.started
	ensures ok: err == nil <==> sokAttrs(c.replace, view(c.groups), view(attrs), len(attrs))
	prop C02 C04 C06 C07
	ensures text: err == nil ==> view(sout(c)) == cat(old(view(sout(c))), sAttrs(c.replace, view(c.groups), old(c.started), view(attrs), len(attrs)))
	ensures started: err == nil ==> c.started == (old(c.started) || len(sAttrs(c.replace, view(c.groups), old(c.started), view(attrs), len(attrs))) > 0)
	prop C02
	ensures form: err == nil ==> isMore(old(c.started), sAttrs(c.replace, view(c.groups), old(c.started), view(attrs), len(attrs)))
	prop C02 C04 C06 C07
	ensures keeps: skeeps(c)
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	loop 0
		invariant sokAttrs(c.replace, view(c.groups), view(attrs), $i)
		invariant sgrown(c)
		prop C02 C04 C06 C07
		invariant view(sout(c)) == cat(old(view(sout(c))), sAttrs(c.replace, view(c.groups), old(c.started), view(attrs), $i))
		invariant c.started == (old(c.started) || len(sAttrs(c.replace, view(c.groups), old(c.started), view(attrs), $i)) > 0)
		prop C02
		invariant isMore(old(c.started), sAttrs(c.replace, view(c.groups), old(c.started), view(attrs), $i))
	prop C02 C04 C06 C07 C08
	safe

func (*composer).addGroup(c, name, attrs) (err)
	prop C02 C04 C06 C07 C08
	requires sready(c)
	modifies c.Writer.(*bytes.Buffer).content, spare(sout(c))
	ensures ok: err == nil <==> sokAttrs(c.replace, cat(view(c.groups), one(name)), view(attrs), len(attrs))
	prop C02 C04 C06 C07
	ensures text: err == nil ==> view(sout(c)) == cat(old(view(sout(c))), one(123), sAttrs(c.replace, cat(view(c.groups), one(name)), false, view(attrs), len(attrs)), one(125))
	prop C02
	ensures form: err == nil ==> isMore(false, sAttrs(c.replace, cat(view(c.groups), one(name)), false, view(attrs), len(attrs)))
	prop C02 C04 C06 C07
	ensures keeps: skeeps(c)
	prop C02 C04 C06 C07 C08
	ensures grown: sgrown(c)
	safe

# ---------------------------------------------------------------- form
lemma squoteText(s seq[byte]) {isStr(squote(s))}
	prop C02
	ensures isStr(squote(s))
lemma skeyedText(st bool, k string) {isKey(st, skeyed(st, k))}
	prop C02
	ensures isKey(st, skeyed(st, k))
lemma sFloatForm(f float64) {isVal(sFloat(f))}
	prop C02
	ensures isVal(sFloat(f))
lemma sAnyForm(v any) {isVal(sAny(v))}
	prop C02
	ensures sokAny(v) ==> isVal(sAny(v))
lemma sScalarForm(v slog.Value) {isVal(sScalar(v))}
	prop C02
	ensures sokScalar(v) ==> isVal(sScalar(v))
