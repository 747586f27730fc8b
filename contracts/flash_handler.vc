# ---------------------------------------------------------------- memory pools
# A pool hands out memory nobody else uses; what is given back may be overwritten by anybody.
package handlers/flash

func (*genPool[T]).get(p) (r) trusted
	ensures r != nil && fresh(r)
func (*genPool[T]).put(p, v) trusted
	modifies *v
func (*arrayPool[T]).get(p) (r) trusted
	ensures fresh(r)
func (*arrayPool[T]).put(p, v) trusted
	modifies elems(v)

func newComposer(buffer, started, replace, groups, extras) (r)
	prop C01 C03 C05 C07 C08
	ensures r != nil && fresh(r)
	ensures r.buffer == buffer && r.started == started && r.replace == replace && r.groups == groups && r.extras == extras
	safe

# ---------------------------------------------------------------- the line

spec func framed(q seq[byte]) bool = len(q) > 0 && q[len(q)-1] != 123
spec func levelText(e *Extras, l slog.Level) string = e.LevelNames[l] != "" ? e.LevelNames[l] : l.String()
spec func recordAttrs(r slog.Record) seq[slog.Attr] = cat(sub(view(r.front), 0, r.nFront), view(r.back))

rec func field(f infra.AttrFn, tf string, st bool, k string, plain seq[byte], a slog.Attr) seq[byte] = f == nil ? cat(keyed(st, k), plain) : rAttr(tf, f, nil, st, a)

spec func line1(h *Handler, r slog.Record) seq[byte] =
	r.Time.IsZero() ? nil : field(h.options.ReplaceAttr, h.extras.TimeFormat, false, h.extras.TimeKey, quote(bytes(r.Time.Format(h.extras.TimeFormat))), slog.Time(h.extras.TimeKey, r.Time))
spec func next(q seq[byte], h *Handler, k string, v string) seq[byte] =
	cat(q, field(h.options.ReplaceAttr, h.extras.TimeFormat, len(q) > 0, k, quote(bytes(v)), slog.String(k, v)))
spec func line2(h *Handler, r slog.Record) seq[byte] = next(line1(h, r), h, h.extras.LevelKey, levelText(h.extras, r.Level))
spec func line3(h *Handler, r slog.Record) seq[byte] = next(line2(h, r), h, h.extras.MessageKey, r.Message)
spec func sourced(h *Handler, r slog.Record) bool = h.options.AddSource && r.PC != 0
spec func isSource(p *source, pc uintptr) bool = p != nil && p.Function == frameOf(pc).Function && p.File == frameOf(pc).File && p.Line == frameOf(pc).Line
spec func line4(h *Handler, r slog.Record, p *source) seq[byte] =
	sourced(h, r) ? cat(line3(h, r), field(h.options.ReplaceAttr, h.extras.TimeFormat, len(line3(h, r)) > 0, h.extras.SourceKey, rAny(iface(p)), slog.Any(h.extras.SourceKey, iface(p)))) : line3(h, r)
spec func line5(h *Handler, r slog.Record, p *source) seq[byte] =
	len(h.prefix) == 0 ? line4(h, r, p) : cat(line4(h, r, p), len(line4(h, r, p)) > 0 ? bytes(", ") : nil, view(h.prefix))
spec func open5(h *Handler, r slog.Record, p *source) bool = len(h.prefix) == 0 ? len(line4(h, r, p)) > 0 : h.prefix[len(h.prefix)-1] != 123
spec func body(h *Handler, r slog.Record, p *source, n int) seq[byte] =
	rAttrs(h.extras.TimeFormat, h.options.ReplaceAttr, view(h.groups), open5(h, r, p), recordAttrs(r), n)
spec func whole(h *Handler, r slog.Record, p *source) seq[byte] =
	cat(one(123), line5(h, r, p), body(h, r, p, len(recordAttrs(r))), view(h.suffix), bytes("}\n"))

spec func okField(f infra.AttrFn, a slog.Attr) bool = f == nil || okAttr(f, nil, a)
spec func okHead(h *Handler, r slog.Record) bool =
	(r.Time.IsZero() || okField(h.options.ReplaceAttr, slog.Time(h.extras.TimeKey, r.Time))) &&
	okField(h.options.ReplaceAttr, slog.String(h.extras.LevelKey, levelText(h.extras, r.Level))) &&
	okField(h.options.ReplaceAttr, slog.String(h.extras.MessageKey, r.Message))
spec func okSource(h *Handler, r slog.Record, p *source) bool =
	!sourced(h, r) || (h.options.ReplaceAttr == nil ? okAny(iface(p)) : okAttr(h.options.ReplaceAttr, nil, slog.Any(h.extras.SourceKey, iface(p))))
spec func okLine(h *Handler, r slog.Record, p *source) bool =
	okHead(h, r) && okSource(h, r, p) &&
	okAttrs(h.options.ReplaceAttr, view(h.groups), recordAttrs(r), len(recordAttrs(r)))

# What handling the record did: the line was written once, or, if it cannot be rendered, nothing was.
spec func wrote(h *Handler, r slog.Record, bad bool) bool = exists p *source :: (okHead(h, r) && sourced(h, r) ==> isSource(p, r.PC)) &&
		(okLine(h, r, p) ==> h.writer.log == old(cat(h.writer.log, one(whole(h, r, p))))) &&
		(okLine(h, r, p) ==> (!bad <==> !h.writer.failed)) &&
		(!okLine(h, r, p) ==> h.writer.log == old(h.writer.log) && bad)

spec func endsLine(q seq[byte]) bool = len(q) >= 2 && q[len(q)-2] == 125 && q[len(q)-1] == 10
spec func oneMore(now, before seq[seq[byte]]) bool = len(now) == len(before) + 1 && prefix(before, now) && endsLine(now[len(before)])
spec func wroteOnce(h *Handler, r slog.Record, bad bool) bool = exists p *source :: (okHead(h, r) && sourced(h, r) ==> isSource(p, r.PC)) &&
		(okLine(h, r, p) ==> oneMore(h.writer.log, old(h.writer.log))) &&
		(okLine(h, r, p) ==> (!bad <==> !h.writer.failed)) &&
		(!okLine(h, r, p) ==> h.writer.log == old(h.writer.log) && bad)

spec func usable(h *Handler) bool = h != nil && h.options != nil && h.options.Level != nil && h.extras != nil && h.mutex != nil && h.writer != nil && guard(h.writer) == h.mutex && !private(h.writer)
spec func sane(r slog.Record) bool = 0 <= r.nFront && r.nFront <= 5

func loadSource(pc, src)
	prop C01 C03 C05 C07 C08
	requires src != nil
	modifies *src
	ensures isSource(src, pc)
	safe

lemma keyedSome(st bool, k string) {keyed(st, k)}
	prop C01 C03 C05 C07 C08
	ensures len(keyed(st, k)) > 0

spec func oneLine(now, before seq[seq[byte]]) bool = len(now) == len(before) + 1 && prefix(before, now) && isLine(now[len(before)])
# What a handler has rendered in advance is the start of an object that its suffix completes.
spec func formed(h *Handler) bool = isHead(cat(one(123), view(h.prefix)), view(h.suffix), hOpen(h)) && (len(h.prefix) == 0 ==> len(h.suffix) == 0)

func (*Handler).Handle(h, ctx, record) (err) split
	prop C01 C03 C05 C07 C08
	hide rAttr okAttr prep hollow hollows quote esc rScalar okScalar rAny okAny rFloat hollowsDown
	requires usable(h) && sane(record) && !h.mutex.held
	modifies h.writer.log, h.writer.failed, h.mutex.held
	ensures released: !h.mutex.held
	prop C01
	requires formed(h)
	ensures line: h.writer.log == old(h.writer.log) && err != nil || oneLine(h.writer.log, old(h.writer.log))
	prop C08
	ensures once: wroteOnce(h, record, err != nil)
	prop C03 C05 C07
	ensures wrote: wrote(h, record, err != nil)
	prop C01 C03 C05 C07 C08
	cut loadSource: fresh(c) && c.extras == h.extras && c.replace == h.options.ReplaceAttr && fresh(c.buffer) && fresh(buffer) && view(c.groups) == nil
	cut loadSource: h.writer.log == old(h.writer.log) && !h.mutex.held && sourced(h, record)
	prop C03 C05 C07 C08
	cut loadSource: okHead(h, record)
	prop C01
	cut loadSource: isHead(view(c.buffer), nil, c.started)
	prop C03 C05 C07
	cut loadSource: view(c.buffer) == cat(one(123), line3(h, record)) && c.started == (len(line3(h, record)) > 0)
	prop C01 C03 C05 C07 C08
	cut Attrs: fresh(c) && c.extras == h.extras && c.replace == h.options.ReplaceAttr && fresh(c.buffer) && fresh(buffer)
	cut Attrs: h.writer.log == old(h.writer.log) && !h.mutex.held
	prop C01
	cut Attrs: isHead(view(c.buffer), view(h.suffix), c.started)
	prop C08
	cut Attrs: exists p *source :: (sourced(h, record) ==> isSource(p, record.PC)) && okHead(h, record) && okSource(h, record, p)
	prop C03 C05 C07
	cut Attrs: exists p *source :: (sourced(h, record) ==> isSource(p, record.PC)) && okHead(h, record) && okSource(h, record, p) &&
		view(c.buffer) == cat(one(123), line5(h, record, p)) && c.started == open5(h, record, p)
	prop C01 C03 C05 C07 C08
	loop 0
		invariant 0 <= $i && $i <= r.nFront && err == nil && c.groups == h.groups && fresh(c.buffer)
		prop C01
		invariant isHead(view(c.buffer), view(h.suffix), c.started)
		prop C03 C05 C07 C08
		invariant okAttrs(h.options.ReplaceAttr, view(h.groups), recordAttrs(r), $i)
		prop C03 C05 C07
		invariant view(c.buffer) == cat(entry(0, view(c.buffer)), rAttrs(h.extras.TimeFormat, h.options.ReplaceAttr, view(h.groups), entry(0, c.started), recordAttrs(r), $i))
		invariant c.started == (entry(0, c.started) || len(rAttrs(h.extras.TimeFormat, h.options.ReplaceAttr, view(h.groups), entry(0, c.started), recordAttrs(r), $i)) > 0)
	loop 1
		prop C01
		invariant isHead(view(c.buffer), view(h.suffix), c.started)
		prop C03 C05 C07
		invariant view(c.buffer) == cat(entry(0, view(c.buffer)), rAttrs(h.extras.TimeFormat, h.options.ReplaceAttr, view(h.groups), entry(0, c.started), recordAttrs(r), r.nFront + $i))
		invariant c.started == (entry(0, c.started) || len(rAttrs(h.extras.TimeFormat, h.options.ReplaceAttr, view(h.groups), entry(0, c.started), recordAttrs(r), r.nFront + $i)) > 0)
		prop C01 C03 C05 C07 C08
		invariant 0 <= $i && $i <= len(r.back) && err == nil && c.groups == h.groups && fresh(c.buffer)
		prop C03 C05 C07 C08
		invariant okAttrs(h.options.ReplaceAttr, view(h.groups), recordAttrs(r), r.nFront + $i)
	prop C01 C03 C05 C07 C08
	safe

# ---------------------------------------------------------------- derivation

spec func hOpen(h *Handler) bool = len(h.prefix) > 0 && h.prefix[len(h.prefix)-1] != 123
spec func derived(n, h *Handler) bool = fresh(n) && n.options == h.options && n.extras == h.extras && n.writer == h.writer && n.mutex == h.mutex

# Attributes that cannot be rendered are left out.
rec func rKept(tf string, f infra.AttrFn, gs seq[string], st bool, as seq[slog.Attr], n int) seq[byte] =
	n <= 0 ? nil : (let p = rKept(tf, f, gs, st, as, n-1); okAttr(f, gs, as[n-1]) ? cat(p, rAttr(tf, f, gs, st || len(p) > 0, as[n-1])) : p)

func (*Handler).WithAttrs(h, attrs) (r)
	prop C01
	requires formed(h)
	ensures formed: formed(r.(*Handler))
	prop C01 C03 C05 C07 C08
	hide rAttr okAttr prep hollow hollows keyed quote esc rScalar okScalar rAny okAny rFloat hollowsDown
	requires usable(h)
	ensures kind: tag(r) == type(*Handler)
	ensures derived: derived(r.(*Handler), h)
	prop C03 C05 C07
	ensures prefix: view(r.(*Handler).prefix) == cat(view(h.prefix), rKept(h.extras.TimeFormat, h.options.ReplaceAttr, view(h.groups), hOpen(h), view(attrs), len(attrs)))
	ensures suffix: view(r.(*Handler).suffix) == view(h.suffix)
	ensures groups: view(r.(*Handler).groups) == view(h.groups)
	prop C01 C03 C05 C07 C08
	loop 0
		invariant 0 <= $i && $i <= len(attrs) && c.extras == h.extras && c.replace == h.options.ReplaceAttr && c.groups == h.groups
		invariant fresh(hdlr) && fresh(c)
		invariant fresh(c.buffer) || len(c.buffer) == cap(c.buffer)
		prop C01
		invariant isHead(cat(one(123), view(c.buffer)), view(h.suffix), c.started) && view(hdlr.suffix) == view(h.suffix) && len(c.buffer) >= len(h.prefix)
		prop C03 C05 C07
		invariant view(c.buffer) == cat(view(h.prefix), rKept(h.extras.TimeFormat, h.options.ReplaceAttr, view(h.groups), hOpen(h), view(attrs), $i))
		invariant c.started == (hOpen(h) || len(rKept(h.extras.TimeFormat, h.options.ReplaceAttr, view(h.groups), hOpen(h), view(attrs), $i)) > 0)
	prop C01 C03 C05 C07 C08
	safe

spec func headed(h *Handler, name string) bool = isHead(cat(one(123), view(h.prefix), keyed(hOpen(h), name), one(123)), cat(view(h.suffix), one(125)), false)
func (*Handler).WithGroup(h, name) (r)
	prop C01
	requires formed(h)
	ensures text: name != "" ==> view(r.(*group).Handler.prefix) == cat(view(h.prefix), keyed(hOpen(h), name), one(123)) && view(r.(*group).Handler.suffix) == cat(view(h.suffix), one(125))
	ensures head: name != "" ==> headed(h, name)
	ensures formed: name != "" ==> let n = r.(*group).Handler; view(n.prefix) == cat(view(h.prefix), keyed(hOpen(h), name), one(123)) && view(n.suffix) == cat(view(h.suffix), one(125)) && headed(h, name) ==> formed(n)
	prop C01 C03 C05 C07 C08
	requires usable(h)
	ensures same: name == "" ==> tag(r) == type(*Handler) && r.(*Handler) == h
	ensures kind: name != "" ==> tag(r) == type(*group) && fresh(r.(*group)) && derived(r.(*group).Handler, h)
	ensures parent: name != "" ==> r.(*group).name == name && tag(r.(*group).parent) == type(*Handler) && r.(*group).parent.(*Handler) == h
	prop C03 C05 C07
	ensures prefix: name != "" ==> view(r.(*group).Handler.prefix) == cat(view(h.prefix), keyed(hOpen(h), name), one(123))
	ensures suffix: name != "" ==> view(r.(*group).Handler.suffix) == cat(view(h.suffix), one(125))
	ensures groups: name != "" ==> view(r.(*group).Handler.groups) == (h.options.ReplaceAttr != nil ? cat(view(h.groups), one(name)) : nil)
	safe

# ---------------------------------------------------------------- groups

spec func none(r slog.Record) bool = hollows(recordAttrs(r), len(recordAttrs(r)))

# A record that leaves the group without members goes to the parent, which has not opened the group.
func (*group).Handle(g, ctx, record) (err) split
	prop C01
	requires formed(g.Handler)
	ensures line: !none(record) ==> g.Handler.writer.log == old(g.Handler.writer.log) && err != nil || oneLine(g.Handler.writer.log, old(g.Handler.writer.log))
	prop C01 C03 C05 C07 C08
	hide rAttr okAttr prep keyed quote esc rScalar okScalar rAny okAny rFloat field
	requires g != nil && usable(g.Handler) && sane(record) && !g.Handler.mutex.held && g.parent != nil
	modifies g.parent.handled, g.parent.refused, all(io.Writer.log), all(io.Writer.failed), g.Handler.mutex.held
	prop C03 C05 C07
	ensures wrote: !none(record) ==> wrote(g.Handler, record, err != nil)
	prop C08
	ensures once: !none(record) ==> wroteOnce(g.Handler, record, err != nil)
	prop C01 C03 C05 C07 C08
	ensures empty: none(record) ==> g.parent.handled == old(cat(g.parent.handled, one(record))) && g.parent.refused == (err != nil)
	ensures released: !g.Handler.mutex.held
	loop 0
		invariant 0 <= $i && $i <= r.nFront && empty && hollows(recordAttrs(r), $i)
	loop 1
		invariant 0 <= $i && $i <= len(r.back) && empty && hollows(recordAttrs(r), r.nFront + $i)
	safe

func (*group).WithAttrs(g, attrs) (r)
	prop C01
	requires formed(g.Handler)
	ensures formed: !hollows(view(attrs), len(attrs)) ==> formed(r.(*Handler))
	prop C01 C03 C05 C07 C08
	requires g != nil && usable(g.Handler)
	ensures same: hollows(view(attrs), len(attrs)) ==> tag(r) == type(*group) && r.(*group) == g
	ensures kind: !hollows(view(attrs), len(attrs)) ==> tag(r) == type(*Handler) && derived(r.(*Handler), g.Handler)
	prop C03 C05 C07
	ensures prefix: !hollows(view(attrs), len(attrs)) ==> view(r.(*Handler).prefix) == cat(view(g.Handler.prefix), rKept(g.Handler.extras.TimeFormat, g.Handler.options.ReplaceAttr, view(g.Handler.groups), hOpen(g.Handler), view(attrs), len(attrs)))
	ensures suffix: !hollows(view(attrs), len(attrs)) ==> view(r.(*Handler).suffix) == view(g.Handler.suffix)
	ensures groups: !hollows(view(attrs), len(attrs)) ==> view(r.(*Handler).groups) == view(g.Handler.groups)
	safe

func (*group).WithGroup(g, name) (r)
	prop C01
	requires formed(g.Handler)
	ensures text: name != "" ==> view(r.(*group).Handler.prefix) == cat(view(g.Handler.prefix), keyed(hOpen(g.Handler), name), one(123)) && view(r.(*group).Handler.suffix) == cat(view(g.Handler.suffix), one(125))
	ensures head: name != "" ==> headed(g.Handler, name)
	ensures formed: name != "" ==> let n = r.(*group).Handler; view(n.prefix) == cat(view(g.Handler.prefix), keyed(hOpen(g.Handler), name), one(123)) && view(n.suffix) == cat(view(g.Handler.suffix), one(125)) && headed(g.Handler, name) ==> formed(n)
	prop C01 C03 C05 C07 C08
	requires g != nil && usable(g.Handler)
	ensures same: name == "" ==> tag(r) == type(*group) && r.(*group) == g
	ensures kind: name != "" ==> tag(r) == type(*group) && fresh(r.(*group)) && derived(r.(*group).Handler, g.Handler)
	ensures parent: name != "" ==> r.(*group).name == name && tag(r.(*group).parent) == type(*group) && r.(*group).parent.(*group) == g
	prop C03 C05 C07
	ensures prefix: name != "" ==> view(r.(*group).Handler.prefix) == cat(view(g.Handler.prefix), keyed(hOpen(g.Handler), name), one(123))
	ensures suffix: name != "" ==> view(r.(*group).Handler.suffix) == cat(view(g.Handler.suffix), one(125))
	ensures groups: name != "" ==> view(r.(*group).Handler.groups) == (g.Handler.options.ReplaceAttr != nil ? cat(view(g.Handler.groups), one(name)) : nil)
	safe
