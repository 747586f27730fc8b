package handlers/sloggy

# ---------------------------------------------------------------- the line

spec func sSourced(h *Handler, r slog.Record) bool = h.options.AddSource && r.PC != 0
spec func sIsSource(m map[string]any, pc uintptr) bool =
	m != nil && tag(m["function"]) == type(string) && m["function"].(string) == frameOf(pc).Function && tag(m["file"]) == type(string) && m["file"].(string) == frameOf(pc).File && tag(m["line"]) == type(int) && m["line"].(int) == frameOf(pc).Line
spec func sBasic(h *Handler, r slog.Record, m map[string]any) seq[slog.Attr] =
	cat(r.Time.IsZero() ? nil : one(slog.Time("time", r.Time)), one(slog.String("level", r.Level.String())), one(slog.String("msg", r.Message)),
		sSourced(h, r) ? one(slog.Any("source", iface(m))) : nil)
spec func sHead(h *Handler, r slog.Record, m map[string]any) seq[byte] =
	sAttrs(h.options.ReplaceAttr, nil, false, sBasic(h, r, m), len(sBasic(h, r, m)))
spec func sLine(h *Handler, r slog.Record, m map[string]any) seq[byte] =
	len(h.prefix.content) == 0 ? sHead(h, r, m) : cat(sHead(h, r, m), len(sHead(h, r, m)) > 0 ? bytes(", ") : nil, view(h.prefix.content))
spec func sLineOpen(h *Handler, r slog.Record, m map[string]any) bool = len(h.prefix.content) == 0 ? len(sHead(h, r, m)) > 0 : view(h.prefix.content)[len(h.prefix.content)-1] != 123
spec func sBody(h *Handler, r slog.Record, m map[string]any, n int) seq[byte] =
	sAttrs(h.options.ReplaceAttr, view(h.groups), sLineOpen(h, r, m), recordAttrs(r), n)
spec func sWhole(h *Handler, r slog.Record, m map[string]any) seq[byte] =
	cat(one(123), sLine(h, r, m), sBody(h, r, m, len(recordAttrs(r))), view(h.suffix.content), bytes("}\r\n"))

spec func sokHead(h *Handler, r slog.Record, m map[string]any) bool = sokAttrs(h.options.ReplaceAttr, nil, sBasic(h, r, m), len(sBasic(h, r, m)))
spec func sokLine(h *Handler, r slog.Record, m map[string]any) bool =
	sokHead(h, r, m) && sokAttrs(h.options.ReplaceAttr, view(h.groups), recordAttrs(r), len(recordAttrs(r)))

# What handling the record did: the line was written once, or, if it cannot be rendered, nothing was.
spec func sWrote(h *Handler, r slog.Record, bad bool) bool = exists m map[string]any :: (sSourced(h, r) ==> sIsSource(m, r.PC)) &&
		(sokLine(h, r, m) ==> h.writer.log == old(cat(h.writer.log, one(sWhole(h, r, m))))) &&
		(sokLine(h, r, m) ==> (!bad <==> !h.writer.failed)) &&
		(!sokLine(h, r, m) ==> h.writer.log == old(h.writer.log) && bad)
spec func sEndsLine(q seq[byte]) bool = len(q) >= 3 && q[len(q)-3] == 125 && q[len(q)-2] == 13 && q[len(q)-1] == 10
spec func sOneMore(now, before seq[seq[byte]]) bool = len(now) == len(before) + 1 && prefix(before, now) && sEndsLine(now[len(before)])
spec func sWroteOnce(h *Handler, r slog.Record, bad bool) bool = exists m map[string]any :: (sSourced(h, r) ==> sIsSource(m, r.PC)) &&
		(sokLine(h, r, m) ==> sOneMore(h.writer.log, old(h.writer.log))) &&
		(sokLine(h, r, m) ==> (!bad <==> !h.writer.failed)) &&
		(!sokLine(h, r, m) ==> h.writer.log == old(h.writer.log) && bad)

spec func sUsable(h *Handler) bool = h != nil && h.options != nil && h.options.Level != nil && h.mutex != nil && h.writer != nil && guard(h.writer) == h.mutex && !private(h.writer) && !h.prefix.shared && !h.suffix.shared

# What a handler has rendered in advance is the start of an object that its suffix completes.
spec func sFormed(h *Handler) bool = isHead(cat(one(123), view(h.prefix.content)), view(h.suffix.content), sOpen(h)) && (len(h.prefix.content) == 0 ==> len(h.suffix.content) == 0)

func (*Handler).Handle(h, ctx, record) (err) split
	prop C02
	requires sFormed(h)
	ensures line: h.writer.log == old(h.writer.log) && err != nil || oneLine(h.writer.log, old(h.writer.log))
	prop C02 C04 C06 C07 C08
	hide sAttr sokAttr prep hollow hollows squote sScalar sokScalar sAny sokAny sFloat skeyed
	requires sUsable(h) && sane(record) && !h.mutex.held
	modifies h.writer.log, h.writer.failed, h.mutex.held
	ensures released: !h.mutex.held
	prop C08
	ensures once: sWroteOnce(h, record, err != nil)
	prop C04 C06 C07
	ensures wrote: sWrote(h, record, err != nil)
	prop C02 C04 C06 C07 C08
	prop C02
	cut Len: fresh(c) && c.replace == h.options.ReplaceAttr && sready(c) && fresh(c.Writer.(*bytes.Buffer)) && fresh(sout(c)) && c.Writer.(*bytes.Buffer) == &buffer
	cut Len: h.writer.log == old(h.writer.log) && !h.mutex.held && !private(h.writer)
	cut Len: isHead(view(sout(c)), nil, c.started)
	prop C02 C04 C06 C07 C08
	cut Attrs: fresh(c) && c.replace == h.options.ReplaceAttr && sready(c) && fresh(c.Writer.(*bytes.Buffer)) && fresh(sout(c)) && c.Writer.(*bytes.Buffer) == &buffer
	cut Attrs: h.writer.log == old(h.writer.log) && !h.mutex.held && !private(h.writer)
	prop C02
	cut Attrs: isHead(view(sout(c)), view(h.suffix.content), c.started)
	prop C08
	cut Attrs: exists m map[string]any :: (sSourced(h, record) ==> sIsSource(m, record.PC)) && sokHead(h, record, m)
	prop C04 C06 C07
	cut Attrs: exists m map[string]any :: (sSourced(h, record) ==> sIsSource(m, record.PC)) && sokHead(h, record, m) &&
		view(sout(c)) == cat(one(123), sLine(h, record, m)) && c.started == sLineOpen(h, record, m)
	prop C02 C04 C06 C07 C08
	loop 0
		invariant 0 <= $i && $i <= r.nFront && err == nil && c.groups == h.groups && fresh(sout(c)) && sready(c) && !private(h.writer)
		prop C02
		invariant isHead(view(sout(c)), view(h.suffix.content), c.started)
		prop C04 C06 C07 C08
		invariant sokAttrs(h.options.ReplaceAttr, view(h.groups), recordAttrs(r), $i)
		prop C04 C06 C07
		invariant view(sout(c)) == cat(entry(0, view(sout(c))), sAttrs(h.options.ReplaceAttr, view(h.groups), entry(0, c.started), recordAttrs(r), $i))
		invariant c.started == (entry(0, c.started) || len(sAttrs(h.options.ReplaceAttr, view(h.groups), entry(0, c.started), recordAttrs(r), $i)) > 0)
	loop 1
		prop C02
		invariant isHead(view(sout(c)), view(h.suffix.content), c.started)
		prop C04 C06 C07
		invariant view(sout(c)) == cat(entry(0, view(sout(c))), sAttrs(h.options.ReplaceAttr, view(h.groups), entry(0, c.started), recordAttrs(r), r.nFront + $i))
		invariant c.started == (entry(0, c.started) || len(sAttrs(h.options.ReplaceAttr, view(h.groups), entry(0, c.started), recordAttrs(r), r.nFront + $i)) > 0)
		prop C02 C04 C06 C07 C08
		invariant 0 <= $i && $i <= len(r.back) && err == nil && c.groups == h.groups && fresh(sout(c)) && sready(c) && !private(h.writer)
		prop C04 C06 C07 C08
		invariant sokAttrs(h.options.ReplaceAttr, view(h.groups), recordAttrs(r), r.nFront + $i)
	prop C02 C04 C06 C07 C08
	safe

# ---------------------------------------------------------------- derivation

spec func sOpen(h *Handler) bool = len(h.prefix.content) > 0 && view(h.prefix.content)[len(h.prefix.content)-1] != 123
spec func sDerived(n, h *Handler) bool = fresh(n) && n.options == h.options && n.writer == h.writer && n.mutex == h.mutex && !n.prefix.shared && !n.suffix.shared

# Attributes that cannot be rendered are left out.
rec func sKept(f infra.AttrFn, gs seq[string], st bool, as seq[slog.Attr], n int) seq[byte] =
	n <= 0 ? nil : (let p = sKept(f, gs, st, as, n-1); sokAttr(f, gs, as[n-1]) ? cat(p, sAttr(f, gs, st || len(p) > 0, as[n-1])) : p)

func (*Handler).WithAttrs(h, attrs) (r)
	prop C02
	requires sFormed(h)
	ensures formed: sFormed(r.(*Handler))
	prop C02 C04 C06 C07 C08
	hide sAttr sokAttr prep hollow hollows skeyed squote sScalar sokScalar sAny sokAny sFloat hollowsDown
	requires sUsable(h)
	ensures kind: tag(r) == type(*Handler)
	ensures derived: sDerived(r.(*Handler), h)
	prop C04 C06 C07
	ensures prefix: view(r.(*Handler).prefix.content) == cat(view(h.prefix.content), sKept(h.options.ReplaceAttr, view(h.groups), sOpen(h), view(attrs), len(attrs)))
	ensures suffix: view(r.(*Handler).suffix.content) == view(h.suffix.content)
	ensures groups: view(r.(*Handler).groups) == view(h.groups)
	prop C02 C04 C06 C07 C08
	loop 0
		invariant 0 <= $i && $i <= len(attrs) && c.replace == h.options.ReplaceAttr && c.groups == h.groups
		invariant fresh(hdlr) && fresh(c) && sready(c) && c.Writer.(*bytes.Buffer) == &hdlr.prefix
		invariant fresh(sout(c)) || cap(sout(c)) == 0
		invariant !hdlr.suffix.shared && (cap(hdlr.suffix.content) == 0 || ref(hdlr.suffix.content) != ref(sout(c)))
		prop C02
		invariant isHead(cat(one(123), view(sout(c))), view(h.suffix.content), c.started) && len(sout(c)) >= len(h.prefix.content)
		prop C02 C04 C06 C07
		invariant view(hdlr.suffix.content) == view(h.suffix.content)
		prop C04 C06 C07
		invariant view(sout(c)) == cat(view(h.prefix.content), sKept(h.options.ReplaceAttr, view(h.groups), sOpen(h), view(attrs), $i))
		invariant c.started == (sOpen(h) || len(sKept(h.options.ReplaceAttr, view(h.groups), sOpen(h), view(attrs), $i)) > 0)
	prop C02 C04 C06 C07 C08
	safe

spec func sHeaded(h *Handler, name string) bool = isHead(cat(one(123), view(h.prefix.content), skeyed(sOpen(h), name), one(123)), cat(view(h.suffix.content), one(125)), false)
func (*Handler).WithGroup(h, name) (r)
	prop C02
	requires sFormed(h)
	ensures text: name != "" ==> let n = r.(*group).Handler; view(n.prefix.content) == cat(view(h.prefix.content), skeyed(sOpen(h), name), one(123)) && view(n.suffix.content) == cat(view(h.suffix.content), one(125))
	ensures head: name != "" ==> sHeaded(h, name)
	ensures formed: name != "" ==> let n = r.(*group).Handler; view(n.prefix.content) == cat(view(h.prefix.content), skeyed(sOpen(h), name), one(123)) && view(n.suffix.content) == cat(view(h.suffix.content), one(125)) && sHeaded(h, name) ==> sFormed(n)
	prop C02 C04 C06 C07 C08
	requires sUsable(h)
	ensures same: name == "" ==> tag(r) == type(*Handler) && r.(*Handler) == h
	ensures kind: name != "" ==> tag(r) == type(*group) && fresh(r.(*group)) && sDerived(r.(*group).Handler, h)
	ensures parent: name != "" ==> r.(*group).name == name && tag(r.(*group).parent) == type(*Handler) && r.(*group).parent.(*Handler) == h
	prop C04 C06 C07
	ensures prefix: name != "" ==> view(r.(*group).Handler.prefix.content) == cat(view(h.prefix.content), skeyed(sOpen(h), name), one(123))
	ensures suffix: name != "" ==> view(r.(*group).Handler.suffix.content) == cat(view(h.suffix.content), one(125))
	ensures groups: name != "" ==> view(r.(*group).Handler.groups) == cat(view(h.groups), one(name))
	safe

# ---------------------------------------------------------------- groups

# A record that leaves the group without members goes to the parent, which has not opened the group.
func (*group).Handle(g, ctx, record) (err) split
	prop C02
	requires sFormed(g.Handler)
	ensures line: !none(record) ==> g.Handler.writer.log == old(g.Handler.writer.log) && err != nil || oneLine(g.Handler.writer.log, old(g.Handler.writer.log))
	prop C02 C04 C06 C07 C08
	hide sAttr sokAttr prep skeyed squote sScalar sokScalar sAny sokAny sFloat
	requires g != nil && sUsable(g.Handler) && sane(record) && !g.Handler.mutex.held && g.parent != nil
	modifies g.parent.handled, g.parent.refused, all(io.Writer.log), all(io.Writer.failed), g.Handler.mutex.held
	prop C04 C06 C07
	ensures wrote: !none(record) ==> sWrote(g.Handler, record, err != nil)
	prop C08
	ensures once: !none(record) ==> sWroteOnce(g.Handler, record, err != nil)
	prop C02 C04 C06 C07 C08
	ensures empty: none(record) ==> g.parent.handled == old(cat(g.parent.handled, one(record))) && g.parent.refused == (err != nil)
	ensures released: !g.Handler.mutex.held
	loop 0
		invariant 0 <= $i && $i <= r.nFront && empty && hollows(recordAttrs(r), $i)
	loop 1
		invariant 0 <= $i && $i <= len(r.back) && empty && hollows(recordAttrs(r), r.nFront + $i)
	safe

func (*group).WithAttrs(g, attrs) (r)
	prop C02
	requires sFormed(g.Handler)
	ensures formed: !hollows(view(attrs), len(attrs)) ==> sFormed(r.(*Handler))
	prop C02 C04 C06 C07 C08
	requires g != nil && sUsable(g.Handler)
	ensures same: hollows(view(attrs), len(attrs)) ==> tag(r) == type(*group) && r.(*group) == g
	ensures kind: !hollows(view(attrs), len(attrs)) ==> tag(r) == type(*Handler) && sDerived(r.(*Handler), g.Handler)
	prop C04 C06 C07
	ensures prefix: !hollows(view(attrs), len(attrs)) ==> view(r.(*Handler).prefix.content) == cat(view(g.Handler.prefix.content), sKept(g.Handler.options.ReplaceAttr, view(g.Handler.groups), sOpen(g.Handler), view(attrs), len(attrs)))
	ensures suffix: !hollows(view(attrs), len(attrs)) ==> view(r.(*Handler).suffix.content) == view(g.Handler.suffix.content)
	ensures groups: !hollows(view(attrs), len(attrs)) ==> view(r.(*Handler).groups) == view(g.Handler.groups)
	safe

func (*group).WithGroup(g, name) (r)
	prop C02
	requires sFormed(g.Handler)
	ensures text: name != "" ==> let n = r.(*group).Handler; view(n.prefix.content) == cat(view(g.Handler.prefix.content), skeyed(sOpen(g.Handler), name), one(123)) && view(n.suffix.content) == cat(view(g.Handler.suffix.content), one(125))
	ensures head: name != "" ==> sHeaded(g.Handler, name)
	ensures formed: name != "" ==> let n = r.(*group).Handler; view(n.prefix.content) == cat(view(g.Handler.prefix.content), skeyed(sOpen(g.Handler), name), one(123)) && view(n.suffix.content) == cat(view(g.Handler.suffix.content), one(125)) && sHeaded(g.Handler, name) ==> sFormed(n)
	prop C02 C04 C06 C07 C08
	requires g != nil && sUsable(g.Handler)
	ensures same: name == "" ==> tag(r) == type(*group) && r.(*group) == g
	ensures kind: name != "" ==> tag(r) == type(*group) && fresh(r.(*group)) && sDerived(r.(*group).Handler, g.Handler)
	ensures parent: name != "" ==> r.(*group).name == name && tag(r.(*group).parent) == type(*group) && r.(*group).parent.(*group) == g
	prop C04 C06 C07
	ensures prefix: name != "" ==> view(r.(*group).Handler.prefix.content) == cat(view(g.Handler.prefix.content), skeyed(sOpen(g.Handler), name), one(123))
	ensures suffix: name != "" ==> view(r.(*group).Handler.suffix.content) == cat(view(g.Handler.suffix.content), one(125))
	ensures groups: name != "" ==> view(r.(*group).Handler.groups) == cat(view(g.Handler.groups), one(name))
	safe
