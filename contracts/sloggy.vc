package handlers/sloggy

# ---------------------------------------------------------------- C09, C10: options

func fixOptions(options) (r)
	prop C02 C04 C06 C07 C08 C09 C10
	ensures fresh(r) && r.Level != nil
	ensures none: options == nil ==> r.Level == slog.LevelInfo && !r.AddSource && r.ReplaceAttr == nil
	ensures level: options != nil ==> r.Level == (old(options.Level) != nil ? old(options.Level) : slog.LevelInfo)
	ensures rest: options != nil ==> r.AddSource == old(options.AddSource) && r.ReplaceAttr == old(options.ReplaceAttr)
	safe

func (*Handler).Enabled(h, ctx, level) (r)
	prop C09
	requires h != nil && h.options != nil && h.options.Level != nil
	ensures r <==> level >= h.options.Level.Level()
	safe

func NewHandler(writer, options) (r)
	prop C02
	ensures formed: sFormed(r)
	prop C02 C04 C06 C07 C08
	ensures fresh(r) && r.writer == writer && r.mutex != nil && fresh(r.mutex) && !r.mutex.held && len(r.prefix.content) == 0 && len(r.suffix.content) == 0 && len(r.groups) == 0
	ensures r.options != nil && fresh(r.options) && r.options.Level != nil && !r.prefix.shared && !r.suffix.shared
	prop C02 C04 C06 C07 C08 C09 C10
	ensures fresh(r) && fresh(r.options)
	ensures writer: r.writer == writer
	ensures level: r.options.Level == (options != nil && old(options.Level) != nil ? old(options.Level) : slog.LevelInfo)
	ensures rest: options != nil ==> r.options.AddSource == old(options.AddSource) && r.options.ReplaceAttr == old(options.ReplaceAttr)
	safe
