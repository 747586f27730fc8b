package handlers/flash

# ---------------------------------------------------------------- C09, C10: options and extras

spec func def(s, d string) string = s != "" ? s : d

spec func defaulted(e *Extras, k string, t string, f string, m string, s string) bool = e.LevelKey == def(k, "level") && e.TimeKey == def(t, "time") && e.TimeFormat == def(f, "2006-01-02T15:04:05.999999999Z07:00") && e.MessageKey == def(m, "msg") && e.SourceKey == def(s, "source")

func fixOptions(options) (r)
	prop C09 C10 C01 C03 C05 C08
	ensures fresh(r) && r.Level != nil
	ensures none: options == nil ==> r.Level == slog.LevelInfo && !r.AddSource && r.ReplaceAttr == nil
	ensures level: options != nil ==> r.Level == (old(options.Level) != nil ? old(options.Level) : slog.LevelInfo)
	ensures rest: options != nil ==> r.AddSource == old(options.AddSource) && r.ReplaceAttr == old(options.ReplaceAttr)
	safe

func fixExtras(extras) (r)
	prop C09 C10 C01 C03 C05 C08
	ensures fresh(r) && r.LevelNames != nil && fresh(r.LevelNames)
	ensures none: extras == nil ==> defaulted(r, "", "", "", "", "")
	ensures given: extras != nil ==> defaulted(r, old(extras.LevelKey), old(extras.TimeKey), old(extras.TimeFormat), old(extras.MessageKey), old(extras.SourceKey))
	ensures names: extras != nil ==> forall l slog.Level :: r.LevelNames[l] == (old(extras.LevelNames)[l] != "" ? old(extras.LevelNames[l]) : l == slog.LevelDebug || l == slog.LevelInfo || l == slog.LevelWarn || l == slog.LevelError ? l.String() : "")
	ensures nonames: extras == nil ==> forall l slog.Level :: r.LevelNames[l] == (l == slog.LevelDebug || l == slog.LevelInfo || l == slog.LevelWarn || l == slog.LevelError ? l.String() : "")
	safe

func (*Extras).levelName(extras, level) (r)
	prop C09 C10
	requires extras != nil
	ensures r == (extras.LevelNames[level] != "" ? extras.LevelNames[level] : level.String())
	safe

func (*Handler).Enabled(h, ctx, level) (r)
	prop C09
	requires h != nil && h.options != nil && h.options.Level != nil
	ensures r <==> level >= h.options.Level.Level()
	safe

func NewHandler(writer, options, extras) (r)
	prop C01
	ensures formed: formed(r)
	prop C01 C03 C05 C08
	ensures fresh(r) && r.writer == writer && r.mutex != nil && fresh(r.mutex) && !r.mutex.held && len(r.prefix) == 0 && len(r.suffix) == 0 && len(r.groups) == 0
	ensures r.options != nil && fresh(r.options) && r.options.Level != nil && r.extras != nil && fresh(r.extras)
	prop C09 C10
	ensures fresh(r) && fresh(r.options) && fresh(r.extras) && fresh(r.extras.LevelNames)
	ensures writer: r.writer == writer
	ensures level: r.options.Level == (options != nil && old(options.Level) != nil ? old(options.Level) : slog.LevelInfo)
	ensures rest: options != nil ==> r.options.AddSource == old(options.AddSource) && r.options.ReplaceAttr == old(options.ReplaceAttr)
	ensures given: extras != nil ==> defaulted(r.extras, old(extras.LevelKey), old(extras.TimeKey), old(extras.TimeFormat), old(extras.MessageKey), old(extras.SourceKey))
	ensures defaults: extras == nil ==> defaulted(r.extras, "", "", "", "", "")
	safe
