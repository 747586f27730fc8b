# Assumed contracts of log/slog (trusted; listed in every evidence file that uses them).
package log/slog

func (Value).String(v) (s) pure
func StringValue(s) (v) pure
func (Value).Resolve(v) (r) pure
func (Value).Kind(v) (r) pure
func (Value).Any(v) (r) pure
func (Value).Bool(v) (r) pure
func (Value).Duration(v) (r) pure
func (Value).Float64(v) (r) pure
func (Value).Int64(v) (r) pure
func (Value).Uint64(v) (r) pure
func (Value).Time(v) (r) pure
spec func attrsOf(v slog.Value) seq[slog.Attr]
func (Value).Group(v) (r) trusted
	ensures view(r) == attrsOf(v)
func (Attr).Equal(a, b) (r) pure
func (Attr).String(a) (s) pure
func Time(key, v) (a) pure
func String(key, value) (a) pure
func Any(key, value) (a) pure
func (Record).Attrs(r, f) inline

# The empty attribute equals only itself.
axiom attrEqualEmpty(a slog.Attr) {a.Equal(zero(slog.Attr))}:
	a.Equal(zero(slog.Attr)) <==> a == zero(slog.Attr)

func Error(msg, args) trusted
func Warn(msg, args) trusted
func Info(msg, args) trusted
func New(h) (l) pure
func (Leveler).Level(l) (r) pure
func (Level).String(l) (s) pure

# A handler called through the interface remembers the records it was given and whether it refused the last one.
ghost field log/slog.Handler.handled seq[slog.Record]
ghost field log/slog.Handler.refused bool
func (Handler).Handle(h, ctx, r) (err) trusted
	modifies h.handled, h.refused, all(io.Writer.log), all(io.Writer.failed)
	ensures h.handled == cat(old(h.handled), one(r))
	ensures h.refused == (err != nil)
