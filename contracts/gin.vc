# Compiled patterns are values of their text; matches are functions of pattern and text.
package regexp
func MustCompile(expr) (re) pure
	ensures re != nil
func Compile(expr) (re, err) trusted
	ensures re == regexp.MustCompile(expr) && re != nil
spec func found(re *regexp.Regexp, s string) string
spec func submatches(re *regexp.Regexp, s string) seq[string]
func (*Regexp).FindString(re, s) (r) trusted
	requires re != nil
	ensures r == found(re, s)
func (*Regexp).FindStringSubmatch(re, s) (r) trusted
	requires re != nil
	ensures view(r) == submatches(re, s)
# A match of an anchored pattern is a prefix of the text.
axiom foundPrefix(re *regexp.Regexp, s string) {found(re, s)}: len(found(re, s)) <= len(s)
axiom submatchPrefix(re *regexp.Regexp, s string) {submatches(re, s)}: len(submatches(re, s)) > 0 ==> len(submatches(re, s)[0]) <= len(s)

package strconv
spec func intOf(s string, base int, bits int) int64
spec func intErr(s string, base int, bits int) error
func ParseInt(s, base, bitSize) (i, err) trusted
	ensures i == intOf(s, base, bitSize) && err == intErr(s, base, bitSize)

package strings
spec func splitOf(s string, sep string) seq[string]
spec func fieldsOf(s string) seq[string]
func Split(s, sep) (r) trusted
	ensures view(r) == splitOf(s, sep)
func Fields(s) (r) trusted
	ensures view(r) == fieldsOf(s)
func Trim(s, cutset) (r) pure

package context
func Background() (c) pure

# What the default logger was given: records in order; notes counts the debug diagnostics.
package log/slog
sort LogCall
spec func logCall(l slog.Level, m string, a seq[any]) LogCall
spec func defaultLog() *slog.Logger
ghost field log/slog.Logger.calls seq[LogCall]
ghost field log/slog.Logger.notes int
func Log(ctx, level, msg, args) trusted
	modifies defaultLog().calls
	ensures defaultLog().calls == cat(old(defaultLog().calls), one(logCall(level, msg, view(args))))
func Debug(msg, args) trusted
	modifies defaultLog().notes
	ensures defaultLog().notes == old(defaultLog().notes) + 1
# (other properties do not observe what the library itself logs)
func Info(msg, args) trusted
	prop C13
	modifies defaultLog().calls
func Warn(msg, args) trusted
	prop C13
	modifies defaultLog().calls
func Error(msg, args) trusted
	prop C13
	modifies defaultLog().calls
func Int64(key, value) (a) pure
spec func groupAttr(key string, args seq[any]) slog.Attr
func Group(key, args) (a) trusted
	ensures a == groupAttr(key, view(args))

package gin

# The first part of a traffic line: a decimal status code that fits an integer.
spec func codeMatch(s string) seq[string] = submatches(regexp.MustCompile("^\\s*(\\d+)\\s*$"), s)
spec func codeOf(s string) string = codeMatch(s)[1]
spec func isCode(s string) bool = len(codeMatch(s)) == 2 && intErr(codeOf(s), 10, 64) == nil
spec func bars(m string) seq[string] = splitOf(m, "|")
spec func isTraffic(m string) bool = len(bars(m)) == 4 && isCode(bars(m)[0])
spec func fieldsIn(m string) seq[any] = let p = bars(m); let w = fieldsOf(p[3]); cat(
	one(iface(slog.Int64("code", intOf(codeOf(p[0]), 10, 64)))),
	one(iface(slog.String("elapsed", strings.Trim(p[1], " ")))),
	one(iface(slog.String("client", strings.Trim(p[2], " ")))),
	len(w) == 2 ? cat(one(iface(slog.String("method", w[0]))), one(iface(slog.String("url", strings.Trim(w[1], "\""))))) : nil)

func Parse(message) (r, err)
	prop C14, C13
	ensures success: err == nil <==> isTraffic(message)
	ensures fields: err == nil ==> view(r) == fieldsIn(message)
	ensures none: err != nil ==> r == nil
	safe

# Leading tags.
spec func ginTag(m string) string = found(regexp.MustCompile("^\\s*\\[GIN]\\s*"), m)
spec func debugTag(m string) string = found(regexp.MustCompile("^\\s*\\[GIN-debug]\\s*"), m)
spec func levelTag(m string) seq[string] = submatches(regexp.MustCompile("^\\s*\\[(DEBUG|ERROR|INFO|WARNING|.*)]\\s*"), m)
spec func isLevel(t string) bool = t == "DEBUG" || t == "ERROR" || t == "INFO" || t == "WARNING"
spec func levelNamed(t string) slog.Leveler = t == "DEBUG" ? iface(slog.LevelDebug) : t == "ERROR" ? iface(slog.LevelError) : t == "INFO" ? iface(slog.LevelInfo) : iface(slog.LevelWarn)

spec func hasGin(m string) bool = ginTag(m) != ""
spec func hasDebug(m string) bool = !hasGin(m) && debugTag(m) != ""
spec func hasLevel(m string) bool = !hasGin(m) && debugTag(m) == "" && len(levelTag(m)) > 1
spec func unknownTag(m string) bool = hasLevel(m) && !isLevel(levelTag(m)[1])
spec func untagged(m string) string = hasGin(m) ? m[len(ginTag(m)):] : hasDebug(m) ? m[len(debugTag(m)):] : m[len(levelTag(m)[0]):]
spec func tagged(m string) bool = hasGin(m) || hasDebug(m) || hasLevel(m)

# After at most n tags: can the line be classified, what remains of it, and the level set by the last tag.
rec func classified(m string, n int) bool = n <= 0 || !tagged(m) || (!unknownTag(m) && classified(untagged(m), n-1))
rec func remains(m string, n int) string = n <= 0 || !tagged(m) ? m : remains(untagged(m), n-1)
rec func lastLevel(l slog.Leveler, m string, n int) slog.Leveler = n <= 0 || !tagged(m) ? l :
	lastLevel(hasGin(m) ? l : hasDebug(m) ? iface(slog.LevelDebug) : levelNamed(levelTag(m)[1]), untagged(m), n-1)

# The time prefix of a traffic line is dropped.
spec func timeMatch(m string) seq[string] = submatches(regexp.MustCompile("^\\s*\\d+/\\d+/\\d+\\s*-\\s*\\d+:\\d+:\\d+\\s*\\|\\s*(.+)$"), m)
spec func untimed(m string) string = len(timeMatch(m)) == 2 ? timeMatch(m)[1] : m

spec func fullLine(p []byte) string = strings.TrimRight(str(view(p)), "\n")
spec func ginMsg(p []byte) string = untimed(remains(fullLine(p), 10))
spec func ready13(w *writer) bool = w != nil && w.Level != nil && (w.Traffic.Parse ==> w.Traffic.Level != nil)
spec func ginRecord(w *writer, p []byte) LogCall = w.Traffic.Parse && isTraffic(ginMsg(p)) ?
	logCall(w.Traffic.Level.Level(), w.Traffic.Message, w.Traffic.Embed ? fieldsIn(ginMsg(p)) : one(iface(groupAttr(w.Traffic.Group, fieldsIn(ginMsg(p)))))) :
	logCall(lastLevel(w.Level, fullLine(p), 10).Level(), ginMsg(p), nil)

func NewWriter(options) (r)
	prop C13
	requires options != nil
	ensures ready: tag(r) == type(*writer) && fresh(r.(*writer)) && ready13(r.(*writer))
	ensures level: r.(*writer).Level == (options.Level != nil ? options.Level : iface(slog.LevelInfo))
	ensures parse: r.(*writer).Traffic.Parse == options.Traffic.Parse && r.(*writer).Traffic.Embed == options.Traffic.Embed
	ensures traffic: options.Traffic.Parse ==> r.(*writer).Traffic.Level == (options.Traffic.Level != nil ? options.Traffic.Level : iface(slog.LevelInfo))
	ensures message: options.Traffic.Parse ==> r.(*writer).Traffic.Message == (options.Traffic.Message != "" ? options.Traffic.Message : "Gin Traffic")
	ensures group: options.Traffic.Parse && !options.Traffic.Embed ==> r.(*writer).Traffic.Group == (options.Traffic.Group != "" ? options.Traffic.Group : "gin")
	safe

func (*writer).Write(w, p) (n, err)
	prop C13
	requires ready13(w)
	modifies defaultLog().calls, defaultLog().notes
	ensures classified: err == nil <==> classified(fullLine(p), 10)
	ensures count: n == (err == nil ? len(p) : 0)
	ensures record: err == nil ==> defaultLog().calls == cat(old(defaultLog().calls), one(ginRecord(w, p)))
	ensures none: err != nil ==> defaultLog().calls == old(defaultLog().calls)
	ensures notes: !(err == nil && w.Traffic.Parse && !isTraffic(ginMsg(p))) ==> defaultLog().notes == old(defaultLog().notes)
	loop 0
		invariant 0 <= $i && $i <= 10 && level != nil
		invariant classified(msg, 10 - $i) <==> classified(fullLine(p), 10)
		invariant classified(fullLine(p), 10) ==> remains(msg, 10 - $i) == remains(fullLine(p), 10)
		invariant classified(fullLine(p), 10) ==> lastLevel(level, msg, 10 - $i) == lastLevel(w.Level, fullLine(p), 10)
	safe
