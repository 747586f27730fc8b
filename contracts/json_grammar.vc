# JSON, as rules. The predicates stand for sets of byte sequences closed under the rules below; what is
# proved from the rules holds of the smallest such sets: JSON texts without line breaks.
package encoding/json

# ---------------------------------------------------------------- strings: an automaton
# State 0: between characters; 1-3: so many continuation bytes due; 4-7: after E0, ED, F0, F4;
# 10: after a backslash; 11-14: hexadecimal digits due; -1: not a string.
spec func contByte(b int) bool = 128 <= b && b < 192
spec func utfStep(st, b int) int
axiom utfStepIs(st, b int) {utfStep(st, b)}: utfStep(st, b) == (
	st == 0 ? (b < 0 ? -1 : b < 128 ? 0 : b < 194 ? -1 : b < 224 ? 1 : b == 224 ? 4 : b == 237 ? 5 : b < 240 ? 2 : b == 240 ? 6 : b < 244 ? 3 : b == 244 ? 7 : -1) :
	!contByte(b) ? -1 :
	st == 1 ? 0 : st == 2 ? 1 : st == 3 ? 2 :
	st == 4 ? (b >= 160 ? 1 : -1) : st == 5 ? (b < 160 ? 1 : -1) :
	st == 6 ? (b >= 144 ? 2 : -1) : st == 7 ? (b < 144 ? 2 : -1) : -1)
rec func utf(s seq[byte], n int) int = n <= 0 ? 0 : utfStep(utf(s, n-1), s[n-1])

spec func hexDigit(b int) bool = 48 <= b && b <= 57 || 65 <= b && b <= 70 || 97 <= b && b <= 102
spec func charStep(st, b int) int
axiom charStepIs(st, b int) {charStep(st, b)}: charStep(st, b) == (
	st == 0 ? (b == 34 || b < 32 ? -1 : b == 92 ? 10 : utfStep(0, b)) :
	1 <= st && st <= 7 ? utfStep(st, b) :
	st == 10 ? (b == 34 || b == 92 || b == 47 || b == 98 || b == 102 || b == 110 || b == 114 || b == 116 ? 0 : b == 117 ? 14 : -1) :
	11 <= st && st <= 14 ? (hexDigit(b) ? (st == 11 ? 0 : st - 1) : -1) : -1)
# The state after reading q: a fold.
spec func chars(st int, q seq[byte]) int
rule charsNil(st int) {chars(st, nil)}: chars(st, nil) == st
rule charsOne(st, b int) {chars(st, one(b))}: chars(st, one(b)) == charStep(st, b)
rule charsCat(st int, p, q seq[byte]) {chars(st, cat(p, q))}: chars(st, cat(p, q)) == chars(chars(st, p), q)

# ---------------------------------------------------------------- values, members, objects
spec func isStr(q seq[byte]) bool
spec func isVal(q seq[byte]) bool
# A separator if st, a key and a colon.
spec func isKey(st bool, q seq[byte]) bool
# Nothing, or members, each after a separator, but the first only if st.
spec func isMore(st bool, q seq[byte]) bool
# The start of an object: s closes the objects open within it, e: the innermost has members.
spec func isHead(q, s seq[byte], e bool) bool
# One object and a line break (LF or CR LF).
spec func isLine(q seq[byte]) bool

rule strText(t seq[byte]) {isStr(cat(one(34), t, one(34)))}: chars(0, t) == 0 ==> isStr(cat(one(34), t, one(34)))
rule valStr(q seq[byte]) {isVal(q)}: isStr(q) ==> isVal(q)
rule valTrue() {isVal(bytes("true"))}: isVal(bytes("true"))
rule valFalse() {isVal(bytes("false"))}: isVal(bytes("false"))
rule keyFirst(k seq[byte]) {isKey(false, cat(k, bytes(": ")))}: isStr(k) ==> isKey(false, cat(k, bytes(": ")))
rule keyNext(k seq[byte]) {isKey(true, cat(bytes(", "), k, bytes(": ")))}: isStr(k) ==> isKey(true, cat(bytes(", "), k, bytes(": ")))
rule moreNone(st bool) {isMore(st, nil)}: isMore(st, nil)
rule moreMember(st bool, k, v seq[byte]) {isMore(st, cat(k, v))}: isKey(st, k) && isVal(v) ==> isMore(st, cat(k, v))
rule moreObject(st bool, k, m seq[byte]) {isMore(st, cat(k, one(123), m, one(125)))}: isKey(st, k) && isMore(false, m) ==> isMore(st, cat(k, one(123), m, one(125)))
rule moreBoth(st bool, p, q seq[byte]) {isMore(st, cat(p, q))}: isMore(st, p) && isMore(st || len(p) > 0, q) ==> isMore(st, cat(p, q))
rule moreEnd(st bool, q seq[byte]) {isMore(st, q)}: isMore(st, q) && len(q) > 0 ==> q[len(q)-1] != 123

rule headOpen() {isHead(one(123), nil, false)}: isHead(one(123), nil, false)
rule headMore(q, x, s seq[byte], e bool) {isHead(cat(q, x), s, e)}:
	isHead(q, s, false) && isMore(false, x) && (e <==> len(x) > 0) || isHead(q, s, true) && isMore(true, x) && e ==> isHead(cat(q, x), s, e)
rule headMember(q, k, v, s seq[byte], e bool) {isHead(cat(q, k, v), s, e)}:
	(isHead(q, s, false) && isKey(false, k) || isHead(q, s, true) && isKey(true, k)) && isVal(v) && e ==> isHead(cat(q, k, v), s, e)
rule headNext(q, k, v, s seq[byte], e bool) {isHead(cat(q, bytes(", "), k, v), s, e)}:
	isHead(q, s, true) && isKey(false, k) && isVal(v) && e ==> isHead(cat(q, bytes(", "), k, v), s, e)
rule headGroup(q, k, s seq[byte], e bool) {isHead(cat(q, k, one(123)), cat(s, one(125)), e)}:
	(isHead(q, s, false) && isKey(false, k) || isHead(q, s, true) && isKey(true, k)) && !e ==> isHead(cat(q, k, one(123)), cat(s, one(125)), e)
rule headGroupNext(q, k, s seq[byte], e bool) {isHead(cat(q, bytes(", "), k, one(123)), cat(s, one(125)), e)}:
	isHead(q, s, true) && isKey(false, k) && !e ==> isHead(cat(q, bytes(", "), k, one(123)), cat(s, one(125)), e)
rule headEnd(q, s seq[byte], e bool) {isHead(q, s, e)}: isHead(q, s, e) ==> len(q) > 0 && (e <==> q[len(q)-1] != 123)
rule headFirst(q, p, s seq[byte], e bool) {isHead(cat(q, p), s, e), isHead(cat(one(123), p), s, e)}:
	isHead(q, nil, false) && isHead(cat(one(123), p), s, e) ==> isHead(cat(q, p), s, e)
rule headAfter(q, p, s seq[byte], e bool) {isHead(cat(q, bytes(", "), p), s, e)}:
	isHead(q, nil, true) && len(p) > 0 && isHead(cat(one(123), p), s, e) ==> isHead(cat(q, bytes(", "), p), s, e)
rule headAfterBytes(q, p, s seq[byte], e bool) {isHead(cat(q, one(44), one(32), p), s, e)}:
	isHead(q, nil, true) && len(p) > 0 && isHead(cat(one(123), p), s, e) ==> isHead(cat(q, one(44), one(32), p), s, e)
rule lineEnd(q, s seq[byte]) {isLine(cat(q, s, one(125), one(10)))}: isHead(q, s, false) || isHead(q, s, true) ==> isLine(cat(q, s, one(125), one(10)))
rule lineEndAt(q seq[byte]) {isLine(cat(q, one(125), one(10)))}: isHead(q, nil, false) || isHead(q, nil, true) ==> isLine(cat(q, one(125), one(10)))

rule lineEndCR(q, s seq[byte]) {isLine(cat(q, s, one(125), one(13), one(10)))}: isHead(q, s, false) || isHead(q, s, true) ==> isLine(cat(q, s, one(125), one(13), one(10)))
rule lineEndAtCR(q seq[byte]) {isLine(cat(q, one(125), one(13), one(10)))}: isHead(q, nil, false) || isHead(q, nil, true) ==> isLine(cat(q, one(125), one(13), one(10)))
rule lineEndText(q, s seq[byte]) {isLine(cat(q, s, one(125), bytes("\r\n")))}: isHead(q, s, false) || isHead(q, s, true) ==> isLine(cat(q, s, one(125), bytes("\r\n")))

# ---------------------------------------------------------------- what libraries write (assumed)
rule intText(i int) {isVal(bytes(strconv.FormatInt(i, 10)))}: isVal(bytes(strconv.FormatInt(i, 10)))
rule uintText(i int) {isVal(bytes(strconv.FormatUint(i, 10)))}: isVal(bytes(strconv.FormatUint(i, 10)))
rule floatText(f float64) {isVal(bytes(strconv.FormatFloat(f, 102, -1, 64)))}: !math.IsNaN(f) && !math.IsInf(f, 0) ==> isVal(bytes(strconv.FormatFloat(f, 102, -1, 64)))
rule jsonText(v any) {isVal(jsonOf(v))}: jsonErr(v) == nil ==> isVal(jsonOf(v))
rule stringText(s seq[byte], html bool) {isStr(jsonString(s, html))}: isStr(jsonString(s, html))
axiom validText(s seq[byte], n int) {utf8.Valid(s), utf(s, n)}: n == len(s) ==> (utf8.Valid(s) <==> utf(s, n) == 0)
axiom toValidText(s seq[byte]) {toValid(s, bytes("\ufffd"))}: utf(toValid(s, bytes("\ufffd")), len(toValid(s, bytes("\ufffd")))) == 0
