# UTF-8: pend(s, n) is the number of continuation bytes still due after the first n bytes.
package unicode/utf8
spec func leadByte(b byte) int = 192 <= b && b < 224 ? 1 : 224 <= b && b < 240 ? 2 : 240 <= b && b < 248 ? 3 : 0
rec func pend(s seq[byte], n int) int = n <= 0 ? 0 : (pend(s, n-1) > 0 ? pend(s, n-1) - 1 : leadByte(s[n-1]))
spec func utf8ok(s seq[byte]) bool = pend(s, len(s)) == 0 && forall i int {pend(s, i)} :: 0 <= i && i < len(s) && pend(s, i) > 0 ==> s[i] >= 128
func Valid(p) (r) pure
	ensures r ==> utf8ok(view(p))

package bytes
spec func toValid(s seq[byte], repl seq[byte]) seq[byte]
func ToValidUTF8(s, replacement) (r) trusted
	ensures view(r) == toValid(view(s), view(replacement))
	ensures utf8ok(view(r))
	ensures fresh(r)
