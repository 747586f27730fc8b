# Readers over bytes: reading moves only the reader's own (unobserved) position.
package bytes
func NewReader(b) (r) trusted
	ensures r != nil && fresh(r)
func (*Reader).ReadRune(r) (ch, size, err) trusted
func (*Reader).UnreadRune(r) (err) trusted

func HasSuffix(s, suffix) (r) trusted
	ensures len(suffix) == 1 ==> (r <==> len(s) > 0 && view(s)[len(s)-1] == suffix[0])

func TrimSuffix(s, suffix) (r) trusted
	ensures len(suffix) == 1 && len(s) > 0 && view(s)[len(s)-1] == view(suffix)[0] ==> view(r) == init(view(s)) && len(r) == len(s) - 1
	ensures len(suffix) == 0 || len(suffix) == 1 && (len(s) == 0 || view(s)[len(s)-1] != view(suffix)[0]) ==> r == s
	ensures ref(r) == ref(s) && off(r) == off(s) && cap(r) == cap(s)

# Buffers (only written to): content is the slice Bytes returns. Writing appends to it, in the array
# it is in or in a new one. shared marks a buffer that is not private to the code under verification:
# an output writer supplied by somebody else.
ghost field bytes.Buffer.content []byte = nil
ghost field bytes.Buffer.shared bool = false
spec func extends(now, before []byte) bool =
	(ref(now) == ref(before) && off(now) == off(before) && cap(now) == cap(before) && len(now) >= len(before)) || fresh(now)
func NewBuffer(buf) (b) trusted
	ensures b != nil && fresh(b) && b.content == buf && !b.shared
func NewBufferString(s) (b) trusted
	ensures b != nil && fresh(b) && view(b.content) == bytes(s) && fresh(b.content) && !b.shared
func (*Buffer).Write(b, p) (n, err) trusted
	modifies b.content, spare(b.content)
	ensures n == len(p) && err == nil && view(b.content) == cat(old(view(b.content)), old(view(p)))
	ensures extends(b.content, old(b.content))
func (*Buffer).WriteString(b, s) (n, err) trusted
	modifies b.content, spare(b.content)
	ensures n == len(s) && err == nil && view(b.content) == cat(old(view(b.content)), bytes(s))
	ensures extends(b.content, old(b.content))
func (*Buffer).WriteByte(b, c) (err) trusted
	modifies b.content, spare(b.content)
	ensures err == nil && view(b.content) == cat(old(view(b.content)), one(c))
	ensures extends(b.content, old(b.content))
func (*Buffer).Bytes(b) (r) trusted
	ensures r == b.content
func (*Buffer).String(b) (s) trusted
	ensures bytes(s) == view(b.content)
func (*Buffer).Len(b) (n) trusted
	ensures n == len(b.content)
func (*Buffer).Grow(b, n) trusted
	requires n >= 0
	modifies b.content
	ensures view(b.content) == old(view(b.content)) && (b.content == old(b.content) || fresh(b.content))
func (*Buffer).Truncate(b, n) trusted
	requires 0 <= n && n <= len(b.content)
	modifies b.content
	ensures b.content == old(b.content)[:n]
func (*Buffer).Reset(b) trusted
	modifies b.content
	ensures b.content == old(b.content)[:0]

package errors
func New(text) (r) trusted
	ensures r != nil
func Is(err, target) (r) pure
	ensures err == nil && target != nil ==> !r
	ensures err == target ==> r
