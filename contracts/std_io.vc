# A writer remembers every call made to it; guard is the lock that protects it.
package io
ghost field io.Writer.log seq[seq[byte]]
ghost field io.Writer.failed bool
spec func guard(w io.Writer) *sync.Mutex
# A buffer of one's own is not an output: what is written to it is its content.
spec func private(w io.Writer) bool = tag(w) == type(*bytes.Buffer) && !w.(*bytes.Buffer).shared
func (Writer).Write(w, p) (n, err) trusted
	requires locked: !private(w) && guard(w) != nil ==> guard(w).held
	modifies when(!private(w), w.log), when(!private(w), w.failed), when(private(w), w.(*bytes.Buffer).content), when(private(w), spare(w.(*bytes.Buffer).content))
	ensures !private(w) ==> w.log == cat(old(w.log), one(view(p))) && w.failed == (err != nil)
	ensures private(w) ==> n == len(p) && err == nil && view(w.(*bytes.Buffer).content) == cat(old(view(w.(*bytes.Buffer).content)), old(view(p)))
	ensures private(w) ==> extends(w.(*bytes.Buffer).content, old(w.(*bytes.Buffer).content))
	ensures private(w) == old(private(w))
