# Formatting has no effects the properties observe (String/Error/Format methods of the
# arguments are assumed not to modify program state); the text is left unconstrained.
package fmt
func Sprintf(f, a) (r) trusted
	ensures bytes(r) == format(f, a)
func Fprintf(w, f, a) (n, err) trusted
	requires private(w)
	modifies w.(*bytes.Buffer).content, spare(w.(*bytes.Buffer).content)
	ensures err == nil && view(w.(*bytes.Buffer).content) == cat(old(view(w.(*bytes.Buffer).content)), old(format(f, a)))
	ensures extends(w.(*bytes.Buffer).content, old(w.(*bytes.Buffer).content))
func Sprint(a) (r) trusted
func Errorf(format, a) (err) trusted
	ensures err != nil
