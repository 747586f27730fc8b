package strings
func EqualFold(s, t) (r) pure
func ToLower(s) (r) pure
func ToUpper(s) (r) pure
func TrimRight(s, cutset) (r) pure
axiom trimRightEmpty(): strings.TrimRight("", "\n") == ""

# String builders: the text is left unconstrained, and held only by the builder.
func (*Builder).WriteRune(b, r) (n, err) trusted
func (*Builder).WriteByte(b, c) (err) trusted
func (*Builder).WriteString(b, s) (n, err) trusted
func (*Builder).String(b) (s) trusted
func (*Builder).Len(b) (n) trusted
	ensures n >= 0
func ContainsRune(s, r) (b) pure

package unicode
func IsSpace(r) (b) pure
func IsDigit(r) (b) pure
func IsLetter(r) (b) pure
