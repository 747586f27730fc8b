# Methods of attribute values are assumed to be functions of the value without effects.
func (error).Error(e) (r) pure

package fmt
func (Stringer).String(s) (r) pure

package encoding
spec func textOf(m encoding.TextMarshaler) seq[byte]
spec func textErr(m encoding.TextMarshaler) error
func (TextMarshaler).MarshalText(m) (txt, err) trusted
	ensures view(txt) == textOf(m) && err == textErr(m)

package encoding/json
spec func jtextOf(m json.Marshaler) seq[byte]
spec func jtextErr(m json.Marshaler) error
func (Marshaler).MarshalJSON(m) (txt, err) trusted
	ensures view(txt) == jtextOf(m) && err == jtextErr(m)
spec func jsonOf(v any) seq[byte]
spec func jsonErr(v any) error
func Marshal(v) (b, err) trusted
	ensures view(b) == jsonOf(v) && err == jsonErr(v)

# Encoders write the JSON text of each value and a newline; strings can always be encoded.
spec func jsonString(s seq[byte], html bool) seq[byte]
ghost field encoding/json.Encoder.out io.Writer
ghost field encoding/json.Encoder.html bool
func NewEncoder(w) (e) trusted
	ensures e != nil && fresh(e) && e.out == w && e.html
func (*Encoder).SetEscapeHTML(e, on) trusted
	modifies e.html
	ensures e.html == on
func (*Encoder).Encode(e, v) (err) trusted
	requires private(e.out) && tag(v) == type(string)
	modifies e.out.(*bytes.Buffer).content, spare(e.out.(*bytes.Buffer).content)
	ensures err == nil && view(e.out.(*bytes.Buffer).content) == cat(old(view(e.out.(*bytes.Buffer).content)), jsonString(bytes(v.(string)), e.html), one(10))
	ensures extends(e.out.(*bytes.Buffer).content, old(e.out.(*bytes.Buffer).content))

package net
spec func ipText(a net.IP) string
spec func macText(a net.HardwareAddr) string
func (IP).String(ip) (s) trusted
	ensures s == ipText(ip)
func (HardwareAddr).String(a) (s) trusted
	ensures s == macText(a)
spec func netText(n net.IPNet) string
func (*IPNet).String(n) (s) trusted
	ensures s == netText(*n)

package time
func (Time).Format(t, layout) (s) pure
func (Time).IsZero(t) (r) pure
func (Duration).Nanoseconds(d) (r) pure

package strconv
func FormatInt(i, base) (s) pure
func FormatUint(i, base) (s) pure
func FormatFloat(f, fmt, prec, bitSize) (s) pure

package math
func IsNaN(f) (r) pure
	ensures r <==> f != f
func IsInf(f, sign) (r) pure
