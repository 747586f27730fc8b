//verif:pkg gin
//verif:alone
package gin

import (
	"fmt"
	"log/slog"
	"strconv"
	"strings"
	"testing"
)

func TestVerifC14(t *testing.T) {
	v := newVerif()
	word := func() string {
		return v.pick("GET", "POST", `"/a"`, `"/chart.svg?x=1&y"`, `"`, `""`, "é", "x\"y", "/", "[", "\x80", "0", "HTTP/1.1")
	}
	sp := func() string { return v.pick("", " ", "  ", "     ") }
	ws := func() string { return v.pick(" ", "\t", "  ", " \t ", "      ", "\n") }
	ows := func() string { return v.pick("", " ", "\t", "  ") }
	code := func() string {
		return v.pick("200", "0", "404", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "+2", "2XX", "", "007", "２", "2 0", "1e3", "0x1", "1_0", "010", "08", "0b1", "0o7", "0_7", "00", "0000000000000000000000200", "abc", "500")
	}
	for v.more(500000) {
		n := 4
		if v.R.Intn(4) == 0 {
			n = v.R.Intn(7)
		}
		var parts []string
		for i := 0; i < n; i++ {
			switch i {
			case 0:
				parts = append(parts, ows()+code()+ows())
			case 1, 2:
				parts = append(parts, sp()+v.pick("1.5s", "9.52ms", "::1", "127.0.0.1", "a b", "", "é", "\"q\"", "\x01")+sp())
			default:
				s := ows()
				for k := v.R.Intn(4); k >= 0; k-- {
					if v.R.Intn(8) == 0 {
						continue
					}
					s += word()
					if k > 0 {
						s += ws()
					}
				}
				parts = append(parts, s+ows())
			}
		}
		line := strings.Join(parts, "|")
		if n == 0 {
			line = v.pick("", "200", "|||", "||||", "200|a|b", "200|a|b|GET /x|", "200|||")
			parts = strings.Split(line, "|")
		}
		got, err := Parse(line)
		// the reference
		var want []any
		ok := len(parts) == 4
		if ok {
			d := strings.Trim(parts[0], " \t\n\r\f")
			for _, c := range d {
				if c < '0' || c > '9' {
					ok = false
				}
			}
			num, e := strconv.ParseInt(d, 10, 64)
			if ok = ok && d != "" && e == nil; ok {
				want = []any{slog.Int64("code", num), slog.String("elapsed", strings.Trim(parts[1], " ")), slog.String("client", strings.Trim(parts[2], " "))}
				if w := strings.Fields(parts[3]); len(w) == 2 {
					want = append(want, slog.String("method", w[0]), slog.String("url", strings.Trim(w[1], `"`)))
				}
			}
		}
		in := map[string]any{"line": fmt.Sprintf("%q", line), "got": fmt.Sprint(got), "error": fmt.Sprint(err), "want": fmt.Sprint(want)}
		if (err == nil) != ok {
			v.fail("success", in)
			continue
		}
		if len(got) != len(want) {
			v.fail("fields", in)
			continue
		}
		for i := range want {
			a, is := got[i].(slog.Attr)
			if !is || !a.Equal(want[i].(slog.Attr)) {
				v.fail("field", in)
			}
		}
	}
}
