//verif:pkg bench/tests
//verif:alone
package tests

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"io"
	"log/slog"
	"sort"
	"strings"
	"testing"

	vjson "github.com/madkins23/go-slog/internal/json"
	"github.com/madkins23/go-slog/infra/warning"
)

func TestVerifC18(t *testing.T) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	v := newVerif()
	sp := func() string { return v.pick("", "", "", " ", "\n", "\t", "  ") }
	str := func() string {
		s := ""
		for n := v.R.Intn(4); n > 0; n-- {
			s += v.pick("a", "b", "key", "{", "}", "[", "]", ",", ":", `\"`, `\\`, `\u0061`, `\n`, `\/`, `/`, "é", `\u00e9`, "😀", `\ud83d\ude00`, "fields", " ", `\u0022`, `\t`, "'", "time")
		}
		return `"` + s + `"`
	}
	var value func(d int) string
	key := func() string {
		return v.pick(`"a"`, `"b"`, `"\u0061"`, `"fields"`, `"Fields"`, `"x y"`, `"time"`, `"level"`, `""`, str(), str())
	}
	object := func(d int) string {
		var b strings.Builder
		b.WriteString("{" + sp())
		for i, n := 0, v.R.Intn(5); i < n; i++ {
			if i > 0 {
				b.WriteString("," + sp())
			}
			b.WriteString(key() + sp() + ":" + sp() + value(d-1) + sp())
		}
		b.WriteString("}")
		return b.String()
	}
	value = func(d int) string {
		n := v.R.Intn(10)
		if d <= 0 && n >= 7 {
			n = v.R.Intn(7)
		}
		switch n {
		case 0:
			return v.pick("true", "false", "null")
		case 1, 2:
			return v.pick("0", "-1", "1.5", "-0.25e-7", "1E+20", "12345678901234567890", "1e5", "3.0E2", "-0")
		case 7:
			s := "[" + sp()
			for i, n := 0, v.R.Intn(4); i < n; i++ {
				if i > 0 {
					s += sp() + "," + sp()
				}
				s += value(d - 1)
			}
			return s + sp() + "]"
		case 8, 9:
			return object(d)
		}
		return str()
	}
	for v.more(300000) {
		text := sp() + object(3) + sp()
		if !stdjson.Valid([]byte(text)) {
			continue
		}
		// the reference: names at the top level, those of an Apex fields object instead of its name
		want := map[string]uint{}
		var walk func(d *stdjson.Decoder, depth int, count, top bool) error
		skip := func(d *stdjson.Decoder) (string, error) { return "", nil }
		_ = skip
		walk = func(d *stdjson.Decoder, depth int, count, top bool) error {
			tok, err := d.Token()
			if err != nil {
				return err
			}
			del, is := tok.(stdjson.Delim)
			if !is {
				return nil
			}
			for d.More() {
				inCount := false
				if del == '{' {
					k, err := d.Token()
					if err != nil {
						return err
					}
					if count {
						name := k.(string)
						rest, _ := io.ReadAll(d.Buffered())
						r := strings.TrimLeft(string(rest), " \t\r\n:")
						if top && name == "fields" && strings.HasPrefix(r, "{") {
							inCount = true
						} else {
							want[name]++
						}
					}
				}
				if err := walk(d, depth+1, inCount, false); err != nil {
					return err
				}
			}
			_, err = d.Token()
			return err
		}
		if err := walk(stdjson.NewDecoder(strings.NewReader(text)), 0, true, true); err != nil {
			continue
		}
		c := vjson.NewFieldCounter([]byte(text))
		in := map[string]any{"text": text, "want": fmt.Sprintf("%q", fmt.Sprint(want))}
		if err := c.Parse(); err != nil {
			in["error"] = err.Error()
			v.fail("Parse", in)
			continue
		}
		if v.R.Intn(4) == 0 {
			_ = c.String()
		}
		dups := map[string]uint{}
		var names []string
		for n, k := range want {
			names = append(names, n)
			if k > 1 {
				dups[n] = k
			}
		}
		sort.Strings(names)
		got := c.Duplicates()
		in["duplicates"] = fmt.Sprintf("%q", fmt.Sprint(got))
		if fmt.Sprint(got) != fmt.Sprint(dups) {
			v.fail("Duplicates", in)
		}
		if g := c.Fields(); len(g) != len(names) || strings.Join(g, "\x00") != strings.Join(names, "\x00") {
			in["fields"] = g
			v.fail("Fields", in)
		}
		if int(c.NumFields()) != len(names) {
			v.fail("NumFields", in)
		}
		// the benchmark check
		if v.N%5 == 0 {
			m := NewWarningManager("verif")
			err := noDuplicates("verif")([]byte(text), nil, m)
			if err == nil && len(dups) > 0 {
				v.fail("[bench-noDuplicates] duplicates not reported", in)
				v.fails = 0
				continue
			}
			if err != nil && len(dups) == 0 {
				in["error"] = fmt.Sprint(err)
				v.fail("noDuplicates", in)
			}
			var buf bytes.Buffer
			_ = buf
			found := false
			for _, w := range m.GetWarnings() {
				if w.Name == warning.Duplicates.Name {
					found = true
				}
			}
			if found != (len(dups) > 0) {
				v.fail("duplicate warning", in)
			}
		}
	}
}
