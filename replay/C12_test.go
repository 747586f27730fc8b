//verif:pkg replace
package replace

import (
	"fmt"
	"log/slog"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/infra"
)

func TestVerifC12(t *testing.T) {
	v := newVerif()
	for v.more(100000) {
		n := v.R.Intn(12)
		if v.R.Intn(50) == 0 {
			n = v.R.Intn(300)
		}
		kinds := make([]int, n)
		var trace []string
		var fns []infra.AttrFn
		for i := range kinds {
			kinds[i] = v.R.Intn(8)
			if n > 12 && v.R.Intn(40) != 0 {
				kinds[i] = v.R.Intn(4)
			}
			i := i
			fns = append(fns, func(g []string, a slog.Attr) slog.Attr {
				trace = append(trace, fmt.Sprintf("%d:%s:%s", i, strings.Join(g, "/"), a))
				switch kinds[i] {
				case 4:
					return slog.Attr{}
				case 5:
					return slog.Attr{Key: "", Value: slog.StringValue("v")}
				case 6:
					return slog.Attr{Key: "k", Value: slog.Value{}}
				case 7:
					return a
				}
				return slog.Attr{Key: a.Key + "x", Value: slog.StringValue(a.Value.String() + fmt.Sprint(i))}
			})
		}
		a := slog.String("k", "v")
		switch v.R.Intn(4) {
		case 0:
			a = slog.Attr{}
		case 1:
			a = slog.Any("", nil)
		}
		var groups []string
		for v.R.Intn(2) == 0 {
			groups = append(groups, v.pick("g", "h"))
		}
		want, wt := a, []string(nil)
		trace = nil
		for _, f := range fns {
			want = f(groups, want)
			if want.Equal(slog.Attr{}) {
				break
			}
		}
		wt, trace = trace, nil
		m := Multiple(fns...)
		for k := 0; k < 2; k++ {
			trace = nil
			got := m(groups, a)
			if !got.Equal(want) || strings.Join(trace, ";") != strings.Join(wt, ";") {
				v.fail("Multiple", map[string]any{"attr": a.String(), "kinds": kinds, "groups": groups, "got": got.String(), "want": want.String(), "calls": trace, "wantCalls": wt, "use": k})
			}
		}
	}
}
