//verif:pkg replace
package replace

import (
	"log/slog"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/infra"
)

func TestVerifC11(t *testing.T) {
	v := newVerif()
	keys := []string{"", "a", "A", "level", "Level", "LEVEL", "msg", "ſ", "s", "K", "k", "levels", "leve", "é", "É", "ß"}
	vals := []slog.Value{{}, slog.StringValue("aBc"), slog.StringValue(""), slog.IntValue(3), slog.StringValue("éß"), slog.GroupValue(slog.String("x", "Y")), slog.BoolValue(true), slog.GroupValue(),
		slog.AnyValue(nil), slog.AnyValue([]int{1})}
	stacks := [][]string{nil, {}, {"g"}, {"g", "h"}, {"h", "g"}, {""}, {"h"}, {"g", "h", "i"}, {"h", "h"}}
	same := func(a, b slog.Attr) bool { return a.Key == b.Key && a.Value.Kind() == b.Value.Kind() && a.Value.String() == b.Value.String() }
	for v.more(200000) {
		key := keys[v.R.Intn(len(keys))]
		a := slog.Attr{Key: keys[v.R.Intn(len(keys))], Value: vals[v.R.Intn(len(vals))]}
		if v.R.Intn(2) == 0 {
			a.Key = key
		}
		g := stacks[v.R.Intn(len(stacks))]
		fold := v.R.Intn(2) == 0
		var chk GroupCheckFn
		ck := v.R.Intn(5)
		want := true
		name := v.pick("g", "h", "", "i")
		switch ck {
		case 1:
			chk, want = TopCheck, len(g) == 0
		case 2:
			chk, want = Current(name), len(g) > 0 && g[len(g)-1] == name
		case 3:
			chk = func(gs []string) bool { return len(gs) == 2 }
			want = len(g) == 2
		case 4:
			chk, want = func([]string) bool { return false }, false
		}
		in := map[string]any{"key": key, "attr": a.String(), "kind": a.Value.Kind().String(), "groups": g, "fold": fold, "check": ck, "current": name}
		if ck == 1 || ck == 2 {
			if chk(g) != want {
				v.fail("group check", in)
			}
		}
		m := (fold && strings.EqualFold(a.Key, key) || !fold && a.Key == key) && want
		try := func(what string, f infra.AttrFn, exp slog.Attr) {
			g0 := append([]string(nil), g...)
			r := f(g, a)
			if !m {
				exp = a
			}
			if !same(r, exp) {
				in["got"], in["want"] = r.String(), exp.String()
				v.fail(what, in)
			}
			for i := range g0 {
				if g0[i] != g[i] {
					v.fail(what+" changed the groups", in)
				}
			}
			if r2 := f(g, a); !same(r2, exp) {
				v.fail(what+" second call", in)
			}
		}
		to := keys[v.R.Intn(len(keys))]
		nv := vals[v.R.Intn(len(vals))]
		try("ChangeKey", ChangeKey(key, to, fold, chk), slog.Attr{Key: to, Value: a.Value})
		try("ChangeValue", ChangeValue(key, SetValueTo(nv), fold, chk), slog.Attr{Key: a.Key, Value: nv})
		try("ChangeValue fn", ChangeValue(key, func(x slog.Value) slog.Value { return slog.StringValue("<" + x.String() + ">") }, fold, chk),
			slog.Attr{Key: a.Key, Value: slog.StringValue("<" + a.Value.String() + ">")})
		try("RemoveKey", RemoveKey(key, fold, chk), slog.Attr{})
		try("ChangeCase lower", ChangeCase(key, CaseLower, fold, chk), slog.Attr{Key: a.Key, Value: slog.StringValue(strings.ToLower(a.Value.String()))})
		try("ChangeCase upper", ChangeCase(key, CaseUpper, fold, chk), slog.Attr{Key: a.Key, Value: slog.StringValue(strings.ToUpper(a.Value.String()))})
		try("ChangeCase none", ChangeCase(key, CaseNone, fold, chk), a)
		if v.N%500 == 0 {
			old := slog.Default()
			slog.SetDefault(slog.New(slog.NewTextHandler(discard{}, nil)))
			try("ChangeCase unknown", ChangeCase(key, ChangeCases(3+v.R.Intn(250)), fold, chk), a)
			slog.SetDefault(old)
		}
	}
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }
