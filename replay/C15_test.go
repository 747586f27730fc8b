//verif:pkg infra/warning
package warning

import (
	"bytes"
	"fmt"
	"io"
	"log/slog"
	"sort"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/internal/misc"
)

type c15rec struct {
	level   Level
	name    string
	summary string
	data    []Instance
}

func TestVerifC15(t *testing.T) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	v := newVerif()
	names := []string{"A", "B", "C", "a", "AB", "B1", "B2", "Z", "Ab", "é", "", "A B", Unused.Name, SkippingTest.Name, Undefined.Name, Duplicates.Name, MessageKey.Name}
	for v.more(200000) {
		defs := map[string]*Warning{}
		pick := func() *Warning {
			n := names[v.R.Intn(len(names))]
			if v.R.Intn(12) == 0 {
				return &Warning{Level: Level(v.R.Intn(6)), Name: n, Summary: v.pick("other", "")}
			}
			if defs[n] == nil {
				defs[n] = &Warning{Level: Level(1 + v.R.Intn(4)), Name: n, Summary: "sum " + n}
				if v.R.Intn(3) == 0 && ByName(n) != nil {
					defs[n] = ByName(n)
				}
			}
			return defs[n]
		}
		prefix, p := v.pick("Test", "Benchmark", "TestVerif"), v.pick("", "# ")
		mgr := NewWarningManager("mgr", prefix, p)
		here := misc.CurrentFunctionName(prefix)
		predefined := map[string]bool{}
		for _, w := range Administrative() {
			predefined[w.Name] = true
		}
		model := map[string]*c15rec{}
		var trace []string
		add := func(w *Warning, fn, text, rec string) {
			r := model[w.Name]
			if r == nil {
				r = &c15rec{level: w.Level, name: w.Name, summary: w.Summary}
				model[w.Name] = r
			}
			r.data = append(r.data, Instance{Function: fn, Text: text, Record: strings.TrimRight(rec, "\n")})
		}
		check := func(what string) bool {
			bad := func(msg string) bool {
				v.fail(what, map[string]any{"history": trace, "problem": msg})
				return false
			}
			if u := model[Unused.Name]; u != nil {
				var keep []Instance
				for _, i := range u.data {
					if model[i.Text] == nil {
						keep = append(keep, i)
					}
				}
				if u.data = keep; len(keep) == 0 {
					delete(model, Unused.Name)
				}
			}
			var want []*c15rec
			for _, r := range model {
				want = append(want, r)
			}
			sort.Slice(want, func(i, j int) bool {
				if want[i].level != want[j].level {
					return want[i].level > want[j].level
				}
				return want[i].name < want[j].name
			})
			got := mgr.GetWarnings()
			if len(got) != len(want) {
				return bad(fmt.Sprintf("%d warnings reported, want %d", len(got), len(want)))
			}
			for i, w := range want {
				g := got[i]
				if g == nil || g.Name != w.name || g.Level != w.level || g.Summary != w.summary {
					return bad(fmt.Sprintf("report %d is %+v, want %+v", i, g, *w))
				}
				if int(g.Count) != len(w.data) || len(g.Data) != len(w.data) {
					return bad(fmt.Sprintf("%q count %d, %d instances, want %d", g.Name, g.Count, len(g.Data), len(w.data)))
				}
				for j, d := range w.data {
					if g.Data[j] != d {
						return bad(fmt.Sprintf("%q instance %d is %+v, want %+v", g.Name, j, g.Data[j], d))
					}
				}
			}
			return true
		}
		// the text shown, compared line by line
		shown := func() {
			var b, want bytes.Buffer
			mgr.ShowWarnings(&b)
			fmt.Fprintf(&want, "%s\n%sWarnings for mgr:\n", p, p)
			var list []*c15rec
			for _, r := range model {
				list = append(list, r)
			}
			if len(list) == 0 {
				fmt.Fprintf(&want, "%s  None\n", p)
			}
			sort.Slice(list, func(i, j int) bool { return list[i].name < list[j].name })
			for _, l := range []Level{LevelRequired, LevelImplied, LevelSuggested, LevelAdmin} {
				first := true
				for _, r := range list {
					if r.level != l {
						continue
					}
					if first {
						fmt.Fprintf(&want, "%s  %s\n", p, l)
						first = false
					}
					fmt.Fprintf(&want, "%s  %4d [%s] %s\n", p, len(r.data), r.name, r.summary)
					for _, d := range r.data {
						if d.Text != "" {
							fmt.Fprintf(&want, "%s         %s: %s\n", p, d.Function, strings.ReplaceAll(d.Text, "\n", "\n"+p+"           +"))
						} else {
							fmt.Fprintf(&want, "%s         %s\n", p, d.Function)
						}
						if d.Record != "" {
							fmt.Fprintf(&want, "%s           %s\n", p, d.Record)
						}
					}
				}
			}
			if b.String() != want.String() {
				v.fail("ShowWarnings", map[string]any{"history": trace, "got": b.String(), "want": want.String()})
			}
		}
		for n := v.R.Intn(14); n > 0; n-- {
			w := pick()
			fn := v.pick("F", "G", "", "Test X")
			text := v.pick("", "t", "two\nlines", "A", "B", "\n")
			rec := v.pick("", `{"a":1}`, "{\"b\":2}\n", "x\n\n", "\n")
			switch v.R.Intn(9) {
			case 0, 1:
				trace = append(trace, fmt.Sprintf("AddWarningFnText(%q/%d, %q, %q, %q)", w.Name, w.Level, fn, text, rec))
				mgr.AddWarningFnText(w, fn, text, rec)
				add(w, fn, text, rec)
			case 2:
				trace = append(trace, fmt.Sprintf("AddWarningFn(%q/%d, %q, %q)", w.Name, w.Level, fn, rec))
				mgr.AddWarningFn(w, fn, rec)
				add(w, fn, "", rec)
			case 3:
				trace = append(trace, fmt.Sprintf("AddWarning(%q/%d, %q, %q)", w.Name, w.Level, text, rec))
				mgr.AddWarning(w, text, rec)
				add(w, here, text, rec)
			case 4, 5:
				trace = append(trace, fmt.Sprintf("AddUnused(%q/%d, %q)", w.Name, w.Level, rec))
				mgr.AddUnused(w, rec)
				add(Unused, here, w.Name, rec)
			case 6:
				trace = append(trace, fmt.Sprintf("SkipTest(%q/%d)", w.Name, w.Level))
				mgr.SkipTest(w)
				add(SkippingTest, here, w.Summary, "")
				add(w, here, SkippingTest.Summary, "")
			case 7:
				trace = append(trace, fmt.Sprintf("WarnOnly(%q/%d)", w.Name, w.Level))
				known := predefined[w.Name]
				mgr.WarnOnly(w)
				if !known {
					add(Undefined, here, w.Summary, "")
				}
			case 8:
				trace = append(trace, "GetWarnings()")
				check("GetWarnings")
			}
		}
		trace = append(trace, "report")
		if check("GetWarnings") && check("GetWarnings again") {
			if v.R.Intn(4) == 0 {
				shown()
			}
		}
	}
}
