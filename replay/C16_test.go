//verif:pkg infra/warning
package warning

import (
	"flag"
	"fmt"
	"io"
	"log/slog"
	"testing"
)

func TestVerifC16(t *testing.T) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	v := newVerif()
	use := true
	defer flag.Set("useWarnings", "true")
	pool := []*Warning{MessageKey, Duplicates, SourceKey, SkippingTest, Undefined, LevelCase,
		{Level: LevelImplied, Name: "X", Summary: "x"}, {Level: LevelAdmin, Name: "Y", Summary: "y"},
		{Level: LevelRequired, Name: "X", Summary: "x again"}, {Level: LevelAdmin, Name: "", Summary: ""},
		{Level: LevelAdmin, Name: "x", Summary: "y"}, {Level: LevelRequired, Name: "Z", Summary: ""}}
	for v.more(200000) {
		mgr := NewWarningManager("m", v.pick("Test", ""), "")
		var trace []string
		on := map[string]bool{}
		defined := map[string]bool{}
		for _, w := range Administrative() {
			defined[w.Name] = true
		}
		counts := map[string]int{}
		use = v.R.Intn(4) != 0
		flag.Set("useWarnings", fmt.Sprint(use))
		some := func() []*Warning {
			var ws []*Warning
			for n := v.R.Intn(6); n > 0; n-- {
				ws = append(ws, pool[v.R.Intn(len(pool))])
			}
			return ws
		}
		text := func(ws []*Warning) (s []string) {
			for _, w := range ws {
				s = append(s, fmt.Sprintf("%s/%s", w.Name, w.Summary))
			}
			return
		}
		for n := v.R.Intn(12); n >= 0; n-- {
			switch v.R.Intn(5) {
			case 0:
				w := pool[v.R.Intn(len(pool))]
				trace = append(trace, fmt.Sprintf("WarnOnly(%q)", w.Name))
				mgr.WarnOnly(w)
				on[w.Name] = true
				if !defined[w.Name] {
					counts[Undefined.Name]++
				}
			case 1:
				ws := some()
				trace = append(trace, fmt.Sprintf("Predefine(%v)", text(ws)))
				mgr.Predefine(ws...)
				for _, w := range ws {
					defined[w.Name] = true
				}
			case 2:
				w := pool[v.R.Intn(len(pool))]
				if got, want := mgr.HasWarning(w), use && on[w.Name]; got != want {
					v.fail("HasWarning", map[string]any{"history": trace, "useWarnings": use, "asked": w.Name, "got": got, "want": want})
				}
			case 3:
				ws := some()
				var want []*Warning
				for _, w := range ws {
					if use && on[w.Name] {
						want = append(want, w)
					}
				}
				asked := append([]*Warning(nil), ws...)
				got := mgr.HasWarnings(ws...)
				ok := len(got) == len(want) && got != nil
				for i := range want {
					ok = ok && got[i] == want[i]
				}
				for i := range ws {
					ok = ok && ws[i] == asked[i]
				}
				if !ok {
					v.fail("HasWarnings", map[string]any{"history": trace, "useWarnings": use, "asked": text(asked), "got": text(got), "want": text(want)})
				}
			case 4:
				ws := some()
				var cause *Warning
				for _, w := range ws {
					if on[w.Name] {
						cause = w
						break
					}
				}
				trace = append(trace, fmt.Sprintf("SkipTestIf(%v)", text(ws)))
				got := mgr.SkipTestIf(ws...)
				if got != (cause != nil) {
					v.fail("SkipTestIf", map[string]any{"history": trace, "useWarnings": use, "got": got})
					break
				}
				if cause != nil {
					counts[SkippingTest.Name]++
					counts[cause.Name]++
					recorded := byNameOf(mgr)
					skip, why := recorded[SkippingTest.Name], recorded[cause.Name]
					ok := skip != nil && why != nil
					if ok {
						s, w := skip.Data[len(skip.Data)-1], why.Data[len(why.Data)-1]
						if SkippingTest.Name == cause.Name {
							ok = len(skip.Data) >= 2 && skip.Data[len(skip.Data)-2].Text == cause.Summary && w.Text == SkippingTest.Summary
						} else {
							ok = s.Text == cause.Summary && w.Text == SkippingTest.Summary
						}
					}
					if !ok {
						v.fail("SkipTestIf records", map[string]any{"history": trace})
					}
				}
			}
		}
		recorded := byNameOf(mgr)
		for n, c := range counts {
			if r := recorded[n]; r == nil || int(r.Count) != c || len(r.Data) != c {
				v.fail("recorded counts", map[string]any{"history": trace, "warning": n, "want": c, "got": fmt.Sprintf("%+v", r)})
			}
		}
		for n := range recorded {
			if counts[n] == 0 {
				v.fail("recorded counts", map[string]any{"history": trace, "warning": n, "want": 0})
			}
		}
	}
}

func byNameOf(mgr *Manager) map[string]*Instances {
	m := map[string]*Instances{}
	for _, i := range mgr.GetWarnings() {
		m[i.Name] = i
	}
	return m
}
