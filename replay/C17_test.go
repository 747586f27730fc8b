//verif:pkg infra/warning
//verif:alone
package warning

import (
	"fmt"
	"io"
	"log/slog"
	"sort"
	"strings"
	"testing"
)

func TestVerifC17(t *testing.T) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	v := newVerif()
	type def struct {
		w     *Warning
		level Level
		name  string
		sum   string
	}
	model := map[string]*def{}
	for l := Level(0); l < 8; l++ {
		for _, w := range WarningsForLevel(l) {
			model[w.Name] = &def{w, w.Level, w.Name, w.Summary}
		}
	}
	var trace []string
	check := func(l Level) {
		got := WarningsForLevel(l)
		if v.R.Intn(2) == 0 {
			got = l.Warnings()
		}
		var want []string
		for n, d := range model {
			if d.level == l {
				want = append(want, n)
			}
		}
		sort.Strings(want)
		var have []string
		for _, w := range got {
			if w == nil || model[w.Name] == nil || model[w.Name].w != w || w.Level != l {
				v.fail("WarningsForLevel", map[string]any{"history": trace, "level": l, "stranger": fmt.Sprintf("%+v", w)})
				return
			}
			have = append(have, w.Name)
		}
		if strings.Join(have, "|") != strings.Join(want, "|") {
			v.fail("WarningsForLevel", map[string]any{"history": trace, "level": l, "got": have, "want": want})
		}
	}
	for _, l := range LevelOrder {
		check(l)
	}
	n := 0
	for v.more(3000) {
		switch v.R.Intn(4) {
		case 0, 1:
			level := Level(v.R.Intn(6))
			name := fmt.Sprintf("%s%d", v.pick("N", "n", "A", "", "N ", "é"), n)
			if v.R.Intn(3) == 0 {
				for k := range model { // an existing one
					name = k
					break
				}
			}
			n++
			sum := fmt.Sprint("sum", v.R.Intn(3))
			w := NewWarning(level, name, sum, v.pick("", "text ^x^", "\n\t\ta\n\t\t b\n"))
			if v.R.Intn(8) == 0 || len(trace) == 0 {
				trace = append(trace, fmt.Sprintf("NewWarning(%d, %q)", level, name))
			}
			old := model[name]
			if old == nil {
				model[name] = &def{w, level, name, sum}
			} else if w != old.w {
				v.fail("NewWarning", map[string]any{"history": trace, "name": name, "got": fmt.Sprintf("%+v", w)})
			}
			d := model[name]
			if w == nil || w.Level != d.level || w.Name != d.name || w.Summary != d.sum {
				v.fail("NewWarning", map[string]any{"history": trace, "name": name, "got": fmt.Sprintf("%+v", w), "want": fmt.Sprintf("%+v", *d)})
			}
		case 2:
			name := v.pick("nope", "N", Unused.Name, MessageKey.Name, strings.ToLower(MessageKey.Name))
			for k := range model {
				if v.R.Intn(2) == 0 {
					name = k
				}
				break
			}
			w := ByName(name)
			if d := model[name]; d == nil && w != nil || d != nil && d.w != w {
				v.fail("ByName", map[string]any{"history": trace, "name": name, "got": fmt.Sprintf("%+v", w)})
			}
		case 3:
			check(Level(v.R.Intn(6)))
		}
		l := LevelOrder[v.R.Intn(4)]
		s := []byte(l.String())
		for i := range s {
			if v.R.Intn(2) == 0 {
				s[i] = strings.ToUpper(string(s[i]))[0]
			} else if v.R.Intn(2) == 0 {
				s[i] = strings.ToLower(string(s[i]))[0]
			}
		}
		if p, err := ParseLevel(string(s)); err != nil || p != l {
			v.fail("ParseLevel", map[string]any{"text": string(s), "got": int(p), "error": fmt.Sprint(err)})
		}
		bad := v.pick("", "Unknown", " required", "required ", "Unknown level 0", "adminx", "re", "Unknown level 7", "level", "unused")
		if _, err := ParseLevel(bad); err == nil {
			v.fail("ParseLevel", map[string]any{"text": bad, "error": "none"})
		}
		seen := map[string]Level{}
		for l := Level(0); l < 8; l++ {
			if o, dup := seen[l.String()]; dup {
				v.fail("Level.String", map[string]any{"levels": []int{int(o), int(l)}})
			}
			seen[l.String()] = l
		}
	}
}
