//verif:pkg internal/data
//verif:alone
package data

import (
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/infra/warning"
)

func TestVerifC20(t *testing.T) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	v := newVerif()
	type inst struct {
		h       HandlerTag
		t       TestTag
		l       warning.Level
		w, x, r string
	}
	pretty := func(r string) string {
		var m map[string]any
		if json.Unmarshal([]byte(r), &m) == nil {
			b, _ := json.MarshalIndent(m, "", "\t")
			return string(b)
		}
		return r
	}
	lookup := map[string]HandlerTag{"slog/JSONHandler": "SlogJSON", "madkins/flash": "MadkinsFlash"}
	for v.more(200000) {
		w := NewWarnings()
		var all []string
		var cur any = &all
		func() {
			defer func() {
				if r := recover(); r != nil {
					v.fail("panic: "+fmt.Sprint(r), cur)
				}
			}()
			if v.R.Intn(3) == 0 {
				// any text at all
				var b strings.Builder
				for n := v.R.Intn(12); n > 0; n-- {
					b.WriteString(v.pick("#", "# ", "", " ") + v.pick("Warnings for a/b:", "Warnings for slog/JSONHandler:", "Warnings for  :", "Warnings for :", "Required", "Implied", "implied", "Nothing",
						"  12 [Foo] bar baz", "1 []", "TestX", "TestX: why", "Test: ", "TestBenchmark_", "Benchmark", "+more", "+", `{"a":1}`, `{bad`, "{", "None", ":[ slog/JSONHandler", ":: text", ":> a --> b", ":]", ":]", " Handlers by warning:", "", "  ", "x y z", "\x00\xff", "[", "]") + "\n")
				}
				all = append(all, b.String())
				for n := 1 + v.R.Intn(2); n > 0; n-- {
					lk := lookup
					if v.R.Intn(2) == 0 {
						lk = nil
					}
					_ = w.ParseWarningData(strings.NewReader(b.String()), v.pick("", "Bench"), lk)
				}
				for _, h := range w.HandlerTags() {
					for _, l := range w.ForHandler(h).Levels() {
						for _, x := range l.Warnings() {
							for _, i := range x.Instances() {
								_ = i.Log()
							}
						}
					}
				}
				_ = w.HandlerWarningCount("a", warning.Duplicates)
				return
			}
			// outputs as the warning manager prints them
			var want []inst
			for part := 1 + v.R.Intn(2); part > 0; part-- {
				source := v.pick("", "Bench", "Verify")
				mark := v.pick("", "# ")
				var b strings.Builder
				if v.R.Intn(2) == 0 {
					b.WriteString("=== RUN   TestVerify\n--- PASS: TestVerify\n\n")
				}
				for s := v.R.Intn(4); s > 0; s-- {
					name := v.pick("slog/JSONHandler", "madkins/flash", "other/handler", "zap")
					tag, ok := lookup[name]
					if !ok {
						tag = HandlerTag(name)
					}
					if v.R.Intn(4) == 0 {
						b.WriteString(mark + ":[ " + name + "\n")
						b.WriteString(":: text\n:> a --> b\n:]\n")
					}
					b.WriteString(mark + "\n" + mark + "Warnings for " + name + ":\n")
					any := false
					for _, l := range warning.LevelOrder {
						if v.R.Intn(2) == 0 {
							continue
						}
						any = true
						b.WriteString(mark + "  " + l.String() + "\n")
						for _, wn := range []string{"Alpha", "Beta", "Gamma"} {
							if v.R.Intn(2) == 0 {
								continue
							}
							b.WriteString(fmt.Sprintf("%s  %4d [%s] some summary\n", mark, 1, wn))
							for n := 1 + v.R.Intn(3); n > 0; n-- {
								fn := v.pick("Simple", "AttrEmpty", "KeyCase", "TestLike2")
								in := inst{h: tag, l: l, w: wn, t: TestTag(fn)}
								if source != "" {
									in.t = TestTag(source + TagSeparator + fn)
								}
								in.x = v.pick("", "", "why", "a: b (c)", "one\ntwo", "one\ntwo words\nthree")
								in.r = v.pick("", "", `{"a":1,"b":{"c":"d"}}`, `{broken "x"`, `{}`)
								p := v.pick("Test", "Benchmark", "Test_", "Benchmark_", "")
								if fn == "TestLike2" {
									in.t = TestTag(strings.Replace(string(in.t), "TestLike2", "Like2", 1))
								}
								l := mark + "         " + p + fn
								if in.x != "" {
									l += ": " + strings.Join(strings.Split(in.x, "\n"), "\n"+mark+"           +")
								}
								b.WriteString(l + "\n")
								if in.r != "" {
									b.WriteString(mark + "           " + in.r + "\n")
								}
								want = append(want, in)
							}
						}
					}
					if !any {
						b.WriteString(mark + "  None\n")
					}
				}
				if v.R.Intn(2) == 0 {
					b.WriteString(mark + "\n" + mark + " Handlers by warning:\n  Required\n    [Alpha] x\n      other/handler\n")
				}
				all = append(all, source+"|"+b.String())
				if err := w.ParseWarningData(strings.NewReader(b.String()), source, lookup); err != nil {
					v.fail("error", all)
				}
				// views
				got := map[inst]int{}
				for _, x := range want {
					got[x]++
				}
				cnt := map[string]uint{}
				for _, x := range want {
					cnt[x.w+"\x00"+string(x.h)]++
				}
				total := 0
				for _, h := range w.HandlerTags() {
					lv := w.ForHandler(h)
					for _, l := range lv.Levels() {
						for _, wn := range l.Warnings() {
							for _, i := range wn.Instances() {
								total++
								tt := TestTag(i.Tag())
								if i.Source() != "" {
									tt = TestTag(i.Source() + TagSeparator + i.Tag())
								}
								found := false
								for k, n := range got {
									if n > 0 && k.h == h && k.t == tt && k.l == l.Level && k.w == wn.Name() && k.x == i.Extra() && pretty(k.r) == i.Log() && k.r == i.Line() {
										got[k]--
										found = true
										break
									}
								}
								if !found {
									v.fail("instance by handler", all)
								}
							}
						}
					}
				}
				if total != len(want) {
					v.fail("number of instances by handler", all)
				}
				got = map[inst]int{}
				for _, x := range want {
					got[x]++
				}
				total = 0
				for _, tt := range w.TestTags() {
					for _, l := range w.ForTest(tt).Levels() {
						for _, wn := range l.Warnings() {
							for _, i := range wn.Instances() {
								total++
								found := false
								for k, n := range got {
									if n > 0 && k.h.Name() == i.Name() && k.t == tt && k.l == l.Level && k.w == wn.Name() && k.x == i.Extra() && pretty(k.r) == i.Log() {
										got[k]--
										found = true
										break
									}
								}
								if !found {
									v.fail("instance by test", all)
								}
							}
						}
					}
				}
				if total != len(want) {
					v.fail("number of instances by test", all)
				}
				for _, wn := range []string{"Alpha", "Beta", "Gamma"} {
					hs, ts := map[HandlerTag]bool{}, map[TestTag]bool{}
					for _, x := range want {
						if x.w == wn {
							hs[x.h], ts[x.t] = true, true
						}
					}
					for _, h := range []HandlerTag{"SlogJSON", "MadkinsFlash", "other/handler", "zap"} {
						if w.HandlerWarningCount(h, &warning.Warning{Name: wn}) != cnt[wn+"\x00"+string(h)] {
							v.fail("warning count", all)
						}
					}
					if wd, ok := w.ByWarning[wn]; ok {
						if len(wd.Handlers()) != len(hs) || len(wd.Tests()) != len(ts) {
							v.fail("handlers and tests of a warning", all)
						}
						for _, h := range wd.Handlers() {
							if !hs[h] {
								v.fail("handlers of a warning", all)
							}
						}
						for _, h := range wd.Tests() {
							if !ts[h] {
								v.fail("tests of a warning", all)
							}
						}
					} else if len(hs) > 0 {
						v.fail("warning without data", all)
					}
				}
			}
		}()
	}
}
