//verif:pkg internal/data
//verif:alone
package data

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"
)

func TestVerifC19(t *testing.T) {
	v := newVerif()
	num := func() uint64 {
		switch v.R.Intn(4) {
		case 0:
			return 0
		case 1:
			return uint64(v.R.Intn(100))
		}
		return uint64(v.R.Int63n(1 << 50))
	}
	dec := func() (string, float64) {
		s := fmt.Sprint(v.R.Intn(1000000))
		if v.R.Intn(2) == 0 {
			s += "." + fmt.Sprint(v.R.Intn(1000))
		}
		f, _ := strconv.ParseFloat(s, 64)
		return s, f
	}
	sp := func() string { return v.pick(" ", "\t", "   ", " \t ") }
	hs := []string{"MadkinsFlash", "SlogJSON", "PhsymZerolog", "A", "x9", "Zap_2"}
	ts := []string{"Simple", "KeyValues", "BigGroup", "T1", "zz", "WithAttrsSimple"}
	for v.more(200000) {
		b := NewBenchmarks()
		type pair struct{ h, t string }
		want := map[pair]TestRecord{}
		names := map[HandlerTag]string{}
		var warn []string
		var all []string
		bad := func(what string) { v.fail(what, map[string]any{"parts": all}) }
		for part := 1 + v.R.Intn(2); part > 0; part-- {
			var lines []string
			for n := v.R.Intn(8); n > 0; n-- {
				switch v.R.Intn(6) {
				case 0:
					lines = append(lines, v.pick("goos: linux", "", "PASS", "ok  \tgithub.com/x\t1.2s", "Benchmark", "BenchmarkMadkinsFlash", "-- x"))
				case 1:
					w := v.pick("Warnings for x:", "  12 [Foo] bar", " {\"a\":1}", "", "x")
					lines = append(lines, "# "+w)
					warn = append(warn, w)
				case 2:
					h, n := hs[v.R.Intn(len(hs))], v.pick("slog/JSONHandler", "madkins/flash", "a", "Zz")
					lines = append(lines, `# Handler[`+h+`]="`+n+`"`)
					names[HandlerTag(h)] = n
				default:
					h, tt := hs[v.R.Intn(len(hs))], ts[v.R.Intn(len(ts))]
					var r TestRecord
					r.Runs = num()
					var ns string
					ns, r.NanosPerOp = dec()
					l := fmt.Sprintf("Benchmark%s/Benchmark%s-%d", h, tt, 1+v.R.Intn(64)) + sp() + fmt.Sprint(r.Runs) + sp() + ns + sp() + "ns/op"
					if v.R.Intn(3) > 0 {
						var mb string
						mb, r.MbPerSec = dec()
						l += sp() + mb + sp() + "MB/s"
					}
					if v.R.Intn(3) > 0 {
						r.MemBytesPerOp = num()
						l += sp() + fmt.Sprint(r.MemBytesPerOp) + sp() + "B/op"
						if v.R.Intn(5) > 0 {
							r.MemAllocsPerOp = num()
							l += sp() + fmt.Sprint(r.MemAllocsPerOp) + sp() + "allocs/op"
						}
					}
					r.GbPerSec = r.MbPerSec / 1000
					r.TbPerSec = r.MbPerSec / 1000000
					want[pair{h, tt}] = r
					if _, ok := names[HandlerTag(h)]; !ok {
						names[HandlerTag(h)] = HandlerTag(h).Name()
					}
					lines = append(lines, l)
				}
			}
			text := strings.Join(lines, v.pick("\n", "\r\n"))
			text += v.pick("", "\n")
			all = append(all, text)
			if err := b.ParseBenchmarkData(strings.NewReader(text)); err != nil {
				bad("unexpected error")
				break
			}
			// both views
			n1, n2 := 0, 0
			hset, tset := map[HandlerTag]bool{}, map[TestTag]bool{}
			for p, r := range want {
				tag := TestTag("Bench" + TagSeparator + p.t)
				hset[HandlerTag(p.h)], tset[tag] = true, true
				if g, ok := b.HandlerRecordsFor(tag)[HandlerTag(p.h)]; !ok || g != r {
					bad("record by test")
				}
				g, ok := b.TestRecordsFor(HandlerTag(p.h))[tag]
				if !ok || g != r {
					bad("record by handler")
				}
				for it, f := range map[BenchItems]float64{Runs: float64(r.Runs), Nanos: r.NanosPerOp, MemAllocs: float64(r.MemAllocsPerOp), MemBytes: float64(r.MemBytesPerOp), MbPerSec: r.MbPerSec, GbPerSec: r.GbPerSec, TbPerSec: r.TbPerSec} {
					if g.ItemValue(it) != f {
						bad("item value")
					}
				}
			}
			hl, tl := b.HandlerTags(), b.TestTags()
			for _, h := range hl {
				n1 += len(b.TestRecordsFor(h))
				if !hset[h] || !b.HasHandler(h) {
					bad("handler list")
				}
				if b.HandlerName(h) != names[h] {
					bad("handler name")
				}
			}
			for _, tt := range tl {
				n2 += len(b.HandlerRecordsFor(tt))
				if !tset[tt] || !b.HasTest(tt) {
					bad("test list")
				}
			}
			if len(hl) != len(hset) || len(tl) != len(tset) || n1 != len(want) || n2 != len(want) {
				bad("list lengths")
			}
			if !sort.SliceIsSorted(hl, func(i, j int) bool { return b.HandlerName(hl[i]) < b.HandlerName(hl[j]) }) ||
				!sort.SliceIsSorted(tl, func(i, j int) bool { return b.TestName(tl[i]) < b.TestName(tl[j]) }) {
				bad("list order")
			}
			lk := b.HandlerLookup()
			for h, n := range names {
				found := lk[n] == h
				for h2, n2 := range names {
					if n2 == n && lk[n] == h2 {
						found = true
					}
				}
				if !found {
					bad("handler lookup")
				}
			}
			var w []string
			for i, x := range warn {
				if x == "" && len(w) == 0 && i == 0 {
				}
				w = append(w, x)
			}
			// Empty warning lines in front leave no separator.
			s := ""
			for _, x := range w {
				if s != "" {
					s += "\n"
				}
				s += x
			}
			if string(b.WarningText()) != s || b.HasWarningText() != (s != "") {
				bad("warning text")
			}
		}
	}
}
