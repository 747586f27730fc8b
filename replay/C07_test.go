//verif:pkg handlers
//verif:with hmodel.go.txt
package handlers

import (
	"context"
	"fmt"
	"hash/fnv"
	"log/slog"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"
)

func TestVerifC07(t *testing.T) {
	v := newVerif()
	g := &hGen{v: v}
	slog.SetDefault(slog.New(slog.NewTextHandler(&hWriter{}, nil)))
	for v.more(400000) {
		which := v.pick(hFlash, hSloggy)
		g.plain = v.R.Intn(3) != 0
		mode := v.R.Intn(8)
		salt := v.R.Intn(1000)
		f := func(groups []string, a slog.Attr) slog.Attr {
			if hEmpty(a) || strings.HasPrefix(a.Key, "~") {
				return a
			}
			hash := fnv.New32()
			fmt.Fprint(hash, salt, groups, a.Key, a.Value.Kind())
			n := int(hash.Sum32()>>8) % 12
			switch {
			case mode == 0:
				return a
			case mode == 1 && (n < 9):
				return slog.Attr{}
			case mode == 2:
				return slog.String(a.Key, fmt.Sprintf("%q", groups))
			case mode == 3:
				return slog.Attr{}
			}
			switch n {
			case 0:
				return slog.Attr{}
			case 1:
				return slog.Attr{Key: a.Key + "+", Value: a.Value}
			case 2:
				return slog.Int(a.Key, n)
			case 3:
				return slog.Any(a.Key, hValuer{slog.StringValue("resolved")})
			case 4:
				return slog.Group("~"+a.Key, slog.Int("~one", 1), slog.String("~two", "2"))
			case 5:
				return slog.Attr{Key: "", Value: slog.GroupValue(slog.Int("~in", 1))}
			case 6:
				return slog.Any(a.Key, hStringer{"str"})
			case 7:
				return slog.Any("v"+a.Key, hValuer{slog.GroupValue(slog.Int("~x", 1))})
			}
			return a
		}
		seen := &hReplace{f: f}
		o := &slog.HandlerOptions{AddSource: v.R.Intn(3) == 0, ReplaceAttr: seen.fn}
		var w hWriter
		h := hNew(which, &w, o, nil)
		ops := g.ops(5)
		h = hDerive(h, ops)
		derived := append([]string{}, seen.calls...)
		for k := v.R.Intn(2); k >= 0; k-- {
			seen.calls = append([]string{}, derived...)
			var pc uintptr
			if v.R.Intn(2) == 0 {
				var pcs [1]uintptr
				runtime.Callers(1, pcs[:])
				pc = pcs[0]
			}
			r := g.record(pc)
			err := h.Handle(context.Background(), r)
			out := w.take()
			if err != nil {
				v.fail("error", hInput(which, ops, r, out, err.Error()))
				continue
			}
			n, why := hLine(out)
			if why != "" {
				v.fail("malformed line", hInput(which, ops, r, out, why))
				continue
			}
			// the model
			rep := &hReplace{f: f}
			var basic []slog.Attr
			if !r.Time.IsZero() {
				basic = append(basic, slog.Time("time", r.Time))
			}
			basic = append(basic, slog.String("level", r.Level.String()), slog.String("msg", r.Message))
			want := hExpandAll(basic, nil, rep)
			srcAt := len(want)
			source := o.AddSource && pc != 0
			var calls []string
			drop := ""
			if source {
				// the source value is of the handler's own making: take its call from the log
				for _, c := range seen.calls {
					if strings.HasPrefix(c, `[] "source" Any `) && strings.Contains(c, "zz_verif") {
						drop = c
					}
				}
				if drop == "" {
					v.fail("source not replaced", hInput(which, ops, r, out, fmt.Sprint(seen.calls)))
					continue
				}
				src := hExpand(slog.Any("source", map[string]any{"a": 1}), nil, &hReplace{f: f})
				if len(src) > 0 {
					same := len(src) == 1 && !src[0].group && src[0].val.Kind() == slog.KindAny
					if _, str := src[0].val.Any().(hStringer); same && !str {
						// replaced by itself or under another key: compare the key only
						if srcAt >= len(n.kids) || hNorm(n.kids[srcAt].key) != hNorm(src[0].key) || n.kids[srcAt].kind != '{' {
							v.fail("source", hInput(which, ops, r, out, "source member"))
							continue
						}
						n.kids = append(append([]*jNode{}, n.kids[:srcAt]...), n.kids[srcAt+1:]...)
					} else {
						want = append(want, src...)
					}
				}
			}
			want = append(want, hContext(ops, hAttrs(r), rep)...)
			calls = append(calls, rep.calls...)
			if drop != "" {
				calls = append(calls, drop)
			}
			got := append([]string{}, seen.calls...)
			sort.Strings(calls)
			sort.Strings(got)
			if a, b := strings.Join(got, "\n"), strings.Join(calls, "\n"); a != b {
				in := hInput(which, ops, r, out, "calls")
				in["calls"], in["want"] = a, b
				v.fail("calls", in)
			}
			jPrune(n)
			root := &hNode{group: true, kids: want}
			if why := hSame(hPrune(root).kids, n.kids, time.RFC3339Nano, ""); why != "" {
				v.fail("output", hInput(which, ops, r, out, why+fmt.Sprintf(" (mode %d salt %d)", mode, salt)))
			}
		}
	}
}
