//verif:pkg handlers
//verif:with hmodel.go.txt
package handlers

import (
	"context"
	"fmt"
	"log/slog"
	"runtime"
	"testing"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
)

func TestVerifC06(t *testing.T) { fidelityHarness(hSloggy) }

func fidelityHarness(which string) {
	v := newVerif()
	g := &hGen{v: v}
	slog.SetDefault(slog.New(slog.NewTextHandler(&hWriter{}, nil)))
	for v.more(400000) {
		g.plain = v.R.Intn(2) == 0
		o := &slog.HandlerOptions{AddSource: v.R.Intn(3) == 0}
		var x *flash.Extras
		tf, tk, lk, mk, sk := time.RFC3339Nano, "time", "level", "msg", "source"
		names := map[slog.Level]string{}
		set := func(p *string, d *string, s string) {
			if v.R.Intn(2) == 0 && s != "" {
				*p, *d = s, s
			}
		}
		if which == hFlash && v.R.Intn(3) == 0 {
			x = &flash.Extras{}
			set(&x.TimeFormat, &tf, v.pick(time.DateOnly, time.Kitchen, "02/01/06 \"x\""))
			set(&x.TimeKey, &tk, g.str())
			set(&x.LevelKey, &lk, g.str())
			set(&x.MessageKey, &mk, g.str())
			set(&x.SourceKey, &sk, g.str())
			if v.R.Intn(2) == 0 {
				x.LevelNames = map[slog.Level]string{slog.Level(v.R.Intn(16) - 6): "L" + g.str(), 0: g.str()}
				for l, n := range x.LevelNames {
					names[l] = n
				}
			}
		}
		var w hWriter
		h := hNew(which, &w, o, x)
		ops := g.ops(5)
		h = hDerive(h, ops)
		for k := v.R.Intn(3); k >= 0; k-- {
			var pc uintptr
			if v.R.Intn(2) == 0 {
				var pcs [1]uintptr
				runtime.Callers(1, pcs[:])
				pc = pcs[0]
			}
			r := g.record(pc)
			err := h.Handle(context.Background(), r)
			out := w.take()
			if err != nil {
				v.fail("error", hInput(which, ops, r, out, err.Error()))
				continue
			}
			n, why := hLine(out)
			if why != "" {
				v.fail("malformed line", hInput(which, ops, r, out, why))
				continue
			}
			var want []*hNode
			if !r.Time.IsZero() {
				want = append(want, &hNode{key: tk, val: slog.TimeValue(r.Time)})
			}
			name := names[r.Level]
			if name == "" {
				name = r.Level.String()
			}
			want = append(want, &hNode{key: lk, val: slog.StringValue(name)}, &hNode{key: mk, val: slog.StringValue(r.Message)})
			if o.AddSource && pc != 0 {
				f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
				i := len(want)
				if i >= len(n.kids) || hNorm(n.kids[i].key) != hNorm(sk) || n.kids[i].kind != '{' {
					v.fail("source", hInput(which, ops, r, out, "no source object"))
					continue
				}
				m := map[string]string{}
				for _, c := range n.kids[i].kids {
					m[c.key] = c.text
				}
				if len(m) != 3 || m["function"] != f.Function || m["file"] != f.File || m["line"] != fmt.Sprint(f.Line) {
					v.fail("source", hInput(which, ops, r, out, fmt.Sprint(m)))
				}
				n.kids = append(append([]*jNode{}, n.kids[:i]...), n.kids[i+1:]...)
			}
			want = append(want, hContext(ops, hAttrs(r), nil)...)
			if why := hSame(want, n.kids, tf, ""); why != "" {
				v.fail("attributes", hInput(which, ops, r, out, why))
			}
		}
	}
}
