//verif:pkg handlers
//verif:with hmodel.go.txt
package handlers

import (
	"context"
	"fmt"
	"log/slog"
	"reflect"
	"runtime"
	"testing"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
)

func TestVerifC10(t *testing.T) {
	v := newVerif()
	g := &hGen{v: v}
	for v.more(300000) {
		which := v.pick(hFlash, hSloggy)
		g.plain = v.R.Intn(2) == 0
		var o *slog.HandlerOptions
		if v.R.Intn(4) != 0 {
			o = &slog.HandlerOptions{AddSource: v.R.Intn(2) == 0}
			switch v.R.Intn(3) {
			case 0:
				o.Level = slog.Level(v.R.Intn(9) - 4)
			case 1:
				o.Level = &slog.LevelVar{}
			}
		}
		var x *flash.Extras
		want := flash.Extras{TimeFormat: time.RFC3339Nano, LevelKey: "level", MessageKey: "msg", SourceKey: "source", TimeKey: "time"}
		if v.R.Intn(4) != 0 {
			x = &flash.Extras{}
			set := func(p, d *string, s string) {
				if *p = ""; v.R.Intn(2) == 0 && s != "" {
					*p, *d = s, s
				}
			}
			set(&x.TimeFormat, &want.TimeFormat, v.pick(time.DateOnly, time.Kitchen, "x"))
			set(&x.TimeKey, &want.TimeKey, g.str())
			set(&x.LevelKey, &want.LevelKey, g.str())
			set(&x.MessageKey, &want.MessageKey, g.str())
			set(&x.SourceKey, &want.SourceKey, g.str())
			if v.R.Intn(2) == 0 {
				x.LevelNames = map[slog.Level]string{}
				for i := v.R.Intn(4); i > 0; i-- {
					x.LevelNames[slog.Level(4*v.R.Intn(5)-8)] = g.str()
				}
			}
		}
		var o0 slog.HandlerOptions
		if o != nil {
			o0 = *o
		}
		var x0 flash.Extras
		names := map[slog.Level]string{}
		if x != nil {
			x0 = *x
			for l, n := range x.LevelNames {
				names[l] = n
			}
		}
		in := map[string]any{"handler": which, "options": fmt.Sprintf("%+v", o0), "nil options": o == nil, "extras": fmt.Sprintf("%+q", x0), "nil extras": x == nil}
		var w hWriter
		h := hNew(which, &w, o, x)
		h2 := hNew(v.pick(hFlash, hSloggy), &hWriter{}, o, x)
		_ = h2
		if v.R.Intn(3) == 0 {
			h = hDerive(h, g.ops(2))
		}
		r := slog.NewRecord(time.Unix(1e9, 5), slog.Level(4*v.R.Intn(5)-8), "hello", 0)
		if v.R.Intn(2) == 0 {
			var pcs [1]uintptr
			runtime.Callers(1, pcs[:])
			r.PC = pcs[0]
		}
		_ = h.Enabled(context.Background(), r.Level)
		err := h.Handle(context.Background(), r)
		if o != nil && (o.Level != o0.Level || o.AddSource != o0.AddSource || o.ReplaceAttr != nil) {
			in["after"] = fmt.Sprintf("%+v", *o)
			v.fail("options modified", in)
		}
		if x != nil {
			a, b := *x, x0
			a.LevelNames, b.LevelNames = nil, nil
			same := reflect.DeepEqual(a, b) && (x.LevelNames == nil) == (x0.LevelNames == nil) && len(x.LevelNames) == len(names)
			for l, n := range names {
				if m, ok := x.LevelNames[l]; !ok || m != n {
					same = false
				}
			}
			if !same {
				in["after"] = fmt.Sprintf("%+q", *x)
				v.fail("extras modified", in)
			}
		}
		n, why := hLine(w.take())
		if err != nil || why != "" {
			in["why"] = fmt.Sprint(err, why)
			v.fail("output", in)
			continue
		}
		if which == hSloggy {
			want = flash.Extras{TimeFormat: time.RFC3339Nano, LevelKey: "level", MessageKey: "msg", SourceKey: "source", TimeKey: "time"}
			names = nil
		}
		name := names[r.Level]
		if name == "" {
			name = r.Level.String()
		}
		exp := [][2]string{{want.TimeKey, r.Time.Format(want.TimeFormat)}, {want.LevelKey, name}, {want.MessageKey, "hello"}}
		if o0.AddSource && r.PC != 0 {
			exp = append(exp, [2]string{want.SourceKey, ""})
		}
		for i, e := range exp {
			if i >= len(n.kids) || hNorm(n.kids[i].key) != hNorm(e[0]) || hNorm(n.kids[i].text) != hNorm(e[1]) {
				in["member"] = fmt.Sprintf("%q", e)
				v.fail("defaults", in)
				break
			}
		}
	}
}
