//verif:pkg handlers
//verif:with hmodel.go.txt
package handlers

import (
	"context"
	"log/slog"
	"testing"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
)

func TestVerifC01(t *testing.T) { formHarness(hFlash) }

func formHarness(which string) {
	v := newVerif()
	g := &hGen{v: v, bad: true}
	slog.SetDefault(slog.New(slog.NewTextHandler(&hWriter{}, nil)))
	for v.more(400000) {
		g.bad = v.R.Intn(3) == 0
		o := &slog.HandlerOptions{AddSource: v.R.Intn(4) == 0}
		var x *flash.Extras
		if v.R.Intn(6) == 0 {
			x = &flash.Extras{TimeFormat: v.pick("", time.DateOnly, `2006"01\02`, "02/Jan \n \xff"), TimeKey: g.str(), LevelKey: g.str(), MessageKey: g.str(), SourceKey: g.str(),
				LevelNames: map[slog.Level]string{0: g.str(), 4: g.str(), 1: g.str()}}
		}
		if v.R.Intn(3) == 0 {
			o.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
				switch v.R.Intn(6) {
				case 0:
					return slog.Attr{}
				case 1:
					a.Key = g.str()
				case 2:
					a.Value = g.value(1)
				case 3:
					a = g.attr(1)
				}
				return a
			}
		}
		var w hWriter
		h := hNew(which, &w, o, x)
		ops := g.ops(5)
		h = hDerive(h, ops)
		for k := v.R.Intn(3); k >= 0; k-- {
			var pc uintptr
			if v.R.Intn(2) == 0 {
				pc = 1
			}
			r := g.record(pc)
			err := h.Handle(context.Background(), r)
			out := w.take()
			if err != nil {
				if !g.bad {
					v.fail("Handle reports an error for a record that can be rendered", hInput(which, ops, r, out, err.Error()))
				}
				if len(out) > 0 {
					v.fail("partial line", hInput(which, ops, r, out, err.Error()))
				}
				continue
			}
			if _, why := hLine(out); why != "" {
				v.fail("malformed line", hInput(which, ops, r, out, why))
			}
		}
	}
}
