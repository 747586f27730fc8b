//verif:pkg handlers
//verif:with hmodel.go.txt
package handlers

import (
	"context"
	"fmt"
	"log/slog"
	"math"
	"testing"
	"time"

	"github.com/madkins23/go-slog/handlers/flash"
)

type flipLevel struct{ l *slog.Level }

func (f flipLevel) Level() slog.Level { return *f.l }

func TestVerifC09(t *testing.T) {
	v := newVerif()
	g := &hGen{v: v}
	levels := func() slog.Level {
		switch v.R.Intn(5) {
		case 0:
			return []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}[v.R.Intn(4)]
		case 1:
			return slog.Level(v.R.Int()) - slog.Level(v.R.Int())
		case 2:
			return []slog.Level{math.MinInt, math.MaxInt, math.MinInt + 1, math.MaxInt32 + 1, math.MinInt32 - 1, 127, 128, -129}[v.R.Intn(8)]
		}
		return slog.Level(v.R.Intn(28) - 12)
	}
	for v.more(300000) {
		which := v.pick(hFlash, hSloggy)
		var lv slog.LevelVar
		var cur slog.Level
		o := &slog.HandlerOptions{}
		min := func() slog.Level { return slog.LevelInfo }
		set := func(slog.Level) {}
		kind := v.R.Intn(5)
		switch kind {
		case 0:
			o = nil
		case 1:
			l := levels()
			o.Level = l
			min = func() slog.Level { return l }
		case 2:
			o.Level = &lv
			min = lv.Level
			set = lv.Set
		case 3:
			o.Level = flipLevel{&cur}
			min = func() slog.Level { return cur }
			set = func(l slog.Level) { cur = l }
		}
		set(levels())
		var x *flash.Extras
		names := map[slog.Level]string{}
		if which == hFlash && v.R.Intn(2) == 0 {
			x = &flash.Extras{LevelNames: map[slog.Level]string{}}
			for i := v.R.Intn(4); i > 0; i-- {
				l, n := levels(), v.pick("", "X", "Trace", "é\"")
				x.LevelNames[l] = n
				names[l] = n
			}
		}
		if o != nil && v.R.Intn(3) == 0 {
			o.ReplaceAttr = func(_ []string, a slog.Attr) slog.Attr { return a }
		}
		var w hWriter
		h := hNew(which, &w, o, x)
		fam := []slog.Handler{h}
		for i := v.R.Intn(4); i > 0; i-- {
			fam = append(fam, hStep(fam[v.R.Intn(len(fam))], g.op()))
		}
		for i := 0; i < 6; i++ {
			set(levels())
			h := fam[v.R.Intn(len(fam))]
			l := levels()
			if v.R.Intn(2) == 0 {
				l = min() + slog.Level(v.R.Intn(3)-1)
			}
			if got := h.Enabled(context.Background(), l); got != (l >= min()) {
				v.fail("Enabled", map[string]any{"handler": which, "level": int64(l), "minimum": int64(min()), "got": got, "leveler": kind})
			}
			if x != nil && v.R.Intn(2) == 0 {
				for k := range names {
					l = k
					break
				}
			}
			w.take()
			if err := h.Handle(context.Background(), slog.NewRecord(time.Time{}, l, "m", 0)); err != nil {
				v.fail("Handle", map[string]any{"handler": which, "level": int64(l), "error": err.Error()})
				continue
			}
			want := names[l]
			if want == "" {
				want = l.String()
			}
			n, why := hLine(w.take())
			if why != "" || len(n.kids) == 0 || n.kids[0].key != "level" || n.kids[0].text != want {
				v.fail("level name", map[string]any{"handler": which, "level": int64(l), "names": fmt.Sprint(names), "want": want})
			}
		}
	}
}
