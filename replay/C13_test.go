//verif:pkg gin
//verif:alone
package gin

import (
	"context"
	"fmt"
	"log/slog"
	"strings"
	"testing"
)

type ginRec struct {
	level slog.Level
	msg   string
	attrs []slog.Attr
}

type ginHandler struct {
	recs []ginRec
	min  slog.Level
}

func (h *ginHandler) Enabled(_ context.Context, l slog.Level) bool { return l >= h.min }
func (h *ginHandler) WithAttrs([]slog.Attr) slog.Handler           { return h }
func (h *ginHandler) WithGroup(string) slog.Handler                { return h }
func (h *ginHandler) Handle(_ context.Context, r slog.Record) error {
	x := ginRec{level: r.Level, msg: r.Message}
	r.Attrs(func(a slog.Attr) bool { x.attrs = append(x.attrs, a); return true })
	h.recs = append(h.recs, x)
	return nil
}

type fixedLeveler struct{ l slog.Level }

func (f fixedLeveler) Level() slog.Level { return f.l }

func TestVerifC13(t *testing.T) {
	v := newVerif()
	h := &ginHandler{min: -1000}
	slog.SetDefault(slog.New(h))
	leveler := func() slog.Leveler {
		l := slog.Level(v.R.Intn(20) - 8)
		switch v.R.Intn(5) {
		case 0:
			return nil
		case 1:
			var lv slog.LevelVar
			lv.Set(l)
			return &lv
		case 2:
			return fixedLeveler{l}
		case 3:
			return []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}[v.R.Intn(4)]
		}
		return l
	}
	tags := map[string]slog.Level{"[DEBUG]": slog.LevelDebug, "[ERROR]": slog.LevelError, "[INFO]": slog.LevelInfo, "[WARNING]": slog.LevelWarn, "[GIN-debug]": slog.LevelDebug}
	for v.more(300000) {
		o := Options{Level: leveler()}
		o.Traffic.Parse = v.R.Intn(2) == 0
		o.Traffic.Embed = v.R.Intn(2) == 0
		o.Traffic.Level = leveler()
		o.Traffic.Message = v.pick("", "", "traffic")
		o.Traffic.Group = v.pick("", "", "grp")
		saved := o
		w := NewWriter(&o)
		def := func(l slog.Leveler) slog.Level {
			if l == nil {
				return slog.LevelInfo
			}
			return l.Level()
		}
		level := def(o.Level)
		line := ""
		bad := false
		count := v.R.Intn(5)
		if v.R.Intn(8) == 0 {
			count = v.R.Intn(9)
		}
		for i := count; i > 0 && !bad; i-- {
			tag := v.pick("[GIN]", "[GIN-debug]", "[DEBUG]", "[ERROR]", "[INFO]", "[WARNING]", "[GIN]", "[BAD]", "[info]", "[]", "[ERRORS]")
			if l, ok := tags[tag]; ok {
				level = l
			} else if tag != "[GIN]" {
				if v.R.Intn(3) != 0 {
					continue
				}
				bad = true
			}
			line += v.pick("", " ", "\t", "  ") + tag + v.pick("", " ", "   ")
		}
		if v.R.Intn(2) == 0 {
			line += v.pick("2024/01/26 - 13:21:32 | ", "2024/1/6-1:2:3|", " 2024/01/26 - 13:21:32 |   ")
		}
		msg := v.pick("hello", "200 | 5.5s | ::1 | GET \"/x\"", "404 |1ms|::1| POST   \"/y?z=[INFO]\"", "200 | 1s | ::1 | odd", "20x | 1s | ::1 | GET \"/x\"", "a | b", "é\"", "text [ERROR] inside", "200 | 1s | ::1 | GET \"/x\" more",
			"99999999999999999999 | 1s | ::1 | GET \"/x\"")
		p := []byte(line + msg + v.pick("", "\n", "\n\n"))
		full := string(p)
		h.recs = nil
		n, err := w.Write(p)
		in := map[string]any{"line": fmt.Sprintf("%q", p), "level": int(def(o.Level)), "traffic": fmt.Sprintf("%+v level %d", o.Traffic, def(o.Traffic.Level)), "n": n, "error": fmt.Sprint(err), "records": fmt.Sprintf("%v", h.recs)}
		if string(p) != full || o != saved {
			v.fail("input modified", in)
		}
		if bad {
			if err == nil || len(h.recs) != 0 {
				v.fail("unclassified line", in)
			}
			continue
		}
		if err != nil || n != len(p) {
			v.fail("result", in)
			continue
		}
		var want []slog.Attr
		wmsg := msg
		if o.Traffic.Parse {
			if fields, e := Parse(msg); e == nil {
				level = def(o.Traffic.Level)
				if wmsg = o.Traffic.Message; wmsg == "" {
					wmsg = DefaultTrafficMessage
				}
				if o.Traffic.Embed {
					for _, f := range fields {
						want = append(want, f.(slog.Attr))
					}
				} else {
					g := o.Traffic.Group
					if g == "" {
						g = DefaultTrafficGroup
					}
					want = []slog.Attr{slog.Group(g, fields...)}
				}
			} else if len(h.recs) == 2 && h.recs[0].level == slog.LevelDebug {
				h.recs = h.recs[1:] // the diagnostic
			}
		}
		in["want"] = fmt.Sprint(level, wmsg, want)
		if len(h.recs) != 1 {
			v.fail("number of records", in)
			continue
		}
		r := h.recs[0]
		if r.level != level {
			v.fail("level", in)
		}
		if r.msg != strings.TrimRight(wmsg, "\n") {
			v.fail("message", in)
		}
		if len(r.attrs) != len(want) {
			v.fail("attributes", in)
			continue
		}
		for i := range want {
			if !r.attrs[i].Equal(want[i]) {
				v.fail("attribute", in)
			}
		}
	}
}
