//verif:pkg handlers
//verif:with hmodel.go.txt
package handlers

import (
	"bytes"
	"context"
	"fmt"
	"log/slog"
	"testing"
)

func TestVerifC04(t *testing.T) { isolationHarness(hSloggy) }

type isoLog struct {
	h    slog.Handler
	ops  []hOp
	base []byte // what it wrote first
}

func isolationHarness(which string) {
	v := newVerif()
	g := &hGen{v: v}
	slog.SetDefault(slog.New(slog.NewTextHandler(&hWriter{}, nil)))
	for v.more(100000) {
		g.plain = v.R.Intn(3) == 0
		o := &slog.HandlerOptions{}
		if v.R.Intn(2) == 0 {
			o.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
				if a.Key != "" && a.Value.Kind() != slog.KindGroup {
					a.Value = slog.StringValue(fmt.Sprint(groups, a.Value.Kind(), a.Key))
				}
				return a
			}
		}
		var w hWriter
		recs := []slog.Record{g.record(0), slog.NewRecord(g.record(0).Time, 0, "m", 0)}
		show := func(h slog.Handler) []byte {
			var all []byte
			for _, r := range recs {
				if err := h.Handle(context.Background(), r); err != nil {
					all = append(all, err.Error()...)
				}
				all = append(all, w.take()...)
			}
			return all
		}
		root := hNew(which, &w, o, nil)
		logs := []*isoLog{{h: root, base: show(root)}}
		for i := 2 + v.R.Intn(12); i > 0; i-- {
			p := logs[v.R.Intn(len(logs))]
			if v.R.Intn(3) == 0 {
				p = logs[len(logs)-1]
			}
			op := g.op()
			l := &isoLog{h: hStep(p.h, op), ops: append(append([]hOp{}, p.ops...), op)}
			// the same derivation without any relatives
			alone := hNew(which, &w, o, nil)
			for _, op := range l.ops {
				alone = hStep(alone, op)
			}
			l.base = show(alone)
			logs = append(logs, l)
			if v.R.Intn(2) == 0 {
				if got := show(l.h); !bytes.Equal(got, l.base) {
					v.fail("derived logger", map[string]any{"ops": l.ops, "got": fmt.Sprintf("%q", got), "want": fmt.Sprintf("%q", l.base), "message": fmt.Sprintf("%q", recs[0].Message), "attrs": hShowAttrs(hAttrs(recs[0]))})
				}
			}
		}
		for _, i := range v.R.Perm(len(logs)) {
			l := logs[i]
			got := show(l.h)
			if !bytes.Equal(got, l.base) {
				var others []any
				for _, x := range logs {
					others = append(others, x.ops)
				}
				v.fail("disturbed logger", map[string]any{"ops": l.ops, "relatives": others, "got": fmt.Sprintf("%q", got), "want": fmt.Sprintf("%q", l.base), "message": fmt.Sprintf("%q", recs[0].Message), "attrs": hShowAttrs(hAttrs(recs[0]))})
			}
			// its context is its parents' context followed by its own
			if o.ReplaceAttr == nil {
				r := recs[0]
				if l.h.Handle(context.Background(), r) != nil {
					continue
				}
				n, why := hLine(w.take())
				if why == "" {
					for len(n.kids) > 0 && (n.kids[0].key == "time" || n.kids[0].key == "level") {
						n.kids = n.kids[1:]
					}
					if len(n.kids) > 0 {
						n.kids = n.kids[1:]
					}
					why = hSame(hContext(l.ops, hAttrs(r), nil), n.kids, "2006-01-02T15:04:05.999999999Z07:00", "")
				}
				if why != "" {
					v.fail("context", hInput(which, l.ops, r, got, why))
				}
			}
		}
	}
}
