//verif:pkg infra
package infra

import (
	"bytes"
	"context"
	"io"
	"log/slog"
	"reflect"
	"testing"
)

type vh struct{ id int }

func (h *vh) Enabled(context.Context, slog.Level) bool         { return true }
func (h *vh) Handle(context.Context, slog.Record) error        { return nil }
func (h *vh) WithAttrs([]slog.Attr) slog.Handler               { return h }
func (h *vh) WithGroup(string) slog.Handler                    { return h }

func TestVerifC23(t *testing.T) {
	v := newVerif()
	for v.more(20000) {
		k := 1 + v.R.Intn(3)
		var hw []io.Writer
		var ho []*slog.HandlerOptions
		var lw []io.Writer
		var lo []*slog.HandlerOptions
		n := 0
		var lastH slog.Handler
		var lastL *slog.Logger
		hNil := v.R.Intn(6) == 0
		var hf CreateHandlerFn
		var lf CreateLoggerFn
		if k&1 != 0 {
			hf = func(w io.Writer, o *slog.HandlerOptions) slog.Handler {
				hw, ho = append(hw, w), append(ho, o)
				n++
				lastH = &vh{n}
				return lastH
			}
		}
		if k&2 != 0 {
			lf = func(w io.Writer, o *slog.HandlerOptions) *slog.Logger {
				lw, lo = append(lw, w), append(lo, o)
				n++
				lastL = slog.New(&vh{n})
				if hNil {
					lastL = nil
				}
				return lastL
			}
		}
		name := v.pick("a", "bb", " ", "x\"y")
		sum := v.pick("", " ", "summary", "s\n\nt")
		var links Links
		switch v.R.Intn(4) {
		case 0:
			links = Links{}
		case 1:
			links = Links{"a": "b"}
		case 2:
			links = Links{"a": "b", "": "", "c": ""}
		}
		in := map[string]any{"handlerFn": hf != nil, "loggerFn": lf != nil, "name": name, "summary": sum, "links": links}
		c := NewCreator(name, hf, lf, sum, links)
		if c.Name() != name {
			v.fail("Name", in)
		}
		if c.Summary() != sum || c.HasSummary() != (sum != "") {
			v.fail("Summary", in)
		}
		if !reflect.DeepEqual(c.Links(), map[string]string(links)) || c.HasLinks() != (len(links) > 0) {
			v.fail("Links", in)
		}
		if c.CanMakeHandler() != (hf != nil) {
			v.fail("CanMakeHandler", in)
		}
		for i := 0; i < 3; i++ {
			var w io.Writer
			if v.R.Intn(4) != 0 {
				w = &bytes.Buffer{}
			}
			var o *slog.HandlerOptions
			switch v.R.Intn(4) {
			case 0:
				o = &slog.HandlerOptions{}
			case 1:
				o = &slog.HandlerOptions{AddSource: true, Level: slog.LevelWarn}
			case 2:
				o = &slog.HandlerOptions{ReplaceAttr: func(g []string, a slog.Attr) slog.Attr { return a }}
			}
			var oc slog.HandlerOptions
			if o != nil {
				oc = *o
			}
			same := func(ws []io.Writer, os []*slog.HandlerOptions) bool {
				if len(ws) != 1 || ws[0] != w || len(os) != 1 {
					return false
				}
				if o == nil {
					return os[0] == nil
				}
				return os[0] != nil && os[0].AddSource == oc.AddSource && os[0].Level == oc.Level && (os[0].ReplaceAttr == nil) == (oc.ReplaceAttr == nil)
			}
			in["writerNil"], in["options"], in["round"] = w == nil, o != nil, i
			hw, ho, lw, lo = nil, nil, nil, nil
			func() {
				defer func() {
					if r := recover(); r != nil {
						v.fail("panic", in)
					}
				}()
				if v.R.Intn(2) == 0 {
					h := c.NewHandler(w, o)
					if hf == nil && (h != nil || len(lw) != 0) || hf != nil && (h != lastH || !same(hw, ho) || len(lw) != 0) {
						v.fail("NewHandler", in)
					}
				} else {
					l := c.NewLogger(w, o)
					if lf != nil && (l != lastL || !same(lw, lo) || len(hw) != 0) || lf == nil && (l == nil || l.Handler() != lastH || !same(hw, ho)) {
						v.fail("NewLogger", in)
					}
				}
			}()
		}
	}
}
