//verif:pkg handlers
//verif:with hmodel.go.txt
package handlers

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"log/slog"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// lockWriter notices writes that overlap and can fail or panic.
type lockWriter struct {
	busy    int32
	overlap int32
	mode    int // 1: fail, 2: panic, 3: partial failure
	slow    bool
	mu      sync.Mutex
	out     [][]byte
}

var errWrite = errors.New("write failure")

func (w *lockWriter) Write(p []byte) (int, error) {
	if !atomic.CompareAndSwapInt32(&w.busy, 0, 1) {
		atomic.StoreInt32(&w.overlap, 1)
	}
	if w.slow {
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	}
	w.mu.Lock()
	w.out = append(w.out, append([]byte{}, p...))
	w.mu.Unlock()
	atomic.StoreInt32(&w.busy, 0)
	switch w.mode {
	case 1:
		return 0, errWrite
	case 2:
		panic("writer panic")
	case 3:
		return len(p) / 2, errWrite
	}
	return len(p), nil
}

func (w *lockWriter) take() [][]byte {
	o := w.out
	w.out = nil
	return o
}

func TestVerifC08(t *testing.T) {
	v := newVerif()
	g := &hGen{v: v}
	slog.SetDefault(slog.New(slog.NewTextHandler(&hWriter{}, nil)))
	// handle calls h and reports a missing return (a lock that was not released).
	handle := func(h slog.Handler, r slog.Record) (err error, stuck bool) {
		done := make(chan error, 1)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					done <- fmt.Errorf("panic: %v", p)
				}
			}()
			done <- h.Handle(context.Background(), r)
		}()
		select {
		case err = <-done:
			return err, false
		case <-time.After(20 * time.Second):
			return nil, true
		}
	}
	for v.more(100000) {
		which := v.pick(hFlash, hSloggy)
		g.plain = v.R.Intn(2) == 0
		o := &slog.HandlerOptions{AddSource: v.R.Intn(2) == 0}
		if v.R.Intn(3) == 0 {
			salt := v.R.Intn(5)
			o.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
				if len(a.Key)%5 == salt {
					return slog.Attr{}
				}
				if len(a.Key)%7 == salt {
					return slog.Any(a.Key, func() {})
				}
				return a
			}
		}
		w := &lockWriter{}
		root := hNew(which, w, o, nil)
		family := []slog.Handler{root}
		var famOps [][]hOp
		famOps = append(famOps, nil)
		for i := v.R.Intn(5); i > 0; i-- {
			p := v.R.Intn(len(family))
			op := g.op()
			family = append(family, hStep(family[p], op))
			famOps = append(famOps, append(append([]hOp{}, famOps[p]...), op))
		}
		w.take()
		for k := v.R.Intn(5); k >= 0; k-- {
			i := v.R.Intn(len(family))
			g.bad = v.R.Intn(2) == 0
			r := g.record(uintptr(v.R.Intn(2)))
			w.mode = 0
			if v.R.Intn(3) == 0 {
				w.mode = 1 + v.R.Intn(3)
			}
			err, stuck := handle(family[i], r)
			outs := w.take()
			all := bytes.Join(outs, []byte("|"))
			if stuck {
				v.fail("stuck", hInput(which, famOps[i], r, all, "Handle did not return, a lock is still held"))
				break
			}
			if len(outs) > 1 {
				v.fail("several writes", hInput(which, famOps[i], r, all, fmt.Sprint(len(outs), " writes")))
			}
			switch {
			case len(outs) == 0 && err == nil:
				v.fail("no write", hInput(which, famOps[i], r, all, "neither a write nor an error"))
			case len(outs) == 1:
				if _, why := hLine(outs[0]); why != "" {
					v.fail("incomplete line", hInput(which, famOps[i], r, all, why))
				}
				if w.mode == 0 && err != nil {
					v.fail("error after a write", hInput(which, famOps[i], r, all, err.Error()))
				}
				if (w.mode == 1 || w.mode == 3) && err == nil {
					v.fail("write failure not reported", hInput(which, famOps[i], r, all, "no error"))
				}
			}
		}
		if v.N%8 != 0 {
			continue
		}
		// concurrent records
		w.mode, w.slow, g.bad = 0, true, false
		o.ReplaceAttr = nil
		var wg sync.WaitGroup
		var sent int32
		for i := 0; i < 4; i++ {
			h := family[v.R.Intn(len(family))]
			r1, r2 := g.record(0), g.record(0)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, r := range []slog.Record{r1, r2} {
					if h.Handle(context.Background(), r) == nil {
						atomic.AddInt32(&sent, 1)
					}
				}
			}()
		}
		wg.Wait()
		outs := w.take()
		if w.overlap != 0 {
			v.fail("overlapping writes", map[string]any{"handler": which, "family": famOps})
		}
		if int(sent) != len(outs) {
			v.fail("writes of concurrent records", map[string]any{"handler": which, "family": famOps, "records": sent, "writes": len(outs)})
		}
		for _, l := range outs {
			if _, why := hLine(l); why != "" {
				v.fail("torn line", map[string]any{"handler": which, "family": famOps, "line": fmt.Sprintf("%q", l), "why": why})
			}
		}
	}
}
