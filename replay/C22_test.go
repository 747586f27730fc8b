//verif:pkg internal/scoring/axis
//verif:alone
package axis

import (
	"fmt"
	"io"
	"log/slog"
	"math"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/score"
)

func TestVerifC22(t *testing.T) {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	v := newVerif()
	for v.more(300000) {
		var a score.Average
		sum, n := 0.0, 0.0
		lo, hi := math.Inf(1), math.Inf(-1)
		var in []string
		for k := v.R.Intn(8); k > 0; k-- {
			x := v.R.Float64() * 100
			if v.R.Intn(4) == 0 {
				x = float64(v.R.Intn(3)) * 50
			}
			w := uint(1)
			if v.R.Intn(2) == 0 {
				a.Add(score.Value(x))
			} else {
				w = uint(v.R.Intn(4))
				if v.R.Intn(8) == 0 {
					w = uint(v.R.Intn(1 << uint(1+v.R.Intn(20))))
				}
				y := x
				if w == 0 && v.R.Intn(2) == 0 {
					y = math.NaN()
				}
				a.AddMultiple(score.Value(y), w)
			}
			in = append(in, fmt.Sprint(x, "*", w))
			if w > 0 {
				sum += x * float64(w)
				n += float64(w)
				lo, hi = math.Min(lo, x), math.Max(hi, x)
			}
		}
		if n > 0 {
			g := float64(a.Average())
			if !(math.Abs(g-sum/n) < 1e-9) || g < lo-1e-9 || g > hi+1e-9 {
				v.fail("average", in)
			}
		}
		if v.N%20 != 0 {
			continue
		}
		// benchmark scores
		var b strings.Builder
		hs := []string{"A", "B", "C"}[:1+v.R.Intn(3)]
		ts := []string{"S", "T"}[:1+v.R.Intn(2)]
		type row struct{ ns, by, al float64 }
		rec := map[string]row{}
		for _, h := range hs {
			for _, tt := range ts {
				r := row{float64(v.R.Intn(3)), float64(v.R.Intn(2)), float64(v.R.Intn(2))}
				rec[h+tt] = r
				fmt.Fprintf(&b, "Benchmark%s/Benchmark%s-8  100  %v ns/op  %v B/op  %v allocs/op\n", h, tt, r.ns, r.by, r.al)
			}
		}
		d := data.NewBenchmarks()
		if d.ParseBenchmarkData(strings.NewReader(b.String())) != nil {
			v.fail("parse", b.String())
			continue
		}
		wt := map[bench.Weight]uint{bench.Nanoseconds: uint(v.R.Intn(4)), bench.AllocBytes: uint(v.R.Intn(3)), bench.Allocations: uint(v.R.Intn(3))}
		ax := NewBenchmarks(wt, "", nil)
		if ax.Setup(d, nil) != nil {
			v.fail("setup", b.String())
			continue
		}
		w3 := []float64{float64(wt[bench.Nanoseconds]), float64(wt[bench.AllocBytes]), float64(wt[bench.Allocations])}
		for _, h := range hs {
			tsum, tn := 0.0, 0.0
			dsum, dn := make([]float64, 3), make([]float64, 3)
			for _, tt := range ts {
				s, n := 0.0, 0.0
				for k := 0; k < 3; k++ {
					f := func(r row) float64 { return []float64{r.ns, r.by, r.al}[k] }
					lo, hi := math.Inf(1), math.Inf(-1)
					for _, g := range hs {
						lo, hi = math.Min(lo, f(rec[g+tt])), math.Max(hi, f(rec[g+tt]))
					}
					if hi > lo {
						x := 100 * (hi - f(rec[h+tt])) / (hi - lo)
						s += x * w3[k]
						n += w3[k]
						dsum[k] += x
						dn[k]++
					}
				}
				if n > 0 {
					tsum += s / n
					tn++
				}
			}
			s, n := 0.0, 0.0
			for k := 0; k < 3; k++ {
				if dn[k] > 0 {
					s += dsum[k] / dn[k] * w3[k]
					n += w3[k]
				}
			}
			in := map[string]any{"data": b.String(), "weights": w3, "handler": h}
			if tn > 0 {
				if g := float64(ax.ScoreForType(data.HandlerTag(h), score.ByTest)); !(math.Abs(g-tsum/tn) < 1e-6) {
					in["got"], in["want"] = fmt.Sprint(g), fmt.Sprint(tsum/tn)
					v.fail("score by test", in)
				}
			}
			if n > 0 {
				if g := float64(ax.ScoreForType(data.HandlerTag(h), score.ByData)); !(math.Abs(g-s/n) < 1e-6) {
					in["got"], in["want"] = fmt.Sprint(g), fmt.Sprint(s/n)
					v.fail("score by data", in)
				}
			}
			if tn > 0 && n > 0 {
				for _, ty := range []score.Type{score.Default, score.Original} {
					if g := float64(ax.ScoreForType(data.HandlerTag(h), ty)); !(g >= -1e-6 && g <= 100+1e-6) {
						in["got"] = fmt.Sprint(g)
						v.fail("score "+ty.String(), in)
					}
				}
			}
		}
	}
}
