//verif:pkg internal/scoring/axis/common
//verif:alone
package common

import (
	"math"
	"sort"
	"testing"
)

func TestVerifC21(t *testing.T) {
	v := newVerif()
	val := func() float64 {
		switch v.R.Intn(6) {
		case 0:
			return 0
		case 1:
			return float64(v.R.Intn(10))
		case 2:
			return v.R.Float64() * 1000
		case 3:
			return math.Exp(v.R.NormFloat64() * 100)
		case 4:
			return math.MaxFloat64 * v.R.Float64()
		}
		return v.R.ExpFloat64()
	}
	for v.more(2000000) {
		var r Range
		ints := v.R.Intn(2) == 0
		if ints {
			r = NewRangeUint64()
		} else {
			r = NewRangeFloat64()
		}
		var xs []float64
		for n := 1 + v.R.Intn(6); n > 0; n-- {
			x := val()
			if !ints && v.R.Intn(4) == 0 {
				u := uint64(v.R.Int63n(1<<20)) << uint(v.R.Intn(45))
				r.AddValueUint64(u)
				xs = append(xs, float64(u))
				continue
			}
			if ints {
				u := uint64(v.R.Int63n(1 << uint(1+v.R.Intn(53))))
				if v.R.Intn(3) == 0 {
					u = uint64(v.R.Int63n(1<<20)) << uint(v.R.Intn(45))
				}
				x = float64(u)
				if v.R.Intn(2) == 0 {
					r.AddValueUint64(u)
				} else {
					r.AddValueFloat64(x)
				}
			} else {
				if math.IsInf(x, 0) {
					continue
				}
				r.AddValueFloat64(x)
			}
			xs = append(xs, x)
		}
		if len(xs) == 0 {
			continue
		}
		in := map[string]any{"integers": ints, "values": xs}
		s := append([]float64(nil), xs...)
		sort.Float64s(s)
		lo, hi := s[0], s[len(s)-1]
		if r.Length() != hi-lo {
			v.fail("length", in)
		}
		if lo < hi && (float64(r.RangedValue(lo)) != 100 || float64(r.RangedValue(hi)) != 0) {
			v.fail("ends of the range", in)
		}
		for n := 0; n < 3; n++ {
			f := lo + (hi-lo)*v.R.Float64()
			if n == 0 {
				f = xs[v.R.Intn(len(xs))]
			}
			if f < lo || f > hi {
				continue
			}
			s = append(s, f)
		}
		sort.Float64s(s)
		last := 100.0
		for _, f := range s {
			g := float64(r.RangedValue(f))
			if !(g >= 0 && g <= 100 && g <= last) {
				in["queried"] = f
				in["score"] = g
				v.fail("score", in)
			}
			last = g
		}
	}
}
