package internal/scoring/axis/common

# A number: neither NaN nor an infinity.
spec func num(x float64) bool = x - x == 0.0

spec func min2(a, b float64) float64 = b < a ? b : a
spec func max2(a, b float64) float64 = b > a ? b : a

# The extremes of the first n values of a list, starting from those of an empty range.
rec func lowest(s seq[float64], n int, top float64) float64 = n <= 0 ? top : min2(lowest(s, n-1, top), s[n-1])
rec func highest(s seq[float64], n int) float64 = n <= 0 ? 0.0 : max2(highest(s, n-1), s[n-1])

# They are reached and bound every value.
lemma lowestBounds(s seq[float64], n int, top float64) {lowest(s, n, top)}
	prop C21
	induction n
	requires 0 <= n && n <= len(s) && num(top) && (forall i int :: 0 <= i && i < n ==> num(s[i]) && s[i] <= top)
	ensures num(lowest(s, n, top)) && lowest(s, n, top) <= top
	ensures forall i int :: 0 <= i && i < n ==> lowest(s, n, top) <= s[i]
	ensures n > 0 ==> exists i int :: 0 <= i && i < n && lowest(s, n, top) == s[i]

lemma highestBounds(s seq[float64], n int) {highest(s, n)}
	prop C21
	induction n
	requires 0 <= n && n <= len(s) && (forall i int :: 0 <= i && i < n ==> num(s[i]) && 0.0 <= s[i])
	ensures num(highest(s, n)) && 0.0 <= highest(s, n)
	ensures forall i int :: 0 <= i && i < n ==> s[i] <= highest(s, n)
	ensures n > 0 ==> exists i int :: 0 <= i && i < n && highest(s, n) == s[i]

# The score of a value in a range.
spec func scoreOf(l, h, f float64) float64 = l < h ? 100.0 * ((h - f) / (h - l)) : 100.0

lemma scoreBounds(l, h, f float64) {scoreOf(l, h, f)}
	prop C21
	requires num(l) && num(h) && num(f) && l <= f && f <= h
	ensures 0.0 <= scoreOf(l, h, f) && scoreOf(l, h, f) <= 100.0
	ensures f == l ==> scoreOf(l, h, f) == 100.0
	ensures f == h && l < h ==> scoreOf(l, h, f) == 0.0

lemma scoreFalls(l, h, f, g float64) {scoreOf(l, h, f), scoreOf(l, h, g)}
	prop C21
	requires num(l) && num(h) && num(f) && num(g) && l <= f && f <= g && g <= h
	ensures scoreOf(l, h, g) <= scoreOf(l, h, f)

func NewRangeFloat64() (r)
	prop C21
	ensures fresh(r) && r.high == 0.0 && num(r.low)
	ensures top: forall x float64 :: num(x) && x <= math.MaxFloat64 ==> x <= r.low
	safe

func (*RangeFloat64).AddValueFloat64(r, val)
	prop C21
	requires r != nil && num(val) && num(r.low) && num(r.high)
	modifies r.low, r.high
	ensures low: r.low == min2(old(r.low), val)
	ensures high: r.high == max2(old(r.high), val)
	safe

func (*RangeFloat64).AddValueUint64(r, val)
	prop C21
	requires r != nil && num(r.low) && num(r.high)
	modifies r.low, r.high
	ensures low: r.low == min2(old(r.low), val)
	ensures high: r.high == max2(old(r.high), val)
	safe

func (*RangeFloat64).Length(r) (n)
	prop C21
	requires r != nil && num(r.low) && num(r.high)
	ensures n == r.high - r.low
	safe

func (*RangeFloat64).RangedValue(r, from) (v)
	prop C21
	requires r != nil && num(r.low) && num(r.high) && r.low <= r.high
	requires num(from) && r.low <= from && from <= r.high
	ensures score: v == scoreOf(r.low, r.high, from)
	safe

func NewRangeUint64() (r)
	prop C21
	ensures fresh(r) && r.high == 0
	ensures top: forall x uint64 :: 0 <= x && x <= 18446744073709551615 ==> x <= r.low
	safe

func (*RangeUint64).AddValueUint64(r, val)
	prop C21
	requires r != nil
	modifies r.low, r.high
	ensures low: r.low == (val < old(r.low) ? val : old(r.low))
	ensures high: r.high == (val > old(r.high) ? val : old(r.high))
	safe

func (*RangeUint64).AddValueFloat64(r, val)
	prop C21
	requires r != nil
	modifies r.low, r.high
	ensures low: forall u uint64 :: val == u ==> r.low == (u < old(r.low) ? u : old(r.low))
	ensures high: forall u uint64 :: val == u ==> r.high == (u > old(r.high) ? u : old(r.high))
	safe

func (*RangeUint64).Length(r) (n)
	prop C21
	requires r != nil && r.low <= r.high
	ensures n == r.high - r.low
	safe

func (*RangeUint64).RangedValue(r, from) (v)
	prop C21
	requires r != nil && r.low <= r.high
	requires num(from) && r.low <= from && from <= r.high
	ensures score: v == scoreOf(r.low, r.high, from)
	safe

package internal/scoring/score


# Every value added so far lies between lo and hi.
spec func within(a *Average, lo, hi Value) bool = lo * a.Count <= a.Value && a.Value <= hi * a.Count

func (*Average).Add(a, v) (r)
	prop C22
	requires a != nil && num(v) && num(a.Value)
	modifies a.Value, a.Count
	ensures same: r == a
	ensures sum: a.Value == old(a.Value) + v
	ensures count: a.Count == old(a.Count) + 1
	ensures within: forall lo, hi Value :: num(lo) && num(hi) && lo <= v && v <= hi && old(within(a, lo, hi)) ==> within(a, lo, hi)
	safe

# A weight of zero adds nothing, whatever the value.
func (*Average).AddMultiple(a, v, multiple) (r)
	prop C22
	requires a != nil && num(a.Value) && (multiple > 0 ==> num(v))
	modifies a.Value, a.Count
	ensures same: r == a
	ensures none: multiple == 0 ==> a.Value == old(a.Value) && a.Count == old(a.Count)
	ensures sum: multiple > 0 ==> a.Value == old(a.Value) + v * multiple
	ensures count: a.Count == old(a.Count) + multiple
	ensures within: forall lo, hi Value :: num(lo) && num(hi) && lo <= v && v <= hi && old(within(a, lo, hi)) ==> within(a, lo, hi)
	safe

func (*Average).Average(a) (r)
	prop C22
	requires a != nil && num(a.Value)
	ensures mean: a.Count > 0 ==> num(r) && r * a.Count == a.Value
	ensures within: forall lo, hi Value :: num(lo) && num(hi) && a.Count > 0 && within(a, lo, hi) ==> lo <= r && r <= hi
	safe

package internal/scoring/axis/common

func (*HandlerData).ByTest(hd, test) (r)
	prop C22
	requires hd != nil && hd.byTest != nil
	modifies map(hd.byTest)
	ensures known: old(hd.byTest[test]) != nil ==> r == old(hd.byTest[test]) && mval(hd.byTest) == old(mval(hd.byTest))
	ensures new: old(hd.byTest[test]) == nil ==> fresh(r) && r.Count == 0 && r.Value == 0.0
	ensures kept: r != nil && hd.byTest[test] == r
	ensures others: forall t data.TestTag :: t != test ==> hd.byTest[t] == old(hd.byTest[t])
	safe

package internal/scoring/axis/bench

func (*HandlerData).Rollup(hd, over) (r)
	prop C22
	requires hd != nil && hd.rollup != nil
	modifies map(hd.rollup)
	ensures known: old(hd.rollup[over]) != nil ==> r == old(hd.rollup[over]) && mval(hd.rollup) == old(mval(hd.rollup))
	ensures new: old(hd.rollup[over]) == nil ==> fresh(r) && r.Count == 0 && r.Value == 0.0
	ensures kept: r != nil && hd.rollup[over] == r
	ensures others: forall t RollOver :: t != over ==> hd.rollup[t] == old(hd.rollup[t])
	safe

func (*HandlerData).SubScore(hd, weight) (r)
	prop C22
	requires hd != nil && hd.subScore != nil
	modifies map(hd.subScore)
	ensures known: old(hd.subScore[weight]) != nil ==> r == old(hd.subScore[weight]) && mval(hd.subScore) == old(mval(hd.subScore))
	ensures new: old(hd.subScore[weight]) == nil ==> fresh(r) && r.Count == 0 && r.Value == 0.0
	ensures kept: r != nil && hd.subScore[weight] == r
	ensures others: forall t Weight :: t != weight ==> hd.subScore[t] == old(hd.subScore[t])
	safe

package internal/scoring/axis/warn

func (*HandlerData).ByLevel(hd, level) (r)
	prop C22
	requires hd != nil && hd.byLevel != nil
	modifies map(hd.byLevel)
	ensures known: old(hd.byLevel[level]) != nil ==> r == old(hd.byLevel[level]) && mval(hd.byLevel) == old(mval(hd.byLevel))
	ensures new: old(hd.byLevel[level]) == nil ==> fresh(r) && r.Count == 0 && r.Value == 0.0
	ensures kept: r != nil && hd.byLevel[level] == r
	ensures others: forall t warning.Level :: t != level ==> hd.byLevel[t] == old(hd.byLevel[t])
	safe
