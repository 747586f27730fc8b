package internal/json

spec func eofReady() bool = errFinished != nil && errFinished != io.EOF && io.EOF != nil
spec func ok(c *FieldCounter) bool = c != nil && c.counts != nil && c.reader != nil

func NewFieldCounter(srcJSON) (c)
	prop C18
	ensures fresh(c) && ok(c)
	ensures empty: forall k string :: !has(c.counts, k)
	safe

func (*FieldCounter).Duplicates(ctr) (r)
	prop C18
	requires ctr != nil
	ensures exact: forall k string :: has(r, k) <==> has(ctr.counts, k) && ctr.counts[k] > 1
	ensures counts: forall k string :: has(r, k) ==> r[k] == ctr.counts[k]
	loop 0
		invariant fresh(dupMap)
		invariant forall k string :: has(dupMap, k) <==> $seen[k] && has(ctr.counts, k) && ctr.counts[k] > 1
		invariant forall k string :: has(dupMap, k) ==> dupMap[k] == ctr.counts[k]
	safe

func (*FieldCounter).Fields(ctr) (r)
	prop C18
	requires ctr != nil
	ensures known: forall i int :: 0 <= i && i < len(r) ==> has(ctr.counts, r[i])
	ensures complete: forall k string :: has(ctr.counts, k) ==> exists i int :: 0 <= i && i < len(r) && r[i] == k
	ensures ordered: forall i, j int :: 0 <= i && i < j && j < len(r) ==> r[i] < r[j]
	loop 0
		invariant fresh(fldList)
		invariant forall i int :: 0 <= i && i < len(fldList) ==> has(ctr.counts, fldList[i]) && $seen[fldList[i]]
		invariant forall k string :: $seen[k] ==> exists i int :: 0 <= i && i < len(fldList) && fldList[i] == k
		invariant forall i, j int :: 0 <= i && i < j && j < len(fldList) ==> fldList[i] != fldList[j]
	safe

func (*FieldCounter).NumFields(ctr) (n)
	prop C18
	requires ctr != nil
	ensures n == len(ctr.counts)
	safe

func (*FieldCounter).readRune(ctr) (r, err)
	prop C18
	requires ok(ctr)
	modifies ctr.charLoc, ctr.recent, allelems(rune)
	safe

func (*FieldCounter).unreadRune(ctr) (err)
	prop C18
	requires ok(ctr)
	modifies ctr.charLoc, ctr.recent
	safe

func (*FieldCounter).wrapCallError(ctr, err, msg, finished, status) (r)
	prop C18
	requires ok(ctr) && eofReady()
	ensures done: errors.Is(err, errFinished) ==> r == err
	ensures finish: err == nil && finished ==> r == errFinished
	ensures none: err == nil && !finished ==> r == nil
	ensures some: err != nil ==> r != nil
	safe

# Nested values count no field.
func (*FieldCounter).parseArray(ctr) (err)
	prop C18
	requires ok(ctr) && eofReady()
	modifies ctr.charLoc, ctr.recent, allelems(rune)
	loop 0
		modifies allelems(rune)
		invariant ok(ctr)
	safe

func (*FieldCounter).parseKeyword(ctr, first) (s, err)
	prop C18
	requires ok(ctr) && eofReady()
	modifies ctr.charLoc, ctr.recent, allelems(rune)
	loop 0
		modifies allelems(rune)
		invariant ok(ctr)

func (*FieldCounter).parseNumber(ctr) (err)
	prop C18
	requires ok(ctr) && eofReady()
	modifies ctr.charLoc, ctr.recent, allelems(rune)
	loop 0
		modifies allelems(rune)
		invariant ok(ctr)
	safe

func (*FieldCounter).parseString(ctr) (s, err)
	prop C18
	requires ok(ctr) && eofReady()
	modifies ctr.charLoc, ctr.recent, allelems(rune)
	loop 0
		modifies allelems(rune)
		invariant ok(ctr)

func (*FieldCounter).parseValue(ctr) (err)
	prop C18
	requires ok(ctr) && eofReady()
	modifies ctr.charLoc, ctr.recent, allelems(rune)
	loop 0
		modifies allelems(rune)
		invariant ok(ctr)
	safe

func (*FieldCounter).parseField(ctr, field, topLevel) (err)
	prop C18
	requires ok(ctr) && eofReady()
	modifies ctr.charLoc, ctr.recent, allelems(rune), when(topLevel && field == "fields", map(ctr.counts))
	ensures nested: !(topLevel && field == "fields") ==> mval(ctr.counts) == old(mval(ctr.counts)) && dom(ctr.counts) == old(dom(ctr.counts))
	loop 0
		modifies allelems(rune)
		invariant ok(ctr)
		invariant !(topLevel && field == "fields") ==> mval(ctr.counts) == old(mval(ctr.counts)) && dom(ctr.counts) == old(dom(ctr.counts)) && len(ctr.counts) == old(len(ctr.counts))
	safe

func (*FieldCounter).parseObject(ctr, countFields, topLevel) (err)
	prop C18
	requires ok(ctr) && eofReady()
	modifies ctr.charLoc, ctr.recent, allelems(rune), when(countFields || topLevel, map(ctr.counts))
	ensures nested: !countFields && !topLevel ==> mval(ctr.counts) == old(mval(ctr.counts)) && dom(ctr.counts) == old(dom(ctr.counts))
	loop 0
		modifies allelems(rune)
		invariant ok(ctr)
		invariant !countFields && !topLevel ==> mval(ctr.counts) == old(mval(ctr.counts)) && dom(ctr.counts) == old(dom(ctr.counts)) && len(ctr.counts) == old(len(ctr.counts))
	safe
