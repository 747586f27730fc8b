# Text input. The lines of a reader are a function of it; a scanner delivers them in order from a
# buffer of its own, which it overwrites.
package io
spec func linesOf(r io.Reader) seq[seq[byte]]
spec func readErr(r io.Reader) error
package bufio
ghost field bufio.Scanner.src io.Reader
ghost field bufio.Scanner.pos int
ghost field bufio.Scanner.buf []byte
func NewScanner(r) (s) trusted
	ensures s != nil && fresh(s) && s.src == r && s.pos == 0 && fresh(s.buf)
func (*Scanner).Scan(s) (more) trusted
	modifies s.pos, s.buf, elems(s.buf)
	ensures more <==> old(s.pos) < len(linesOf(s.src))
	ensures s.pos == old(s.pos) + (more ? 1 : 0) && s.pos <= len(linesOf(s.src))
	ensures fresh(s.buf) || ref(s.buf) == ref(old(s.buf))
func (*Scanner).Bytes(s) (r) trusted
	ensures view(r) == linesOf(s.src)[s.pos-1] && ref(r) == ref(s.buf)
func (*Scanner).Err(s) (err) trusted
	ensures err == readErr(s.src)

package os
func Open(name) (f, err) trusted
	ensures fresh(f)

package regexp
spec func submatchesOf(re *regexp.Regexp, s seq[byte]) seq[seq[byte]]
func (*Regexp).FindSubmatch(re, s) (r) trusted
	requires re != nil
	ensures len(r) == len(submatchesOf(re, view(s)))
	ensures forall i int :: 0 <= i && i < len(r) ==> view(r[i]) == submatchesOf(re, view(s))[i] && ref(r[i]) == ref(s)
spec func matchOf(re *regexp.Regexp, s seq[byte]) bool
func (*Regexp).Match(re, s) (r) trusted
	requires re != nil
	ensures r == matchOf(re, view(s))

package strconv
spec func uintOf(s string, base int, bits int) uint64
spec func uintErr(s string, base int, bits int) error
func ParseUint(s, base, bitSize) (i, err) trusted
	ensures i == uintOf(s, base, bitSize) && err == uintErr(s, base, bitSize)
spec func floatOf(s string, bits int) float64
spec func floatErr(s string, bits int) error
func ParseFloat(s, bitSize) (f, err) trusted
	ensures f == floatOf(s, bitSize) && err == floatErr(s, bitSize)

package internal/data
# Display names are functions of the tag (they are cached).
func (TestTag).Name(tt) (s) pure
func (HandlerTag).Name(ht) (s) pure

func (*TestRecord).ItemValue(tr, item) (v)
	prop C19
	requires tr != nil
	ensures item == Runs ==> v == tr.Runs
	ensures item == Nanos ==> v == tr.NanosPerOp
	ensures item == MemAllocs ==> v == tr.MemAllocsPerOp
	ensures item == MemBytes ==> v == tr.MemBytesPerOp
	ensures item == MbPerSec ==> v == tr.MbPerSec
	ensures item == GbPerSec ==> v == tr.GbPerSec
	ensures item == TbPerSec ==> v == tr.TbPerSec
	safe

func (*TestRecord).IsEmpty(tr) (r)
	prop C19
	requires tr != nil
	ensures r <==> tr.Runs == 0
	safe

# What a line says.
spec func dataMatch(l seq[byte]) seq[seq[byte]] = submatchesOf(regexp.MustCompile("^Benchmark([^/]+)/Benchmark([^-]+)-(\\d+)\\s+(\\d+)\\s+(\\d+(?:\\.\\d+)?)\\s+ns/op\\b"), l)
spec func defMatch(l seq[byte]) seq[seq[byte]] = submatchesOf(regexp.MustCompile("^#\\s*Handler\\[(\\S+)\\]\\s*=\\s*\"(\\S+)\"\\s*$"), l)
spec func warnMatch(l seq[byte]) seq[seq[byte]] = submatchesOf(regexp.MustCompile("^# (.*)"), l)
spec func allocMatch(l seq[byte]) seq[seq[byte]] = submatchesOf(regexp.MustCompile("\\s(\\d+)\\s+allocs/op\\b"), l)
spec func byteMatch(l seq[byte]) seq[seq[byte]] = submatchesOf(regexp.MustCompile("\\s(\\d+)\\s+B/op\\b"), l)
spec func mbMatch(l seq[byte]) seq[seq[byte]] = submatchesOf(regexp.MustCompile("\\s(\\d+(?:\\.\\d+)?)\\s+MB/s"), l)
spec func isDef(l seq[byte]) bool = len(defMatch(l)) == 3
spec func isWarn(l seq[byte]) bool = !isDef(l) && len(warnMatch(l)) == 2
spec func isData(l seq[byte]) bool = !isDef(l) && !isWarn(l) && len(dataMatch(l)) == 6
spec func part(m seq[seq[byte]], i int) string = str(m[i])
spec func runsOf(l seq[byte]) uint64 = uintOf(part(dataMatch(l), 4), 10, 64)
spec func nanosOf(l seq[byte]) float64 = floatOf(part(dataMatch(l), 5), 64)
spec func allocsOf(l seq[byte]) uint64 = len(allocMatch(l)) == 2 ? uintOf(part(allocMatch(l), 1), 10, 64) : 0
spec func memOf(l seq[byte]) uint64 = len(byteMatch(l)) == 2 ? uintOf(part(byteMatch(l), 1), 10, 64) : 0
spec func mbOf(l seq[byte]) float64 = len(mbMatch(l)) == 2 ? floatOf(part(mbMatch(l), 1), 64) : 0.0
spec func lineOk(l seq[byte]) bool = isData(l) ==>
	uintErr(part(dataMatch(l), 3), 10, 64) == nil && uintErr(part(dataMatch(l), 4), 10, 64) == nil && floatErr(part(dataMatch(l), 5), 64) == nil &&
	(len(allocMatch(l)) == 2 ==> uintErr(part(allocMatch(l), 1), 10, 64) == nil) &&
	(len(byteMatch(l)) == 2 ==> uintErr(part(byteMatch(l), 1), 10, 64) == nil) &&
	(len(mbMatch(l)) == 2 ==> floatErr(part(mbMatch(l), 1), 64) == nil)
spec func recordOf(l seq[byte]) TestRecord = mk(TestRecord, runsOf(l), nanosOf(l), memOf(l), allocsOf(l), mbOf(l), mbOf(l) / 1000.0, mbOf(l) / 1000000.0)
spec func testOf(l seq[byte]) TestTag = "Bench." + part(dataMatch(l), 2)
spec func hdlrOf(l seq[byte]) HandlerTag = part(dataMatch(l), 1)

# The records of the first n lines: is there one for the pair, and the latest.
rec func hasRec(ls seq[seq[byte]], n int, t TestTag, h HandlerTag) bool =
	n > 0 && ((isData(ls[n-1]) && testOf(ls[n-1]) == t && hdlrOf(ls[n-1]) == h) || hasRec(ls, n-1, t, h))
rec func lastRec(ls seq[seq[byte]], n int, t TestTag, h HandlerTag) TestRecord =
	n <= 0 ? zero(TestRecord) : (isData(ls[n-1]) && testOf(ls[n-1]) == t && hdlrOf(ls[n-1]) == h) ? recordOf(ls[n-1]) : lastRec(ls, n-1, t, h)
rec func linesOk(ls seq[seq[byte]], n int) bool = n <= 0 || (lineOk(ls[n-1]) && linesOk(ls, n-1))
lemma linesOkEach(ls seq[seq[byte]], n int) {linesOk(ls, n)}
	prop C19
	induction n
	requires linesOk(ls, n)
	ensures forall i int {ls[i]} :: 0 <= i && i < n ==> lineOk(ls[i])

spec func benchMade(b *Benchmarks) bool = b != nil && b.byTest != nil && b.ByHandler != nil && b.testNames != nil && b.testCPUs != nil && b.handlerNames != nil
# The two views: no map is shared, and a record is in both or in neither.
spec func apart(b *Benchmarks) bool =
	(forall t TestTag {b.byTest[t]} :: has(b.byTest, t) ==> b.byTest[t] != nil && allocated(b.byTest[t])) &&
	(forall h HandlerTag {b.ByHandler[h]} :: has(b.ByHandler, h) ==> b.ByHandler[h] != nil && allocated(b.ByHandler[h])) &&
	(forall s, t TestTag {b.byTest[s], b.byTest[t]} :: has(b.byTest, s) && has(b.byTest, t) && s != t ==> b.byTest[s] != b.byTest[t]) &&
	(forall g, h HandlerTag {b.ByHandler[g], b.ByHandler[h]} :: has(b.ByHandler, g) && has(b.ByHandler, h) && g != h ==> b.ByHandler[g] != b.ByHandler[h])
spec func agree(b *Benchmarks) bool =
	(forall t TestTag, h HandlerTag :: (has(b.byTest[t], h) <==> has(b.ByHandler[h], t)) && b.byTest[t][h] == b.ByHandler[h][t])

func NewBenchmarks() (b)
	prop C19
	ensures fresh(b) && benchMade(b) && apart(b) && agree(b)
	ensures empty: (forall t TestTag :: !has(b.byTest, t)) && forall h HandlerTag :: !has(b.ByHandler, h)
	ensures lists: b.tests == nil && b.handlers == nil && b.lookup == nil
	safe

func (*Benchmarks).ParseBenchmarkData(b, in) (err)
	prop C19
	modifies b.tests, b.handlers, b.lookup, b.warningText, allelems(byte), map(b.handlerNames), map(b.testNames), map(b.testCPUs), map(b.byTest), map(b.ByHandler), allmaps(HandlerRecords), allmaps(TestRecords)
	requires benchMade(b) && apart(b) && agree(b) && benchFile != nil
	ensures made: benchMade(b) && apart(b)
	ensures agree: agree(b)
	ensures lists: in != nil ==> b.tests == nil && b.handlers == nil && b.lookup == nil
	ensures success: in != nil ==> (err == nil <==> linesOk(linesOf(in), len(linesOf(in))) && readErr(in) == nil)
	ensures records: in != nil && err == nil ==> forall t TestTag, h HandlerTag ::
		(has(b.byTest[t], h) <==> old(has(b.byTest[t], h)) || hasRec(linesOf(in), len(linesOf(in)), t, h)) &&
		b.byTest[t][h] == (hasRec(linesOf(in), len(linesOf(in)), t, h) ? lastRec(linesOf(in), len(linesOf(in)), t, h) : old(b.byTest[t][h]))
	loop 0
		modifies allelems(byte), allmaps(HandlerRecords), allmaps(TestRecords)
		invariant benchMade(b) && apart(b)
		invariant agree(b)
		invariant old(in) != nil ==> in == old(in) && scanner.src == in
		invariant 0 <= scanner.pos && scanner.pos <= len(linesOf(scanner.src))
		invariant b.tests == nil && b.handlers == nil && b.lookup == nil
		invariant linesOk(linesOf(scanner.src), scanner.pos)
		invariant forall t TestTag, h HandlerTag :: let ls = linesOf(scanner.src); let n = scanner.pos;
			(has(b.byTest[t], h) <==> old(has(b.byTest[t], h)) || hasRec(ls, n, t, h)) &&
			b.byTest[t][h] == (hasRec(ls, n, t, h) ? lastRec(ls, n, t, h) : old(b.byTest[t][h]))
	safe

# Lists of tags: complete, without repetition, ordered by display name.
spec func hdlrName(b *Benchmarks, h HandlerTag) string = has(b.handlerNames, h) ? b.handlerNames[h] : h
spec func testName(b *Benchmarks, t TestTag) string = has(b.testNames, t) ? b.testNames[t] : t
spec func allHandlers(b *Benchmarks, s []HandlerTag) bool =
	(forall i int :: 0 <= i && i < len(s) ==> has(b.ByHandler, s[i])) &&
	(forall h HandlerTag :: has(b.ByHandler, h) ==> exists i int :: 0 <= i && i < len(s) && s[i] == h) &&
	(forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j] && hdlrName(b, s[i]) <= hdlrName(b, s[j]))
spec func allTests(b *Benchmarks, s []TestTag) bool =
	(forall i int :: 0 <= i && i < len(s) ==> has(b.byTest, s[i])) &&
	(forall t TestTag :: has(b.byTest, t) ==> exists i int :: 0 <= i && i < len(s) && s[i] == t) &&
	(forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j] && testName(b, s[i]) <= testName(b, s[j]))

func (*Benchmarks).HasHandler(b, tag) (r)
	prop C19
	requires b != nil
	ensures r <==> has(b.ByHandler, tag)
	safe
func (*Benchmarks).HasTest(b, tag) (r)
	prop C19
	requires b != nil
	ensures r <==> has(b.byTest, tag)
	safe
func (*Benchmarks).HandlerName(b, handler) (r)
	prop C19
	requires b != nil
	ensures r == hdlrName(b, handler)
	safe
func (*Benchmarks).TestName(b, test) (r)
	prop C19
	requires b != nil
	ensures r == testName(b, test)
	safe
func (*Benchmarks).HandlerRecordsFor(b, test) (r)
	prop C19
	requires b != nil
	ensures r == b.byTest[test]
	safe
func (*Benchmarks).TestRecordsFor(b, handler) (r)
	prop C19
	requires b != nil
	ensures r == b.ByHandler[handler]
	safe
func (*Benchmarks).HandlerTags(b) (r)
	prop C19
	requires b != nil && (b.handlers != nil ==> allHandlers(b, b.handlers))
	modifies b.handlers
	ensures all: allHandlers(b, r)
	ensures cached: b.handlers != nil ==> allHandlers(b, b.handlers)
	loop 0
		invariant forall i int :: 0 <= i && i < len(b.handlers) ==> has(b.ByHandler, b.handlers[i]) && $seen[b.handlers[i]]
		invariant forall h HandlerTag :: $seen[h] ==> exists i int :: 0 <= i && i < len(b.handlers) && b.handlers[i] == h
		invariant forall i, j int :: 0 <= i && i < j && j < len(b.handlers) ==> b.handlers[i] != b.handlers[j]
		invariant cap(b.handlers) > 0 ==> fresh(b.handlers)
	safe
func (*Benchmarks).TestTags(b) (r)
	prop C19
	requires b != nil && (b.tests != nil ==> allTests(b, b.tests))
	modifies b.tests
	ensures all: allTests(b, r)
	ensures cached: b.tests != nil ==> allTests(b, b.tests)
	loop 0
		invariant forall i int :: 0 <= i && i < len(b.tests) ==> has(b.byTest, b.tests[i]) && $seen[b.tests[i]]
		invariant forall t TestTag :: $seen[t] ==> exists i int :: 0 <= i && i < len(b.tests) && b.tests[i] == t
		invariant forall i, j int :: 0 <= i && i < j && j < len(b.tests) ==> b.tests[i] != b.tests[j]
		invariant cap(b.tests) > 0 ==> fresh(b.tests)
	safe
func (*Benchmarks).HandlerLookup(b) (r)
	prop C19
	requires b != nil
	modifies b.lookup
	ensures known: b.lookup == r && (old(b.lookup) != nil ==> r == old(b.lookup))
	ensures right: old(b.lookup) == nil ==> forall n string :: has(r, n) ==> has(b.handlerNames, r[n]) && b.handlerNames[r[n]] == n
	ensures complete: old(b.lookup) == nil ==> forall h HandlerTag :: has(b.handlerNames, h) ==> has(r, b.handlerNames[h])
	loop 0
		invariant b.lookup != nil && fresh(b.lookup)
		invariant forall n string :: has(b.lookup, n) ==> has(b.handlerNames, b.lookup[n]) && b.handlerNames[b.lookup[n]] == n
		invariant forall h HandlerTag :: $seen[h] && has(b.handlerNames, h) ==> has(b.lookup, b.handlerNames[h])
	safe
