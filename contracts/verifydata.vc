package encoding/json
func MarshalIndent(v, prefix, indent) (b, err) trusted

package bytes
func Trim(s, cutset) (r) trusted
	ensures len(r) <= len(s) && (len(r) > 0 ==> ref(r) == ref(s))
func TrimPrefix(s, prefix) (r) trusted
	ensures len(r) <= len(s) && (len(r) > 0 ==> ref(r) == ref(s))

package strings
func Join(elems, sep) (r) pure
func HasPrefix(s, prefix) (r) pure
func HasSuffix(s, suffix) (r) pure
func TrimPrefix(s, prefix) (r) pure


package internal/data

# Well-formed collections: nothing is missing on the way from a tag to a warning.
spec func okDL(d *DataLevel) bool = d != nil && d.lookup != nil &&
	forall n string {d.lookup[n]} :: has(d.lookup, n) ==> d.lookup[n] != nil && allocated(d.lookup[n]) && d.lookup[n].warning.name == n
spec func okLv(l *Levels) bool = l != nil && l.lookup != nil &&
	forall k string {l.lookup[k]} :: has(l.lookup, k) ==> okDL(l.lookup[k]) && allocated(l.lookup[k])
spec func okWD(d *WarningData) bool = d != nil && d.Count != nil && d.hdlrMap != nil && d.testMap != nil
spec func okW(w *Warnings) bool = w != nil && w.byTest != nil && w.ByHandler != nil && w.ByWarning != nil && w.handlerData != nil && w.testNames != nil &&
	(forall h HandlerTag {w.ByHandler[h]} :: has(w.ByHandler, h) ==> okLv(w.ByHandler[h]) && allocated(w.ByHandler[h])) &&
	(forall t TestTag {w.byTest[t]} :: has(w.byTest, t) ==> okLv(w.byTest[t]) && allocated(w.byTest[t])) &&
	(forall n string {w.ByWarning[n]} :: has(w.ByWarning, n) ==> okWD(w.ByWarning[n]) && allocated(w.ByWarning[n]))

func NewWarnings() (w)
	prop C20
	ensures fresh(w) && okW(w)
	ensures empty: (forall t TestTag :: !has(w.byTest, t)) && (forall h HandlerTag :: !has(w.ByHandler, h)) && forall n string :: !has(w.ByWarning, n)
	safe

func (*DataLevel).findWarningGroup(l, warningName) (r)
	prop C20
	requires okDL(l)
	modifies map(l.lookup), l.warnings
	ensures ok: okDL(l)
	ensures found: has(l.lookup, warningName) && l.lookup[warningName] == r && r != nil
	ensures kept: old(has(l.lookup, warningName)) ==> r == old(l.lookup[warningName]) && l.warnings == old(l.warnings)
	ensures new: !old(has(l.lookup, warningName)) ==> fresh(r) && r.warning.name == warningName && len(r.instances) == 0 && l.warnings == nil
	ensures others: forall k string :: k != warningName ==> (has(l.lookup, k) <==> old(has(l.lookup, k))) && l.lookup[k] == old(l.lookup[k])
	safe

func (*Levels).findLevel(l, lvl, warningName) (r)
	prop C20
	requires okLv(l)
	modifies map(l.lookup), l.levels, when(has(l.lookup, levelName(lvl)), map(l.lookup[levelName(lvl)].lookup)), when(has(l.lookup, levelName(lvl)), l.lookup[levelName(lvl)].warnings)
	ensures ok: okLv(l)
	ensures found: has(l.lookup, levelName(lvl)) && has(l.lookup[levelName(lvl)].lookup, warningName) && l.lookup[levelName(lvl)].lookup[warningName] == r && r != nil
	ensures levels: forall k string :: k != levelName(lvl) ==> (has(l.lookup, k) <==> old(has(l.lookup, k))) && l.lookup[k] == old(l.lookup[k])
	ensures level: old(has(l.lookup, levelName(lvl))) ? l.lookup[levelName(lvl)] == old(l.lookup[levelName(lvl)]) && l.levels == old(l.levels) : fresh(l.lookup[levelName(lvl)]) && l.lookup[levelName(lvl)].Level == lvl && l.levels == nil
	ensures same: old(has(l.lookup, levelName(lvl)) && has(l.lookup[levelName(lvl)].lookup, warningName)) ? r == old(l.lookup[levelName(lvl)].lookup[warningName]) : fresh(r) && r.warning.name == warningName && len(r.instances) == 0
	ensures maps: forall m map[string]*dataWarning, k string :: old(allocated(m) && has(m, k)) ==> has(m, k) && m[k] == old(m[k])
	safe

spec func slotH(w *Warnings, h HandlerTag, l warning.Level, n string) *dataWarning = w.ByHandler[h].lookup[levelName(l)].lookup[n]
spec func slotT(w *Warnings, t TestTag, l warning.Level, n string) *dataWarning = w.byTest[t].lookup[levelName(l)].lookup[n]

# Nothing recorded disappears.
spec func growing() bool =
	(forall m map[HandlerTag]*Levels, k HandlerTag :: old(allocated(m) && has(m, k)) ==> has(m, k) && m[k] == old(m[k])) &&
	(forall m map[TestTag]*Levels, k TestTag :: old(allocated(m) && has(m, k)) ==> has(m, k) && m[k] == old(m[k])) &&
	(forall m map[string]*DataLevel, k string :: old(allocated(m) && has(m, k)) ==> has(m, k) && m[k] == old(m[k])) &&
	(forall m map[string]*dataWarning, k string :: old(allocated(m) && has(m, k)) ==> has(m, k) && m[k] == old(m[k])) &&
	(forall m map[string]*WarningData, k string :: old(allocated(m) && has(m, k)) ==> has(m, k) && m[k] == old(m[k]))

func (*Warnings).findHandler(w, handler, level, warningName) (r)
	prop C20
	requires okW(w)
	modifies map(w.ByHandler), when(has(w.ByHandler, handler), map(w.ByHandler[handler].lookup)), when(has(w.ByHandler, handler), w.ByHandler[handler].levels), when(has(w.ByHandler, handler) && has(w.ByHandler[handler].lookup, levelName(level)), map(w.ByHandler[handler].lookup[levelName(level)].lookup)), when(has(w.ByHandler, handler) && has(w.ByHandler[handler].lookup, levelName(level)), w.ByHandler[handler].lookup[levelName(level)].warnings)
	ensures ok: okW(w)
	ensures found: has(w.ByHandler, handler) && has(w.ByHandler[handler].lookup, levelName(level)) && has(w.ByHandler[handler].lookup[levelName(level)].lookup, warningName) && r == slotH(w, handler, level, warningName) && r != nil
	ensures growing: growing()
	ensures others: forall h HandlerTag :: h != handler ==> (has(w.ByHandler, h) <==> old(has(w.ByHandler, h)))
	safe

func (*Warnings).findTest(w, test, level, warningName) (r)
	prop C20
	requires okW(w)
	modifies map(w.byTest), when(has(w.byTest, test), map(w.byTest[test].lookup)), when(has(w.byTest, test), w.byTest[test].levels), when(has(w.byTest, test) && has(w.byTest[test].lookup, levelName(level)), map(w.byTest[test].lookup[levelName(level)].lookup)), when(has(w.byTest, test) && has(w.byTest[test].lookup, levelName(level)), w.byTest[test].lookup[levelName(level)].warnings)
	ensures ok: okW(w)
	ensures found: has(w.byTest, test) && has(w.byTest[test].lookup, levelName(level)) && has(w.byTest[test].lookup[levelName(level)].lookup, warningName) && r == slotT(w, test, level, warningName) && r != nil
	ensures growing: growing()
	ensures others: forall t TestTag :: t != test ==> (has(w.byTest, t) <==> old(has(w.byTest, t)))
	safe

func (*Warnings).FindWarning(w, name) (r)
	prop C20
	requires okW(w)
	modifies map(w.ByWarning)
	ensures ok: okW(w)
	ensures found: has(w.ByWarning, name) && w.ByWarning[name] == r && okWD(r)
	ensures new: !old(has(w.ByWarning, name)) ==> fresh(r) && forall h HandlerTag :: r.Count[h] == 0
	ensures growing: growing()
	safe

func (*Warnings).getHandlerData(w, handler) (r)
	prop C20
	requires okW(w)
	modifies map(w.handlerData)
	ensures r != nil && w.handlerData[handler] == r
	ensures kept: old(w.handlerData[handler]) != nil ==> r == old(w.handlerData[handler])
	ensures others: forall h HandlerTag :: h != handler ==> (has(w.handlerData, h) <==> old(has(w.handlerData, h))) && w.handlerData[h] == old(w.handlerData[h])
	safe

func (*dataWarning).AddInstance(w, instance)
	prop C20
	requires w != nil
	modifies w.instances, w.sorted, spare(w.instances)
	ensures added: view(w.instances) == cat(old(view(w.instances)), one(instance))
	ensures unsorted: !w.sorted
	safe

# Lists: complete, without repetition, in order.
spec func wHdlrName(w *Warnings, h HandlerTag) string = has(w.handlerData, h) ? w.handlerData[h].name : h
spec func wTestName(w *Warnings, t TestTag) string = has(w.testNames, t) ? w.testNames[t] : t
spec func named(w *Warnings) bool = forall h HandlerTag {w.handlerData[h]} :: has(w.handlerData, h) ==> w.handlerData[h] != nil && allocated(w.handlerData[h])
spec func wAllHandlers(w *Warnings, s []HandlerTag) bool =
	(forall i int :: 0 <= i && i < len(s) ==> has(w.ByHandler, s[i])) &&
	(forall h HandlerTag :: has(w.ByHandler, h) ==> exists i int :: 0 <= i && i < len(s) && s[i] == h) &&
	(forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j] && wHdlrName(w, s[i]) <= wHdlrName(w, s[j]))
spec func wAllTests(w *Warnings, s []TestTag) bool =
	(forall i int :: 0 <= i && i < len(s) ==> has(w.byTest, s[i])) &&
	(forall t TestTag :: has(w.byTest, t) ==> exists i int :: 0 <= i && i < len(s) && s[i] == t) &&
	(forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j] && wTestName(w, s[i]) <= wTestName(w, s[j]))

func (*Warnings).HandlerName(w, handler) (r)
	prop C20
	requires w != nil && named(w)
	ensures r == wHdlrName(w, handler)
	safe
func (*Warnings).TestName(w, test) (r)
	prop C20
	requires w != nil
	ensures r == wTestName(w, test)
	safe
func (*Warnings).HasHandler(w, handler) (r)
	prop C20
	requires w != nil
	ensures r <==> has(w.ByHandler, handler)
	safe
func (*Warnings).HasTest(w, test) (r)
	prop C20
	requires w != nil
	ensures r <==> has(w.byTest, test)
	safe
func (*Warnings).ForHandler(w, handler) (r)
	prop C20
	requires w != nil
	ensures r == w.ByHandler[handler]
	safe
func (*Warnings).ForTest(w, test) (r)
	prop C20
	requires w != nil
	ensures r == w.byTest[test]
	safe
func (*Warnings).TestRecordsFor(w, handler) (r)
	prop C20
	requires w != nil
	ensures r == w.ByHandler[handler]
	safe
func (*Warnings).HandlerTags(w) (r)
	prop C20
	requires w != nil && named(w) && (len(w.handlers) > 0 ==> wAllHandlers(w, w.handlers))
	modifies w.handlers, elems(w.handlers)
	ensures all: wAllHandlers(w, r)
	ensures cached: len(w.handlers) > 0 ==> wAllHandlers(w, w.handlers)
	loop 0
		invariant forall i int :: 0 <= i && i < len(w.handlers) ==> has(w.ByHandler, w.handlers[i]) && $seen[w.handlers[i]]
		invariant forall h HandlerTag :: $seen[h] ==> exists i int :: 0 <= i && i < len(w.handlers) && w.handlers[i] == h
		invariant forall i, j int :: 0 <= i && i < j && j < len(w.handlers) ==> w.handlers[i] != w.handlers[j]
		invariant fresh(w.handlers) || ref(w.handlers) == ref(old(w.handlers))
	safe
func (*Warnings).TestTags(w) (r)
	prop C20
	requires w != nil && (len(w.tests) > 0 ==> wAllTests(w, w.tests))
	modifies w.tests, elems(w.tests)
	ensures all: wAllTests(w, r)
	ensures list: r == w.tests
	ensures cached: len(w.tests) > 0 ==> wAllTests(w, w.tests)
	loop 0
		invariant forall i int :: 0 <= i && i < len(w.tests) ==> has(w.byTest, w.tests[i]) && $seen[w.tests[i]]
		invariant forall t TestTag :: $seen[t] ==> exists i int :: 0 <= i && i < len(w.tests) && w.tests[i] == t
		invariant forall i, j int :: 0 <= i && i < j && j < len(w.tests) ==> w.tests[i] != w.tests[j]
		invariant fresh(w.tests) || ref(w.tests) == ref(old(w.tests))
	safe
func (*Warnings).TestTagsForSource(w, source) (r)
	prop C20
	requires w != nil && (len(w.tests) > 0 ==> wAllTests(w, w.tests))
	modifies w.tests, elems(w.tests)
	ensures known: forall i int :: 0 <= i && i < len(r) ==> has(w.byTest, r[i])
	loop 0
		invariant 0 <= $i && $i <= len(w.tests)
		invariant forall i int :: 0 <= i && i < len(result) ==> has(w.byTest, result[i])
		invariant fresh(result) && wAllTests(w, w.tests)
	safe
func (*Warnings).HandlerWarningCount(w, handler, warning) (r)
	prop C20
	requires okW(w) && warning != nil
	ensures r == (has(w.ByWarning, warning.Name) ? w.ByWarning[warning.Name].Count[handler] : 0)
	safe

func (*Levels).Level(l, level) (r)
	prop C20
	requires l != nil
	ensures r == l.lookup[levelName(level)]
	safe

# The warnings of a level, ordered by name.
spec func listed(d *DataLevel, s []*dataWarning) bool =
	(forall i int :: 0 <= i && i < len(s) ==> s[i] != nil && exists n string :: has(d.lookup, n) && d.lookup[n] == s[i]) &&
	(forall n string :: has(d.lookup, n) ==> exists i int :: 0 <= i && i < len(s) && s[i] == d.lookup[n]) &&
	(forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i].warning.name < s[j].warning.name)
func (*DataLevel).Warnings(l) (r)
	prop C20
	requires okDL(l) && (l.warnings != nil ==> listed(l, l.warnings))
	modifies l.warnings
	ensures listed: listed(l, r)
	ensures cached: r == l.warnings
	loop 0
		invariant fresh(l.warnings)
		invariant forall i int :: 0 <= i && i < len(l.warnings) ==> l.warnings[i] != nil && exists n string :: $seen[n] && has(l.lookup, n) && l.lookup[n] == l.warnings[i]
		invariant forall n string :: $seen[n] ==> exists i int :: 0 <= i && i < len(l.warnings) && l.warnings[i] == l.lookup[n]
		invariant forall i, j int :: 0 <= i && i < j && j < len(l.warnings) ==> l.warnings[i] != l.warnings[j]
	safe
func (*DataLevel).Count(l) (r)
	prop C20
	requires okDL(l) && (l.warnings != nil ==> listed(l, l.warnings))
	modifies l.warnings
	ensures count: r == len(l.warnings) && listed(l, l.warnings)
	safe
func (*Levels).LevelCount(l, level) (r)
	prop C20
	requires okLv(l)
	requires has(l.lookup, levelName(level)) ==> (let d = l.lookup[levelName(level)]; d.warnings != nil ==> listed(d, d.warnings))
	modifies when(has(l.lookup, levelName(level)), l.lookup[levelName(level)].warnings)
	ensures count: let d = l.lookup[levelName(level)]; has(l.lookup, levelName(level)) ? r == len(d.warnings) && listed(d, d.warnings) : r == 0
	safe
# The instances of a warning, ordered by name: none is lost or made up.
func (*dataWarning).Instances(w) (r)
	prop C20
	requires w != nil && forall i int :: 0 <= i && i < len(w.instances) ==> w.instances[i] != nil
	modifies w.sorted, elems(w.instances)
	ensures same: r == w.instances && w.sorted
	ensures kept: forall i int :: 0 <= i && i < len(r) ==> exists j int :: 0 <= j && j < len(r) && r[j] == old(w.instances[i])
	ensures known: forall i int :: 0 <= i && i < len(r) ==> exists j int :: 0 <= j && j < len(r) && r[i] == old(w.instances[j])
	ensures ordered: !old(w.sorted) ==> forall i, j int :: 0 <= i && i < j && j < len(r) ==> r[i].name <= r[j].name
	safe
spec func wdHandlers(d *WarningData, s []HandlerTag) bool =
	(forall i int :: 0 <= i && i < len(s) ==> has(d.hdlrMap, s[i])) &&
	(forall h HandlerTag :: has(d.hdlrMap, h) ==> exists i int :: 0 <= i && i < len(s) && s[i] == h) &&
	(forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j] && s[i].Name() <= s[j].Name())
spec func wdTests(d *WarningData, s []TestTag) bool =
	(forall i int :: 0 <= i && i < len(s) ==> has(d.testMap, s[i])) &&
	(forall h TestTag :: has(d.testMap, h) ==> exists i int :: 0 <= i && i < len(s) && s[i] == h) &&
	(forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j] && s[i].Name() <= s[j].Name())
func (*WarningData).Handlers(wd) (r)
	prop C20
	requires wd != nil && (wd.handlers != nil ==> wdHandlers(wd, wd.handlers))
	modifies wd.handlers
	ensures all: wdHandlers(wd, r) && r == wd.handlers
	loop 0
		invariant fresh(wd.handlers)
		invariant forall i int :: 0 <= i && i < len(wd.handlers) ==> has(wd.hdlrMap, wd.handlers[i]) && $seen[wd.handlers[i]]
		invariant forall h HandlerTag :: $seen[h] ==> exists i int :: 0 <= i && i < len(wd.handlers) && wd.handlers[i] == h
		invariant forall i, j int :: 0 <= i && i < j && j < len(wd.handlers) ==> wd.handlers[i] != wd.handlers[j]
	safe
func (*WarningData).Tests(wd) (r)
	prop C20
	requires wd != nil && (wd.tests != nil ==> wdTests(wd, wd.tests))
	modifies wd.tests
	ensures all: wdTests(wd, r) && r == wd.tests
	loop 0
		invariant fresh(wd.tests)
		invariant forall i int :: 0 <= i && i < len(wd.tests) ==> has(wd.testMap, wd.tests[i]) && $seen[wd.tests[i]]
		invariant forall h TestTag :: $seen[h] ==> exists i int :: 0 <= i && i < len(wd.tests) && wd.tests[i] == h
		invariant forall i, j int :: 0 <= i && i < j && j < len(wd.tests) ==> wd.tests[i] != wd.tests[j]
	safe
func (*Levels).Levels(l) (r)
	prop C20
	requires okLv(l) && warning.LevelOrder != nil
	modifies l.levels
	ensures cached: r == l.levels && (old(len(l.levels)) > 0 ==> r == old(l.levels))
	ensures known: old(len(l.levels)) == 0 ==> forall i int :: 0 <= i && i < len(l.levels) ==> exists k string :: has(l.lookup, k) && l.levels[i] == l.lookup[k]
	ensures all: old(len(l.levels)) == 0 ==> forall j int :: 0 <= j && j < len(warning.LevelOrder) && has(l.lookup, levelName(warning.LevelOrder[j])) ==> exists i int :: 0 <= i && i < len(r) && r[i] == l.lookup[levelName(warning.LevelOrder[j])]
	loop 0
		invariant 0 <= $i && $i <= len(warning.LevelOrder) && fresh(l.levels)
		invariant forall i int :: 0 <= i && i < len(l.levels) ==> exists k string :: has(l.lookup, k) && l.levels[i] == l.lookup[k]
		invariant forall j int :: 0 <= j && j < $i && has(l.lookup, levelName(warning.LevelOrder[j])) ==> exists i int :: 0 <= i && i < len(l.levels) && l.levels[i] == l.lookup[levelName(warning.LevelOrder[j])]
	safe

# Saving an instance: one more in the counts, and the handler and the test are marked.
func (*Warnings).ParseWarningData$1(line) noframe
	prop C20
	requires okW(w) && (dWarning != nil ==> allocated(dWarning))
	ensures growing: growing()
	ensures counted: old(instance) != nil && dWarning != nil ==> has(w.ByWarning, dWarning.warning.name) &&
		w.ByWarning[dWarning.warning.name].Count[handler] == 1 + old(has(w.ByWarning, dWarning.warning.name) ? w.ByWarning[dWarning.warning.name].Count[handler] : 0)
	ensures marked: old(instance) != nil && dWarning != nil ==> let d = w.ByWarning[dWarning.warning.name];
		has(d.hdlrMap, handler) && has(d.testMap, test) && d.handlers == nil && d.tests == nil
	safe
