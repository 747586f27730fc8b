package internal/misc
# The name of the test function on the call stack; it does not change while one addition is made.
func CurrentFunctionName(prefix) (s) pure

package infra/warning

# The warning is switched on for the manager.
spec func on(mgr *Manager, w *Warning) bool = mgr.warnOnly[w.Name]

# A recorded warning: counted correctly, kept under its name.
spec func okRecord(mgr *Manager, k string) bool =
	mgr.warnings[k] != nil && mgr.warnings[k].Name == k && mgr.warnings[k].Count == len(mgr.warnings[k].Data) &&
	allocated(mgr.warnings[k]) && allocated(mgr.warnings[k].Data)

spec func inv(mgr *Manager) bool =
	(forall k string {mgr.warnings[k]} :: has(mgr.warnings, k) ==> okRecord(mgr, k)) &&
	(forall j, k string {mgr.warnings[j], mgr.warnings[k]} :: has(mgr.warnings, j) && has(mgr.warnings, k) && j != k ==>
		mgr.warnings[j] != mgr.warnings[k] && (cap(mgr.warnings[j].Data) > 0 && cap(mgr.warnings[k].Data) > 0 ==> ref(mgr.warnings[j].Data) != ref(mgr.warnings[k].Data)))

# The administrative warnings exist (package initialisation).
spec func ready() bool = Unused != nil && SkippingTest != nil && Undefined != nil

spec func instances(mgr *Manager, k string) seq[Instance] = has(mgr.warnings, k) ? view(mgr.warnings[k].Data) : nil

spec func instance(fn, text, rec string) Instance = mk(Instance, fn, strings.TrimRight(rec, "\n"), text)

spec func thisFn(mgr *Manager) string = misc.CurrentFunctionName(mgr.fnPrefix)

# The effect of one addition.
spec func sameMap(mgr *Manager) bool = old(mgr.warnings) != nil ? mgr.warnings == old(mgr.warnings) : fresh(mgr.warnings)
spec func addedOne(mgr *Manager, w *Warning, i Instance) bool =
	instances(mgr, w.Name) == cat(old(instances(mgr, w.Name)), one(i)) &&
	(forall k string :: k != w.Name ==> instances(mgr, k) == old(instances(mgr, k)))
spec func addedKey(mgr *Manager, w *Warning) bool =
	(forall k string :: has(mgr.warnings, k) <==> old(has(mgr.warnings, k)) || k == w.Name) &&
	(forall k string :: old(has(mgr.warnings, k)) ==> mgr.warnings[k] == old(mgr.warnings[k])) &&
	(!old(has(mgr.warnings, w.Name)) ==> mgr.warnings[w.Name].Level == w.Level && mgr.warnings[w.Name].Summary == w.Summary)

func (*Manager).AddWarningFnText(mgr, w, fnName, text, logRecordJSON)
	prop C15, C16
	requires mgr != nil && w != nil
	requires inv(mgr)
	modifies mgr.warnings, map(mgr.warnings), all(Instances.Count), all(Instances.Data), allelems(Instance)
	ensures inv: inv(mgr)
	ensures map: sameMap(mgr)
	ensures instances: addedOne(mgr, w, instance(fnName, text, logRecordJSON))
	ensures keys: addedKey(mgr, w)
	safe

func (*Manager).AddWarning(mgr, w, text, logRecordJSON)
	prop C15, C16
	requires mgr != nil && w != nil && inv(mgr)
	modifies mgr.warnings, map(mgr.warnings), all(Instances.Count), all(Instances.Data), allelems(Instance)
	ensures inv: inv(mgr)
	ensures map: sameMap(mgr)
	ensures instances: addedOne(mgr, w, instance(thisFn(mgr), text, logRecordJSON))
	ensures keys: addedKey(mgr, w)
	safe

func (*Manager).AddWarningFn(mgr, w, fnName, logRecordJSON)
	prop C15
	requires mgr != nil && w != nil && inv(mgr)
	modifies mgr.warnings, map(mgr.warnings), all(Instances.Count), all(Instances.Data), allelems(Instance)
	ensures inv: inv(mgr)
	ensures map: sameMap(mgr)
	ensures instances: addedOne(mgr, w, instance(fnName, "", logRecordJSON))
	ensures keys: addedKey(mgr, w)
	safe

func (*Manager).AddUnused(mgr, w, logRecordJSON)
	prop C15
	requires mgr != nil && w != nil && inv(mgr) && ready()
	modifies mgr.warnings, map(mgr.warnings), all(Instances.Count), all(Instances.Data), allelems(Instance)
	ensures inv: inv(mgr)
	ensures map: sameMap(mgr)
	ensures instances: addedOne(mgr, Unused, instance(thisFn(mgr), w.Name, logRecordJSON))
	ensures keys: addedKey(mgr, Unused)
	safe

# A test skipped because of w: one instance of SkippingTest, one of w.
spec func skipped(mgr *Manager, w *Warning) bool = inv(mgr) &&
	(forall k string :: instances(mgr, k) == cat(old(instances(mgr, k)),
		k == SkippingTest.Name ? one(instance(thisFn(mgr), w.Summary, "")) : nil,
		k == w.Name ? one(instance(thisFn(mgr), SkippingTest.Summary, "")) : nil))

func (*Manager).SkipTest(mgr, because)
	prop C15, C16
	requires mgr != nil && because != nil && inv(mgr) && ready()
	modifies mgr.warnings, map(mgr.warnings), all(Instances.Count), all(Instances.Data), allelems(Instance)
	ensures skipped: skipped(mgr, because)
	safe

func (*Manager).SkipTestIf(mgr, warns) (r)
	prop C16, C15
	requires mgr != nil && inv(mgr) && ready()
	requires forall i int :: 0 <= i && i < len(warns) ==> warns[i] != nil
	modifies mgr.warnings, map(mgr.warnings), all(Instances.Count), all(Instances.Data), allelems(Instance)
	ensures skips: r <==> exists i int :: 0 <= i && i < len(warns) && old(on(mgr, warns[i]))
	ensures recorded: r ==> exists i int :: 0 <= i && i < len(warns) && old(on(mgr, warns[i])) && skipped(mgr, warns[i]) && forall j int :: 0 <= j && j < i ==> !old(on(mgr, warns[j]))
	ensures not: !r ==> inv(mgr) && forall k string :: instances(mgr, k) == old(instances(mgr, k))
	loop 0
		invariant 0 <= $i && $i <= len(warns)
		invariant forall j int :: 0 <= j && j < $i ==> !on(mgr, warns[j])
	safe

func (*Manager).HasWarning(mgr, w) (r)
	prop C16
	requires mgr != nil && w != nil && useWarnings != nil
	ensures r <==> *useWarnings && on(mgr, w)
	safe

# The first n warnings of ws that are switched on.
rec func picked(ws seq[*Warning], n int, name fmap[*Warning]string, d set[string], v fmap[string]bool) seq[*Warning] =
	n <= 0 ? nil : (d[name[ws[n-1]]] && v[name[ws[n-1]]]) ? cat(picked(ws, n-1, name, d, v), one(ws[n-1])) : picked(ws, n-1, name, d, v)

func (*Manager).HasWarnings(mgr, warnings) (r)
	prop C16
	requires mgr != nil && useWarnings != nil
	requires forall i int :: 0 <= i && i < len(warnings) ==> warnings[i] != nil
	ensures on: *useWarnings && mgr.warnOnly != nil ==> view(r) == picked(view(warnings), len(warnings), fields(Warning.Name), dom(mgr.warnOnly), mval(mgr.warnOnly))
	ensures off: !*useWarnings || mgr.warnOnly == nil ==> len(r) == 0
	loop 0
		invariant 0 <= $i && $i <= len(warnings)
		invariant mgr.warnOnly != nil ==> view(found) == picked(view(warnings), $i, fields(Warning.Name), dom(mgr.warnOnly), mval(mgr.warnOnly))
		invariant mgr.warnOnly == nil ==> len(found) == 0
		invariant fresh(found)
	safe

func (*Manager).WarnOnly(mgr, w)
	prop C16, C15
	requires mgr != nil && w != nil && inv(mgr) && ready()
	modifies mgr.warnings, map(mgr.warnings), all(Instances.Count), all(Instances.Data), allelems(Instance), mgr.warnOnly, map(mgr.warnOnly)
	ensures set: on(mgr, w)
	ensures only: forall k string :: k != w.Name ==> mgr.warnOnly[k] == old(mgr.warnOnly[k])
	ensures inv: inv(mgr)
	ensures undefined: old(has(mgr.predefined, w.Name)) ? (forall k string :: instances(mgr, k) == old(instances(mgr, k))) :
		(forall k string :: instances(mgr, k) == cat(old(instances(mgr, k)), k == Undefined.Name ? one(instance(thisFn(mgr), w.Summary, "")) : nil))
	safe

func (*Manager).Predefine(mgr, warnings)
	prop C16, C15
	requires mgr != nil
	requires forall i int :: 0 <= i && i < len(warnings) ==> warnings[i] != nil
	modifies mgr.predefined, map(mgr.predefined)
	ensures in: forall i int :: 0 <= i && i < len(warnings) ==> has(mgr.predefined, warnings[i].Name)
	ensures kept: forall k string :: old(has(mgr.predefined, k)) ==> has(mgr.predefined, k)
	ensures only: forall k string :: has(mgr.predefined, k) ==> old(has(mgr.predefined, k)) || exists i int :: 0 <= i && i < len(warnings) && warnings[i].Name == k
	loop 0
		invariant 0 <= $i && $i <= len(warnings)
		invariant mgr.predefined != nil
		invariant forall i int :: 0 <= i && i < $i ==> has(mgr.predefined, warnings[i].Name)
		invariant forall k string :: old(has(mgr.predefined, k)) ==> has(mgr.predefined, k)
		invariant forall k string :: has(mgr.predefined, k) ==> old(has(mgr.predefined, k)) || exists i int :: 0 <= i && i < $i && warnings[i].Name == k
	safe

# The Unused instances whose warning (named in the text) was not recorded after all.
rec func kept(d set[string], s seq[Instance], n int) seq[Instance] =
	n <= 0 ? nil : d[s[n-1].Text] ? kept(d, s, n-1) : cat(kept(d, s, n-1), one(s[n-1]))

spec func before(a, b *Instances) bool = a.Level > b.Level || (a.Level == b.Level && a.Name < b.Name)

func (*Manager).GetWarnings(mgr) (r)
	prop C15
	requires mgr != nil && inv(mgr) && ready()
	modifies map(mgr.warnings), all(Instances.Count), all(Instances.Data)
	ensures inv: inv(mgr)
	ensures others: forall k string :: k != Unused.Name ==> (has(mgr.warnings, k) <==> old(has(mgr.warnings, k))) && instances(mgr, k) == old(instances(mgr, k))
	ensures same: forall k string :: has(mgr.warnings, k) ==> mgr.warnings[k] == old(mgr.warnings[k])
	ensures unused: instances(mgr, Unused.Name) == kept(old(dom(mgr.warnings)), old(instances(mgr, Unused.Name)), len(old(instances(mgr, Unused.Name))))
	ensures unusedKey: has(mgr.warnings, Unused.Name) ==> len(instances(mgr, Unused.Name)) > 0
	ensures listed: forall i int :: 0 <= i && i < len(r) ==> r[i] != nil && has(mgr.warnings, r[i].Name) && mgr.warnings[r[i].Name] == r[i]
	ensures complete: forall k string :: has(mgr.warnings, k) ==> exists i int :: 0 <= i && i < len(r) && r[i] == mgr.warnings[k]
	ensures ordered: forall i, j int :: 0 <= i && i < j && j < len(r) ==> before(r[i], r[j])
	loop 0
		invariant 0 <= $i && $i <= len(unused.Data)
		invariant view(really) == kept(dom(mgr.warnings), view(unused.Data), $i)
		invariant fresh(really)
	loop 1
		invariant forall i int :: 0 <= i && i < len(warningStrings) ==> has(mgr.warnings, warningStrings[i]) && $seen[warningStrings[i]]
		invariant forall k string :: $seen[k] ==> exists i int :: 0 <= i && i < len(warningStrings) && warningStrings[i] == k
		invariant forall i, j int :: 0 <= i && i < j && j < len(warningStrings) ==> warningStrings[i] != warningStrings[j]
	loop 2
		invariant 0 <= $i && $i <= len(warningStrings)
		invariant len(warnings) == len(warningStrings)
		invariant forall i int :: 0 <= i && i < $i ==> warnings[i] == mgr.warnings[warningStrings[i]]
	safe
