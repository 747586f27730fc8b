package infra/warning

spec func known(w *Warning) bool = w != nil && allocated(w) && has(byName, w.Name) && byName[w.Name] == w

# The list holds exactly the warnings defined at the level, once each, ordered by name.
spec func complete(s seq[*Warning], l Level) bool =
	(forall i int :: 0 <= i && i < len(s) ==> known(s[i]) && s[i].Level == l) &&
	(forall k string {byName[k]} :: has(byName, k) && byName[k].Level == l ==> exists i int :: 0 <= i && i < len(s) && s[i] == byName[k]) &&
	(forall i, j int :: 0 <= i && i < j && j < len(s) ==> s[i].Name < s[j].Name)

spec func names() bool = byName != nil && warningTree != nil &&
	(forall k string {byName[k]} :: has(byName, k) ==> known(byName[k]) && byName[k].Name == k &&
		exists i int :: 0 <= i && i < len(allWarnings) && allWarnings[i] == byName[k]) &&
	(forall i int :: 0 <= i && i < len(allWarnings) ==> known(allWarnings[i])) &&
	(forall i, j int :: 0 <= i && i < j && j < len(allWarnings) ==> allWarnings[i] != allWarnings[j])

spec func tree() bool = len(warningTree) == 0 || (forall l Level :: complete(view(warningTree[l]), l))

func fixDescription(d) (r) pure

func NewWarning(level, name, summary, description) (r)
	prop C17
	requires names() && tree() && !warningLock.held
	ensures unlocked: !warningLock.held
	modifies warningLock.held, allWarnings, elems(allWarnings), warningTree, map(byName)
	ensures names: names()
	ensures tree: tree()
	ensures known: known(r) && r.Name == name
	ensures existing: old(has(byName, name)) ==> r == old(byName[name])
	ensures new: !old(has(byName, name)) ==> fresh(r) && r.Level == level && r.Summary == summary
	ensures others: forall k string :: k != name ==> (has(byName, k) <==> old(has(byName, k))) && byName[k] == old(byName[k])
	safe

func ByName(name) (r)
	prop C17
	requires names()
	ensures has(byName, name) ? r == byName[name] && r.Name == name : r == nil
	safe

# Grouping: the list of a level holds exactly the first n warnings that have the level, once each.
spec func groupKnown(n int) bool =
	forall l Level {warningTree[l]} :: has(warningTree, l) ==> forall i int :: 0 <= i && i < len(warningTree[l]) ==> warningTree[l][i].Level == l &&
		exists k int :: 0 <= k && k < n && allWarnings[k] == warningTree[l][i]
spec func groupAll(n int) bool =
	forall k int :: 0 <= k && k < n ==> exists i int :: 0 <= i && i < len(warningTree[allWarnings[k].Level]) && warningTree[allWarnings[k].Level][i] == allWarnings[k]
spec func groupOnce() bool =
	forall l Level {warningTree[l]} :: has(warningTree, l) ==> forall i, j int :: 0 <= i && i < j && j < len(warningTree[l]) ==> warningTree[l][i] != warningTree[l][j]
spec func groupOrder(l Level) bool =
	forall i, j int :: 0 <= i && i < j && j < len(warningTree[l]) ==> warningTree[l][i].Name < warningTree[l][j].Name
spec func lists() bool = warningTree != nil &&
	(forall l Level {warningTree[l]} :: has(warningTree, l) ==> allocated(warningTree[l]) && fresh(warningTree[l])) &&
	(forall l, m Level {warningTree[l], warningTree[m]} :: has(warningTree, l) && has(warningTree, m) && l != m ==> ref(warningTree[l]) != ref(warningTree[m]))

func buildTree()
	prop C17
	requires names() && forall l Level :: !has(warningTree, l)
	modifies map(warningTree)
	ensures names: names()
	ensures complete: forall l Level :: complete(view(warningTree[l]), l)
	loop 0
		modifies allocations
		invariant range: 0 <= $i && $i <= len(allWarnings)
		invariant lists: lists()
		invariant groupKnown: groupKnown($i)
		invariant groupAll: groupAll($i)
		invariant groupOnce: groupOnce()
	loop 1
		modifies allocations
		invariant lists: lists()
		invariant groupKnown: groupKnown(len(allWarnings))
		invariant groupAll: groupAll(len(allWarnings))
		invariant groupOnce: groupOnce()
		invariant groupOrder: forall l Level {warningTree[l]} :: has(warningTree, l) && $seen[l] ==> groupOrder(l)
	safe

func WarningsForLevel(level) (r)
	prop C17
	requires names() && tree() && !warningLock.held
	ensures unlocked: !warningLock.held
	modifies warningLock.held, map(warningTree)
	ensures names: names()
	ensures complete: complete(view(r), level)
	safe

func (Level).Warnings(l) (r)
	prop C17
	requires names() && tree() && !warningLock.held
	modifies warningLock.held, map(warningTree)
	ensures names: names()
	ensures complete: complete(view(r), l)
	safe

spec func levelName(l Level) string = has(levelNames, l) ? levelNames[l] : str(format("Unknown level %d", one(iface(l))))
func (Level).String(l) (r)
	prop C17, C20
	ensures name: r == levelName(l)
	prop C17
	ensures known: has(levelNames, l) ==> r == levelNames[l]
	safe

func ParseLevel(text) (r, err)
	prop C17
	ensures known: has(levelParse, strings.ToLower(text)) ==> r == levelParse[strings.ToLower(text)] && err == nil
	ensures unknown: !has(levelParse, strings.ToLower(text)) ==> err != nil
	safe
