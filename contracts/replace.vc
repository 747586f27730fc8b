package replace

# Does the attribute match, i.e. must the replacement be applied to it?
spec func matches(key string, fold bool, chk replace.GroupCheckFn, g []string, a slog.Attr) bool =
	(fold ? strings.EqualFold(a.Key, key) : a.Key == key) && (chk == nil || chk(g))

func SetValueTo(value) (r)
	prop C11
	ensures set: forall v slog.Value :: r(v) == value

func ChangeKey(from, to, caseInsensitive, grpChk) (r)
	prop C11
	ensures key: forall g []string, a slog.Attr :: r(g, a).Key == (matches(from, caseInsensitive, grpChk, g, a) ? to : a.Key)
	ensures value: forall g []string, a slog.Attr :: r(g, a).Value == a.Value

func ChangeValue(key, chgFn, caseInsensitive, grpChk) (r)
	prop C11
	ensures value: forall g []string, a slog.Attr :: r(g, a).Value == (matches(key, caseInsensitive, grpChk, g, a) ? chgFn(a.Value) : a.Value)
	ensures key: forall g []string, a slog.Attr :: r(g, a).Key == a.Key

func ChangeCase(key, chgCase, caseInsensitive, grpChk) (r)
	prop C11
	ensures lower: chgCase == replace.CaseLower ==> forall g []string, a slog.Attr :: r(g, a).Key == a.Key &&
		r(g, a).Value == (matches(key, caseInsensitive, grpChk, g, a) ? slog.StringValue(strings.ToLower(a.Value.String())) : a.Value)
	ensures upper: chgCase == replace.CaseUpper ==> forall g []string, a slog.Attr :: r(g, a).Key == a.Key &&
		r(g, a).Value == (matches(key, caseInsensitive, grpChk, g, a) ? slog.StringValue(strings.ToUpper(a.Value.String())) : a.Value)
	ensures none: chgCase != replace.CaseLower && chgCase != replace.CaseUpper ==> forall g []string, a slog.Attr :: r(g, a) == a

func RemoveKey(key, caseInsensitive, grpChk) (r)
	prop C11
	ensures forall g []string, a slog.Attr :: r(g, a) == (matches(key, caseInsensitive, grpChk, g, a) ? zero(slog.Attr) : a)

func TopCheck(groups) (r)
	prop C11
	ensures r <==> len(groups) == 0

func Current(name) (r)
	prop C11
	ensures forall g []string :: r(g) <==> len(g) > 0 && g[len(g)-1] == name

# chain(fs, k, g, a): the attribute after the first k functions, where none is applied once one returned the empty attribute.
rec func chain(fs seq[infra.AttrFn], k int, g seq[string], a slog.Attr) slog.Attr =
	k <= 0 ? a : (let p = chain(fs, k-1, g, a); (k > 1 && p == zero(slog.Attr)) ? p : fs[k-1](g, p))

# Once a function returned the empty attribute, the rest of the chain is skipped.
lemma chainStops(fs seq[infra.AttrFn], i, n int, g seq[string], a slog.Attr) {chain(fs, i, g, a), chain(fs, n, g, a)}
	prop C12
	induction n
	requires 0 <= i && i < n && chain(fs, i+1, g, a) == zero(slog.Attr)
	ensures chain(fs, n, g, a) == zero(slog.Attr)

func Multiple$1(groups, a) (r)
	prop C12
	ensures r == chain(view(fns), len(fns), view(groups), a)
	loop 0
		invariant 0 <= $i
		invariant $i <= len(fns)
		invariant a == chain(view(fns), $i, view(groups), old(a))
		invariant $i > 0 ==> a != zero(slog.Attr)

func Multiple(fns) (r)
	prop C12
	ensures chain: forall g []string, a slog.Attr :: r(g, a) == chain(view(fns), len(fns), view(g), a)
