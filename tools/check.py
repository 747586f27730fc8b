#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: decide one property.

1. builds the verifier (govc) from /verif/govc,
2. lets it generate every obligation from /repo's current source and the contracts in /verif/contracts,
   and discharge them with the SMT back ends,
3. on a failed obligation, searches the real code for a concrete failing input (replay harness),
4. writes evidence/PROP.json and prints the verdict.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

def env_for(gobin):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", HOME=e.get("HOME", "/root"))
    e["PATH"] = gobin + ":" + e["PATH"]
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["GOWORK"] = "off"
    return e

REPO_GO = "/opt/veriftools/go1.23.12/bin"
TOOL_GO = "/usr/local/bin"

def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))

def build(tmp):
    b = os.path.join(tmp, "govc")
    e = env_for(TOOL_GO)
    e["GOFLAGS"] = "-mod=readonly"
    p = subprocess.run(["go", "build", "-o", b, "."], cwd=os.path.join(VERIF, "govc"), env=e, capture_output=True, text=True)
    if p.returncode != 0:
        print("cannot build govc:\n" + p.stdout + p.stderr)
        sys.exit(2)
    return b

def harnesses(prop):
    return sorted(glob.glob(os.path.join(VERIF, "replay", prop + "_*_test.go")) + glob.glob(os.path.join(VERIF, "replay", prop + "_test.go")))

def run_harness(prop, tmp, budget, seed, bounded=False):
    """Returns (failing cases, log, statistics)."""
    fails, log, stats = [], [], []
    for h in harnesses(prop):
        head = open(h).read(2000)
        m = re.search(r"//verif:pkg (\S+)", head)
        pkg = m.group(1)
        ov = {"Replace": {}}
        dst = os.path.join(REPO, pkg, "zz_verif_%s_test.go" % prop.lower())
        ov["Replace"][dst] = h
        common = os.path.join(VERIF, "replay", "common.go.txt")
        pk = re.search(r"^package (\S+)", open(h).read(), re.M).group(1)
        c = os.path.join(tmp, "common_%s_test.go" % os.path.basename(h))
        with open(c, "w") as f:
            f.write(open(common).read().replace("package PKG", "package " + pk))
        ov["Replace"][os.path.join(REPO, pkg, "zz_verif_common_test.go")] = c
        for w in re.findall(r"//verif:with (\S+)", head):
            c = os.path.join(tmp, "with_%s_%s_test.go" % (w.split(".")[0], os.path.basename(h)))
            with open(c, "w") as f:
                f.write(open(os.path.join(VERIF, "replay", w)).read().replace("package PKG", "package " + pk))
            ov["Replace"][os.path.join(REPO, pkg, "zz_verif_%s_test.go" % w.split(".")[0])] = c
        if re.search(r"//verif:alone", head):
            for t in glob.glob(os.path.join(REPO, pkg, "*_test.go")):
                ov["Replace"].setdefault(t, "")
        of = os.path.join(tmp, "overlay_%s.json" % os.path.basename(h))
        json.dump(ov, open(of, "w"))
        e = env_for(REPO_GO)
        e["VERIF_SEED"] = str(seed)
        e["VERIF_BUDGET"] = str(budget)
        e["VERIF_SCRATCH"] = tempfile.mkdtemp(dir=tmp)
        try:
            p = subprocess.run(["go", "test", "-vet=off", "-count=1", "-timeout", "%ds" % (budget + 120), "-overlay", of, "-run", "TestVerif" + prop + "$", "-v", "./" + pkg],
                               cwd=REPO, env=e, capture_output=True, text=True, timeout=budget + 240)
            out = p.stdout + p.stderr
        except subprocess.TimeoutExpired as x:
            out = "harness timed out: " + str(x)
            p = None
        for line in out.splitlines():
            if "VERIF-FAIL " in line:
                fails.append(line[line.index("VERIF-FAIL ") + 11:])
            if "VERIF-STAT " in line:
                stats.append(line[line.index("VERIF-STAT ") + 11:])
        if p is not None and not fails and re.search(r"^panic: |^fatal error: ", out, re.M):
            fails.append("the harness ended in a panic of the code under test:\n" + out[-3000:])
        log.append("## %s\n%s" % (os.path.basename(h), out[-6000:]))
    return fails, "\n".join(log), stats

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="govc-")
    try:
        return check(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, seed, t0, tmp):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    govc = build(tmp)
    res = os.path.join(tmp, "result.json")
    args = [govc, "-prop", prop, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-json", res,
            "-ms", "60000" if tier == "thorough" else "20000"]
    e = env_for(REPO_GO)
    e["TMPDIR"] = tmp
    try:
        p = subprocess.run(args, env=e, cwd=tmp, capture_output=True, text=True, timeout=1500 if tier == "thorough" else 600)
        out = p.stdout + p.stderr
        code = p.returncode
    except subprocess.TimeoutExpired as x:
        out = "the verifier timed out: %s" % x
        code = 9
    print(out[-6000:])
    r = json.load(open(res)) if os.path.exists(res) and code in (0, 1) else None
    obls = (r["obligations"] or []) if r else []
    failed = [o for o in obls if o["status"] != "proved"]
    ok = code == 0 and r is not None and r["ok"] and not failed and len(obls) > 0
    conf = json.load(open(os.path.join(VERIF, "tools", "props.json"))).get(prop, {})
    # bounded stand-ins: functions outside the verifier's reach (labelled, never counted as proved)
    bounded, hfails, hlog, hstats = conf.get("bounded"), [], "", []
    if not ok:
        hfails, hlog, hstats = run_harness(prop, tmp, 60, seed)
    elif bounded or tier == "thorough":
        hfails, hlog, hstats = run_harness(prop, tmp, conf.get("budget", 20) if tier == "quick" else 180, seed)
    violated = not ok or bool(hfails)
    # known findings
    known = []
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    if known:
        rest = [h for h in hfails if not any(("[%s]" % k) in h for k, _ in known)]
        ofail = [o for o in failed if not any(k == okey(o) for k, _ in known)]
        for k, what in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        hfails, failed = rest, ofail
        violated = bool(failed) or bool(hfails) or r is None
    cov = {
        "obligations": len(obls),
        "discharged": sum(o["status"] == "proved" for o in obls),
        "checker_cmd": "tools/check.py %s (builds govc, then: %s)" % (prop, " ".join(a.replace(tmp, "$TMP") for a in args)),
        "trusted_base": trusted(r),
        "functions_under_contract": (r["functions"] or []) if r else [],
        "functions_inlined": (r["inlined"] or []) if r else [],
        "lemmas": (r["lemmas"] or []) if r else [],
        "by_backend": r["backends"] if r else {},
        "by_kind": kinds(obls),
        "solver_time_s": round(r["solver_time"], 2) if r else 0,
        "failed": [dict(func=o["func"], name=o["name"], detail=o.get("detail", "")) for o in failed][:40],
    }
    if hstats:
        cov["bounded_or_replay_runs"] = hstats
    if bounded:
        cov["bounded_stand_in"] = bounded
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "proof"),
        "coverage": cov,
        "assumptions": assumptions(r, conf),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violated else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not violated:
        print("OK property=%s: %d obligations discharged (%s), %.1fs" % (prop, len(obls), ", ".join("%s %d" % kv for kv in sorted(cov["by_backend"].items())), time.time() - t0))
        return 0
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-replay.txt" % prop)
    with open(path, "w") as f:
        f.write("property %s\n\n" % prop)
        if failed or not ok:
            f.write("FAILED OBLIGATIONS\n")
            for o in failed:
                f.write("- %s: %s (%s) at %s\n  %s\n" % (o["func"], o["name"], o["kind"], o.get("pos", ""), o.get("detail", "")))
                if o.get("output"):
                    f.write("  verifier output: %s\n" % o["output"][:1500])
            f.write("\nVERIFIER OUTPUT\n%s\n" % out[-8000:])
        if hfails:
            f.write("\nFAILING INPUTS ON THE REAL CODE (seed %d)\n" % seed)
            for h in hfails:
                f.write(h + "\n")
        f.write("\nHARNESS LOG\n%s\n" % hlog)
    for o in failed[:10]:
        print("failed obligation: %s: %s [%s]" % (o["func"], o["name"], o["kind"]))
    for h in hfails[:5]:
        print("failing input: " + h[:600])
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if hfails else " no-failing-input-found"))
    return 1

def okey(o):
    return (o["func"] + ":" + o["name"]).replace(" ", "_")

def kinds(obls):
    d = {}
    for o in obls:
        d[o["kind"]] = d.get(o["kind"], 0) + 1
    return d

def trusted(r):
    if not r:
        return []
    t = ["govc (the verification-condition generator in /verif/govc: go/ssa semantics, heap model, simplifier)",
         "golang.org/x/tools/go/ssa", "SMT back ends z3-new, z3 4.8.12, cvc5"]
    t += ["axiom " + a for a in (r["axioms"] or [])]
    for a in (r["assumptions"] or []):
        if a.startswith("contract:"):
            pass
    return t

def assumptions(r, conf):
    out = list(conf.get("assumptions", []))
    if r:
        fs = set(r["functions"] or [])
        for a in (r["assumptions"] or []):
            if a.startswith("contract:"):
                k = a[len("contract:"):]
                if k not in fs:
                    out.append("assumed contract: " + k)
            elif a.startswith("assume:"):
                out.append(a[len("assume:"):])
            else:
                out.append(a)
    out.append("partial correctness: termination is not proved")
    return out

if __name__ == "__main__":
    sys.exit(main())
