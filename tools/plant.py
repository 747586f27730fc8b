#!/usr/bin/env python3
"""plant.py ID: validate /verif/seeded/ID: patch applies to a scratch copy of /repo, builds, passes the stable tests,
demo passes without and fails with the patch; then run the property's check on the patched copy.
plant.py ID PROP FILE OLD NEW [needs [breaks]]: first create it from a replacement of text (repeat FILE OLD NEW via JSON on stdin: -)."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def main():
    i = sys.argv[1]; d = f"{V}/seeded/{i}"
    t = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        r = t + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        env = "export PATH=/opt/veriftools/go1.23.12/bin:$PATH HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build; "
        if len(sys.argv) > 2 and sys.argv[2] == "-":
            spec = eval(sys.stdin.read())
            for f, old, new in spec["edits"]:
                p = f"{r}/{f}"; s = open(p).read()
                if s.count(old) != 1: print("occurrences of text:", s.count(old), f, repr(old)); return 1
                open(p, "w").write(s.replace(old, new))
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
            json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            shutil.copy(V + "/tools/seed/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
            if "demo" in spec: open(d + "/demo_test.go", "w").write(spec["demo"])
            sh("git checkout -- .", cwd=r)
        prop = json.load(open(d + "/meta.json"))["property"]
        dem = t + "/demo"; shutil.copytree(d, dem)
        for f in ("patch.diff", "meta.json"): os.remove(f"{dem}/{f}")
        p = sh(f"bash {dem}/demo.sh", cwd=r)
        if p.returncode != 0: print("DEMO FAILS ON CLEAN TREE\n" + p.stdout[-1500:] + p.stderr[-1500:]); return 1
        p = sh(f"git apply {d}/patch.diff", cwd=r)
        if p.returncode: print("PATCH", p.stderr); return 1
        lo = "'^github.com/madkins23/go-slog/(cmd/server|creator/(chanchalzap|snqkmeld|svcrunnerjsonlog)|internal/scoring(/(filter|group|keeper))?)$'"
        p = sh(env + f"go build $(go list -e ./... | grep -vE {lo} | grep -v '/go-slog/template$') && gofmt -l $(git diff --name-only)", cwd=r)
        if p.returncode: print("BUILD", p.stderr[-1500:]); return 1
        p = sh(env + f"sed s,/repo/,{r}/,g /opt/vp/overlay.json > {t}/ov.json; go test -json -vet=off -count=1 -overlay={t}/ov.json $(go list -e ./... | grep -vE {lo})", cwd=r)
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); ok = set()
        for l in p.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        miss = st - ok
        if miss: print("TESTS FAIL", len(miss), sorted(miss)[:5]); return 1
        p = sh(f"bash {dem}/demo.sh", cwd=r)
        if p.returncode == 0: print("DEMO PASSES WITH PATCH"); return 1
        if "build failed" in p.stdout: print("DEMO BUILD", p.stdout[-1000:]); return 1
        p = sh(f"VERIF_REPO={r} VERIF_SEED=1 python3 {V}/tools/check.py {prop} quick", cwd=V)
        print(i, "valid;", "CAUGHT" if p.returncode == 1 and f"VIOLATION property={prop}" in p.stdout else "MISSED rc=%d" % p.returncode)
        print("\n".join(p.stdout.splitlines()[-6:])[:1500])
    finally:
        shutil.rmtree(t, ignore_errors=True)
sys.exit(main())
