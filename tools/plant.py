#!/usr/bin/env python3
"""plant.py [--no-tests] [--no-check] [--slot N] ID...: judges planted bugs in a scratch copy of /repo.

For every /verif/seeded/ID: the patch applies, builds, passes the stable tests, the demonstration tells
the patched from the clean tree, and whether the property's check catches it.  Results are appended to
/tmp/pl/results.jsonl.  Nothing here is used by a check."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
def flag(n):
    if n in args:
        args.remove(n); return True
    return False
notests, nocheck = flag("--no-tests"), flag("--no-check")
slot = "0"
if "--slot" in args:
    i = args.index("--slot"); slot = args[i + 1]; del args[i:i + 2]
extra = []
if "--prop" in args:
    i = args.index("--prop"); extra = [args[i + 1]]; del args[i:i + 2]
S = f"/tmp/pl/slot{slot}"
R, O = S + "/repo", S + "/vp"
def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        return p.returncode, p.stdout.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("latin1")
if not os.path.isdir(S):
    os.makedirs(S)
    sh(f"cp -a /repo {R}; rm -rf {R}/_build; cp -a /opt/vp {O}")
    for p in ("build.sh", "test.sh", "results.py", "unit/run_tests.py", "unit/CMakeLists.txt"):
        f = f"{O}/{p}"
        if os.path.exists(f):
            t = open(f).read().replace("/opt/vp", O).replace("/repo", R)
            open(f, "w").write(t)
    for d, _, fs in os.walk(O + "/unit"):
        for n in fs:
            f = os.path.join(d, n)
            t = open(f, errors="surrogateescape").read()
            if "/repo" in t and R not in t:
                open(f, "w", errors="surrogateescape").write(t.replace("/repo", R))
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = stable.get("stable") or stable
def reset():
    sh(f"git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git checkout -q -- . ", cwd=R)
def build(): return sh(f"bash {O}/build.sh", timeout=900)
for b in args:
    D = f"{V}/seeded/{b}"
    m = json.load(open(D + "/meta.json"))
    res = {"id": b, "property": m["property"]}
    t0 = time.time()
    reset()
    rc, o = build()
    if rc: print("CLEAN BUILD FAILS", o); sys.exit(2)
    def demo():
        d = f"{S}/demo"
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(D, d)
        for f in os.listdir(d):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(f"{d}/{f}")
        return sh(f"bash {d}/demo.sh", cwd=R, timeout=300)
    t = time.time(); rc, o = demo(); res["demo_clean"] = rc; res["demo_s"] = round(time.time() - t)
    if rc: res["demo_clean_out"] = o[-500:]
    rc, o = sh(f"git apply {D}/patch.diff", cwd=R)
    res["applies"] = rc == 0
    if rc: res["out"] = o
    else:
        rc, o = build(); res["builds"] = rc == 0
        if rc: res["out"] = o[-800:]
        rc, o = demo(); res["demo_bug"] = rc; res["demo_out"] = o[-200:]
        if not nocheck:
            for P in [m["property"]] + extra:
                t = time.time()
                env = dict(os.environ, VERIF_REPO=R, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", VERIF_EVIDENCE="/tmp/pl/ev")
                rc, o = sh(f"{V}/check.py {P}", cwd=V, env=env)
                res["check_" + P] = rc; res["check_s"] = round(time.time() - t)
                res["viol_" + P] = [l for l in o.splitlines() if l.startswith("VIOLATION")][:2] or o[-400:]
                open(f"/tmp/pl/{b}.{P}.log", "w").write(o)
        if not notests:
            t = time.time()
            rc, o = sh(f"bash {O}/test.sh {S}/out.json")
            out = json.load(open(S + "/out.json"))
            res["tests_failed"] = [x for x in stable if x not in set(out["passed"])][:5]
            res["tests_s"] = round(time.time() - t)
    reset()
    res["ok"] = bool(res.get("builds") and res["demo_clean"] == 0 and res.get("demo_bug") and (notests or not res.get("tests_failed")))
    res["caught"] = res.get("check_" + m["property"]) == 1
    res["wall"] = round(time.time() - t0)
    with open("/tmp/pl/results.jsonl", "a") as f: f.write(json.dumps(res) + "\n")
    print(json.dumps(res), flush=True)
