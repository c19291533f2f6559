#!/usr/bin/env python3-vt
"""check.py Pxx [--tier quick|thorough] [--replay FILE]: decides one property by running
the code of /repo under its workload and monitors. See DESIGN.md."""
import argparse, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, "lib"), VERIF]
sys.dont_write_bytecode = True
import vbuild, work

def load(prop): return importlib.import_module("props." + prop.lower())

def worker(spec, out, progress):
    j = json.load(open(spec))
    work.run_task(load(j["prop"]), j["prop"], j["task"], j["seed"], j["tier"], out, progress)

def read_progress(p):
    try:
        b = open(p, "rb").read(); n = int.from_bytes(b[:4], "little"); return json.loads(b[4:4 + n])
    except Exception: return None

class Pool:
    """runs each task in a process of its own, longest first"""
    def __init__(self, prop, tasks, seed, tier, deadline, tmp):
        self.prop, self.seed, self.tier, self.deadline, self.tmp = prop, seed, tier, deadline, tmp
        self.todo = sorted(tasks, key=lambda t: -t.get("est", 1)); self.done = []; self.errors = []; self.violations = []; self.n = 0
    def start(self, t):
        self.n += 1; base = os.path.join(self.tmp, str(self.n))
        json.dump({"prop": self.prop, "task": t, "seed": self.seed, "tier": self.tier}, open(base + ".json", "w"))
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--worker", base + ".json", base + ".out", base + ".at"],
                             stdin=subprocess.DEVNULL, stdout=open(base + ".log", "wb"), stderr=subprocess.STDOUT, start_new_session=True,
                             env=dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1"))
        return {"p": p, "t": t, "base": base, "t0": time.time()}
    def log(self, r):
        try: return open(r["base"] + ".log", "rb").read()[-1500:].decode("utf8", "replace")
        except OSError: return ""
    def kill(self, r):
        try: os.killpg(r["p"].pid, signal.SIGKILL)
        except ProcessLookupError: pass
        r["p"].wait()
    def finish(self, r, rc, timed_out):
        t = r["t"]; at = read_progress(r["base"] + ".at")
        if os.path.exists(r["base"] + ".out") and not timed_out:
            res = json.load(open(r["base"] + ".out")); res["wall"] = round(time.time() - r["t0"], 2); res["task"] = t
            self.done.append(res)
            for v in res["violations"]: self.violations.append(dict(v, spec=t))
            if res["error"] and not res["violations"]: self.errors.append((t["label"], res["error"]))
            return
        prev = t.get("_failed")
        how = "hang" if timed_out else f"killed by {signal.Signals(-rc).name}" if rc < 0 else f"exit {rc}"
        if prev is None:          # once more before it counts
            self.todo.insert(0, dict(t, _failed={"how": how, "at": at})); return
        crash = not timed_out and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP)
        same = prev["at"] == at and at is not None and prev["how"] == how
        if same and (crash or timed_out) and t.get("crash_is_violation", True):
            kind = "hang" if timed_out else "crash"
            spec = {k: v for k, v in t.items() if k != "_failed"}
            self.violations.append({"key": f"{self.prop}:{kind}:{t['label']}", "task": t["label"], "spec": spec,
                                    "detail": {"how": how, "while": at, "log": self.log(r)}})
        else: self.errors.append((t["label"], f"{how} (before: {prev['how']}) at {at}: {self.log(r)}"))
    def run(self):
        live = []; cpus = vbuild.NPROC
        while self.todo or live:
            if self.violations:   # decided: nothing more is needed
                for r in live: self.kill(r)
                break
            if time.time() > self.deadline:
                for r in live: self.kill(r)
                self.errors.append(("run", f"deadline reached with {len(live)} tasks running and {len(self.todo)} waiting")); break
            used = sum(r["t"].get("cores", 1) for r in live)
            while self.todo and (not live or used + self.todo[0].get("cores", 1) <= cpus):
                r = self.start(self.todo.pop(0)); live.append(r); used += r["t"].get("cores", 1)
            time.sleep(0.02)
            for r in list(live):
                rc = r["p"].poll(); limit = r["t"].get("timeout", max(150, 8 * r["t"].get("est", 1)))
                if rc is None and time.time() - r["t0"] > limit:
                    self.kill(r); live.remove(r); self.finish(r, -9, True)
                elif rc is not None:
                    live.remove(r); self.finish(r, rc, False)

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--worker": return worker(*sys.argv[2:5])
    a = argparse.ArgumentParser(); a.add_argument("prop"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--replay"); a.add_argument("--only"); a.add_argument("-v", action="store_true"); a.add_argument("--build-only", action="store_true")
    a = a.parse_args(); prop = a.prop; seed = int(os.environ.get("VERIF_SEED", "1")); tier = a.tier
    t0 = time.time(); mod = load(prop)
    if a.replay:
        j = json.load(open(a.replay)); seed, tier = j["seed"], j["tier"]; tasks = [j["task"]]
    else: tasks = mod.tasks(tier, seed)
    if a.only: tasks = [t for t in tasks if a.only in t["label"]]
    try:
        thunks = mod.builds(tier, tasks) if hasattr(mod, "builds") else default_builds(tasks)
        vbuild.parallel(thunks)
    except vbuild.BuildError as e:
        print(f"ERROR: the tree does not build: {e}"); return 2
    if a.build_only: return 0
    tmp = tempfile.mkdtemp(prefix="vf-")
    pool = Pool(prop, tasks, seed, tier, t0 + (820 if tier == "quick" else 6 * 3600), tmp)
    try: pool.run()
    finally: shutil.rmtree(tmp, ignore_errors=True)
    known = json.load(open(os.path.join(VERIF, "known_findings.json"))).get("findings", [])
    new, seen = [], {}
    for v in pool.violations:
        k = next((f for f in known if f["property"] == prop and f["key"] == v["key"]), None)
        if k: seen[k["key"]] = k
        elif v["key"] not in [x["key"] for x in new]: new.append(v)
    evals = sum(d["evals"] for d in pool.done); distinct = sum(d["distinct"] for d in pool.done)
    counters = {}
    for d in pool.done:
        for k, n in d["counters"].items(): counters[k] = max(counters.get(k, n), n) if k.startswith("max ") else counters.get(k, 0) + n
    notes = sorted({n for d in pool.done for n in d["notes"]})
    samples = [s for d in sorted(pool.done, key=lambda d: d["label"]) for s in d["samples"][:1]][:12]
    paths = []
    for i, v in enumerate(new[:5]):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = os.path.join(VERIF, "replays", f"{prop}-{i}.json")
        json.dump({"property": prop, "seed": seed, "tier": tier, "key": v["key"], "detail": v["detail"], "task": v.get("spec")}, open(p, "w"), indent=1, default=str)
        paths.append((v, p))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": mod.RULE, "samples": samples or ["none"],
                       "observed": dict(sorted(counters.items())), "tasks_completed": len(pool.done), "tasks_planned": len(tasks),
                       "inconclusive": notes + [f"{l}: {e[:300]}" for l, e in pool.errors]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ef = os.path.join(VERIF, "evidence", f"{prop}.json")
    if not a.replay and not a.only:
        with open(ef + ".tmp", "w") as f: json.dump(ev, f, indent=1, default=str)
        os.rename(ef + ".tmp", ef)
    if a.v:
        for d in sorted(pool.done, key=lambda d: -d["wall"]): print(f"  {d['wall']:7.1f}s est {d['task'].get('est',1):5.1f} evals {d['evals']:7d} distinct {d['distinct']:7d} {d['label']}")
        print(json.dumps(ev["coverage"]["observed"], indent=1)); [print("note:", n) for n in notes]
    for k in seen.values(): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for v, p in paths:
        print(f"VIOLATION property={prop} replay={p}"); print(f"  {v['key']} {json.dumps(v['detail'], default=str)[:1500]}")
    if new: return 1
    for l, e in pool.errors: print(f"ERROR: {l}: {e}")
    if pool.errors: return 2
    if evals == 0 or distinct == 0: print("ERROR: nothing was observed"); return 2
    print(f"held: property={prop} tier={tier} evaluations={evals} distinct={distinct} wall={ev['wall_s']}s")
    return 0

COMMON = ["gcc/clang builds of the sources of /repo/Reference_Implementation and /repo/Optimized_Implementation/avx2 on this CPU stand for the library",
          "the executable model in /verif/model and the monitors themselves are trusted"]
def default_builds(tasks):
    th = [lambda: vbuild.build_model()]
    for i, s in sorted({(i, t["args"]["s"]) for t in tasks if "s" in t.get("args", {}) for i in ([t["args"]["impl"]] if "impl" in t["args"] else vbuild.IMPLS)}):
        th.append(lambda i=i, s=s: vbuild.build_so(i, s))
    return th
if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    sys.exit(main())
