"""Concurrency: many threads open (and one or two sign) at once, under ThreadSanitizer and in release builds; every result compared with what the call returns alone."""
from api import *
import os, re, san, struct, subprocess, tempfile, time
RULE = ("one case = one call of opening or signing made while other threads were inside the library, its result compared with the sequential one (known from the model), under ThreadSanitizer or in a release build, from the very first "
        "use of the library on; non-trivial and distinct = calls that overlapped another thread's call")
ASSUMPTIONS = ["the interleavings observed are those the scheduler produced with random yields and pauses; ThreadSanitizer's happens-before analysis extends each to its reorderings"]
SMALL = [vbuild.scaled(b, 14, 4) for b in FULL]; MID = [vbuild.scaled(b, 6, 2) for b in FULL]
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1; out = []
    for i, s in pairs(MID): out.append({"label": f"tsan {i} {s}", "fn": "threads", "args": {"impl": i, "s": s, "variant": "tsan", "runs": 5 if cost(i, s) < .05 else 3 if cost(i, s) < .1 else 2, "seconds": 2 * x}, "est": 6 + 60 * cost(i, s), "cores": 2, "timeout": 900 * x})
    for i, s in pairs(SMALL): out.append({"label": f"stress {i} {s}", "fn": "threads", "args": {"impl": i, "s": s, "variant": "rel", "runs": 3, "seconds": 2 * x}, "est": 3, "cores": 3, "timeout": 600 * x})
    for i, s in pairs(FULL):
        if th or cost(i, s) < 5: out.append({"label": f"stress {i} {s}", "fn": "threads", "args": {"impl": i, "s": s, "variant": "rel", "runs": 1, "seconds": 2 * x}, "est": 4 + 2 * cost(i, s), "cores": 4, "timeout": 600 * x})
    return out
def exe(variant, impl, s): return vbuild.build_exe("thr", impl, s, variant, ["h_thr.c"], libs=["-lpthread"])
def builds(tier, t): return [vbuild.build_model] + [lambda a=a: exe(a["variant"], a["impl"], a["s"]) for a in [x["args"] for x in t]]
def corpus(W, s, signs):
    M = Model(s); keys = honest.get(s); ops = []; pks = []
    def key(pk):
        if pk not in pks: pks.append(pk)
        return pks.index(pk)
    good = [(m["sm"], k["pk"], 0, len(m["m"])) for k in keys for m in k["msgs"]]
    if vbuild.scale_of(s) is None: bad = [(sm[:-40] + bytes([sm[-40] ^ 1]) + sm[-39:], pk, -1, 0) for sm, pk, r, n in good[:2]]
    else: bad = [(c["sm"], c["pk"], 0 if c["code"] == 0 else -1, c["mlen"]) for c in hostile.get(s) if c["force"] is None]
    if vbuild.scale_of(s) is not None: bad = [bad[i] for i in W.rng.permutation(len(bad))[:40]]
    for sm, pk, r, n in good * max(1, len(bad) // len(good)) + bad: ops.append(struct.pack("<2IiI", len(sm), key(pk), r, n) + sm)
    if signs == 0: return len(pks), len(ops), 0, b"".join(pks) + keys[0]["sk"] + b"seed" + b"".join(ops), b"seed"
    sd = W.rbytes(48); c = M.rng(sd); sg = []
    for i in range(signs): m = W.rbytes(int(W.rng.integers(0, 60))); sm = M.sign(c, m, keys[0]["sk"]); sg.append(struct.pack("<2I", len(m), len(sm)) + m + sm)
    return len(pks), len(ops), signs, b"".join(pks) + keys[0]["sk"] + sd + b"".join(ops) + b"".join(sg), sd
def threads(W, impl, s, variant, runs, seconds):
    e = exe(variant, impl, s); tag = f"{impl}:{s}"; u = cost(impl, s)
    for r in range(runs):
        full = vbuild.scale_of(s) is None; ns = 2 if full else int(min(12, 3 + seconds / max(u, .02))); nt = 4 if full else int([2, 4, 8, 3, 6][r % 5]); sg = [0, 1, 2, 1, 0][r % 5] if not full else int(s[0] == "1" or W.thorough)
        nk, no, ns, body, sd = corpus(W, s, ns if sg else 0)
        with tempfile.TemporaryDirectory(prefix="vf-") as d:
            open(d + "/f", "wb").write(struct.pack("<4I", nk, no, ns, len(sd)) + body); seed = int(W.rng.integers(1, 1 << 30)); W.at(op="threads", openers=nt, signers=sg, variant=variant, set=s, impl=impl, seed=seed)
            def go(): return subprocess.run([e, d + "/f", str(nt), str(sg), str(seconds / runs), str(seed)], capture_output=True, timeout=800, env=dict(os.environ, **san.ENV), preexec_fn=san.stack)
            try: p = go()
            except subprocess.TimeoutExpired: W.check(False, f"concurrent opening does not terminate:{tag}", openers=nt, signers=sg); continue
            text = (p.stdout + p.stderr).decode("utf8", "replace")
            if p.returncode == 66 and "FATAL: ThreadSanitizer" in text: W.note("ThreadSanitizer cannot run here: " + text[-200:]); return
            m = re.search(r"opens (\d+) accepts (\d+) signs (\d+) overlaps (\d+)", text)
            assert p.returncode != 3, "the harness could not set itself up: " + text[-300:]
            what = next(iter(re.findall(r"MONITOR: [^(]*|WARNING: ThreadSanitizer: [^(]*|ERROR: ThreadSanitizer: \w+", text)), None)
            loc = re.findall(r"#0 (\w+)", text)
            if "thread leak" in text and what is None: what = None
            W.check(p.returncode == 0 and what is None, f"{(what or f'exit {p.returncode}').strip()}:{tag}", openers=nt, signers=sg, variant=variant, seed=seed, where=loc[:6], report=text[:3500])
            o, a, g, v = map(int, m.groups()); W.count(f"concurrent openings ({variant})", o); W.count("accepted", a); W.count("concurrent signatures", g); W.count("calls that overlapped another", v); W.cases(o + g, v); W.high("threads at once", nt + sg)
    W.sample(set=s, impl=impl, variant=variant, opens=o, overlapped=v, threads=nt, signers=sg)
