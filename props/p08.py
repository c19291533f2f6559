"""Honest executions under AddressSanitizer+UBSan with assertions on: odd alignments, boundary lengths, extremal challenges, allocation balance."""
from api import *
import san
RULE = ("one case = key generation, signing and opening of one message at one alignment, in exact-size buffers, under a sanitizer build with internal assertions enabled, challenge from the digest or pinned "
        "to an extremal one; non-trivial and distinct = distinct (seed, message, challenge, alignment) per build")
SMALL = [vbuild.scaled(s, 14, 4) for s in vbuild.SETS]
def tasks(tier, seed):
    th = tier == "thorough"; out = []; x = 20 if th else 1
    for i, s in [(i, s) for s in SMALL for i in vbuild.IMPLS]:
        k = 2 if i == "ref" and s[0] == "5" else 1
        out.append({"label": f"honest {i} {s}", "fn": "run", "args": {"impl": i, "s": s, "stub": False, "seconds": 6 * k * x}, "est": 8 * k})
    for i, s in pairs(FULL):
        out.append({"label": f"honest, full-size bookkeeping {i} {s}", "fn": "run", "args": {"impl": i, "s": s, "stub": True, "seconds": 7 * x}, "est": 9, "timeout": 600 * (1 + th)})
        if i == "avx2" or s[0] == "1" or th: out.append({"label": f"honest full {i} {s}", "fn": "run", "args": {"impl": i, "s": s, "stub": False, "seconds": .01 if not th else 300}, "est": 18 if s[0] == "5" else 9, "timeout": 5000 if th else 400})
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda a=x["args"]: san.exe("asan", a["impl"], a["s"], a["stub"]) for x in t]
def run(W, impl, s, stub, seconds):
    M = Model(s); lens = [33, 0, 1] + [int(v) for v in W.rng.permutation(boundary_lengths(M))]; n = 1 if seconds < 1 else 400 if not W.thorough else 6000
    recs, kinds = san.honest_recs(M, W.rng, n, lens)
    st = san.drive(W, impl, s, "asan", recs, kinds, max(seconds, 1), stub, key="honest execution", patience=300)
    if st: W.sample(set=s, impl=impl, round_trips=int(st[1]), accepted=int(st[2]), max_seeds=int(st[5]), example=kinds[0])
