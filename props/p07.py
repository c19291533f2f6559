"""Hostile inputs in exact-size buffers under AddressSanitizer+UBSan and MemorySanitizer; progress is watched for termination."""
from api import *
import san
RULE = ("one case = one hostile (signed message, public key) opened in buffers of exactly its size under a sanitizer build (assertions on), the supervisor watching for reports, wrong return codes, "
        "stray writes, allocations left behind and lack of progress; non-trivial and distinct = distinct record per build")
SMALL = [vbuild.scaled(s, 14, 4) for s in vbuild.SETS]
def tasks(tier, seed):
    th = tier == "thorough"; out = []; x = 20 if th else 1
    for i, s in [(i, s) for s in SMALL for i in vbuild.IMPLS]:
        for v in ("asan", "msan"):
            k = (2 if i == "ref" and s[0] == "5" else 1) if v == "asan" else 1
            out.append({"label": f"hostile {v} {i} {s}", "fn": "run", "args": {"impl": i, "s": s, "variant": v, "stub": False, "seconds": (8 * k if v == "asan" else 4) * x}, "est": 8 * k})
    for i, s in pairs(FULL): out.append({"label": f"hostile, full-size bookkeeping {i} {s}", "fn": "run", "args": {"impl": i, "s": s, "variant": "asan", "stub": True, "seconds": 6 * x}, "est": 7, "timeout": 600 * (1 + th)})
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda a=x["args"]: san.exe(a["variant"], a["impl"], a["s"], a["stub"]) for x in t]

def records(W, M, impl, s, extra, stub):
    cs = hostile.get(s); cs = [cs[i] for i in W.rng.permutation(len(cs))]
    recs, kinds = [], []
    def add(sm, pk, f, k): recs.append(san.rec(1, sm, pk, len(recs), f, int(W.rng.integers(16)))); kinds.append(k)
    its = [(k, e) for k in honest.get(s) for e in k["msgs"]]; mx = 8 * M.mono_bytes
    gens_ = []
    for n in range(extra):
        k, e = its[n % len(its)]; sm, pk = e["sm"], k["pk"]; op = n % 6
        if op == 0: sm = sm[:int(W.rng.integers(len(sm)))]
        elif op == 1: sm = W.rbytes(W.rng.integers(0, len(sm) + 50))
        elif op == 2: b = bytearray(W.rbytes(int(W.rng.integers(0, 40)) + M.fixed + int(W.rng.integers(0, M.maxseeds + 2)) * M.S)); b[-1] = int(W.rng.integers(0, M.maxseeds + 2)) & 255; sm = bytes(b)
        elif op == 3: pk = W.rbytes(len(pk))
        elif op == 4: a, b = M.fields(sm)["actions"]; sm = sm[:a] + W.rbytes(b - a) + sm[b:]
        else: a, b = M.fields(sm)["digest"]; sm = sm[:a] + W.rbytes(b - a) + sm[b:]      # another challenge, usually another seed count
        gens_.append((sm, pk, ["truncated", "random", "random, plausible count", "random public key", "random actions", "random digest"][op]))
    # extremal covers first, then everything rejected at once, then the costly ones, random ones in between
    T4 = lambda c: (c["sm"], c["pk"], c["force"], c["kind"])
    worst = [c for c in cs if c["force"] is not None and len(M.cover(np.frombuffer(c["force"], np.uint8) != 0)) == M.maxseeds][:2]
    quick = [T4(c) for c in cs if case_cost(impl, s, c) < .02] + [(x, y, None, k) for x, y, k in gens_ if k not in ("random actions", "random digest")]
    rest = [T4(c) for c in cs if case_cost(impl, s, c) >= .02 and c not in worst] + [(x, y, None, k) for x, y, k in gens_ if k in ("random actions", "random digest")]
    for c in worst: add(*T4(c))
    for l in (quick, rest):
        for i in W.rng.permutation(len(l)): add(*l[i])
    return recs, kinds

def run(W, impl, s, variant, stub, seconds):
    M = Model(s); recs, kinds = records(W, M, impl, s, 150 if not W.thorough else 3000, stub)
    st = san.drive(W, impl, s, variant, recs, kinds, seconds, stub, key="opening")
    if st: W.sample(set=s, impl=impl, variant=variant, cases=int(st[1]), accepted=int(st[2]), rejected=int(st[3]), example=kinds[0])
