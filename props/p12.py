"""Challenges: every observed expansion is compared with the specified rejection sampling; positions and key indices are counted and tested for uniformity; signer's and verifier's are recorded."""
import api
from api import *
import gens, time, streams
from vimpl import arr, buf, ptr
RULE = ("one case = one digest expanded by the real code, checked for weight, range and equality with the specified expansion, or one signature whose signer-side and verifier-side expansions were both recorded; "
        "non-trivial and distinct = distinct digest")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1
    out = [{"label": f"expansion {i} {s}", "fn": "expand", "args": {"impl": i, "s": s, "seconds": 8 * x}, "est": 9} for i, s in pairs(FULL)]
    out += [{"label": f"hostile streams {i} {s}", "fn": "stream", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 5} for i, s in pairs(FULL)]
    for i, s in pairs(SCALED + [s for s in FULL if s[0] == "1"]) + [("avx2", s) for s in FULL if s[0] != "1"]:
        out.append({"label": f"signer and verifier {i} {s}", "fn": "agree", "args": {"impl": i, "s": s, "n": reps(2 * cost(i, s), 5 * x, 1, 1000)}, "est": 7})
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs()]
def judge(W, M, x, dig, tag, **d):
    x = np.asarray(x); w = int((x != 0).sum())
    W.check(w == M.W, f"weight of the challenge:{tag}", weight=w, expected=M.W, digest=dig, **d); W.check(int(x.max()) < M.kp, f"key index out of range:{tag}", largest=int(x.max()), digest=dig, **d)
    e = M.challenge(dig); W.check(x.tobytes() == e.tobytes(), f"challenge differs from the specified expansion:{tag}", digest=dig, differing_rounds=np.flatnonzero(x != e)[:8], **d)
def expand(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"
    if not I.has("chal"): W.note("expansion not reachable through the shim; decided from signatures only"); return
    t0 = time.time(); n = 0; pos = np.zeros(M.T); val = np.zeros(M.kp); x = buf(M.T + 16); special = iter([bytes([v]) * M.D for v in range(256)] + [bytes(j) + b"\1" + bytes(M.D - 1 - j) for j in range(M.D)])
    pairs_ = np.zeros((4, M.kp)); drawn = 0
    while time.time() - t0 < seconds or n < 400:
        odd = n % 2 == 0; k = n // 2; dig = W.rbytes(M.D) if not odd else gens.relative(W.rng, dig) if k % 3 == 1 else before if k % 3 == 2 and k % 6 == 5 else next(special, None) or gens.pattern(W.rng, M.D)
        if not odd: before = dig
        W.count("digests related to the one before", int(odd and k % 3 == 1)); n += 1; a = arr(dig); W.at(op="expand", digest=dig.hex())
        I.lib.vi_challenge(ptr(x), ptr(a)); W.check((x[M.T:] == 0xa7).all(), f"written beyond the last round:{tag}", digest=dig); judge(W, M, x[:M.T], dig, tag); W.check(a.tobytes() == dig, f"digest modified:{tag}")
        W.case(tag, dig)
        if odd: continue
        drawn += 1; pos += x[:M.T] != 0; val += np.bincount(x[:M.T], minlength=256)[:M.kp]
        h = np.flatnonzero(x[:M.T]); q = (h * 4) // M.T
        for a_, b_ in zip(q, x[:M.T][h]): pairs_[a_, b_] += 1
    # each round is hidden with probability W/T: variance of the count is (1 - W/T) of the Poisson one
    api.uniform(W, pos, drawn * M.W, tag, "selected rounds", 1 - M.W / M.T)
    if M.kp > 2: api.uniform(W, val[1:], drawn * M.W, tag, "key indices"); [api.uniform(W, pairs_[q][1:], pairs_[q].sum(), tag, f"key indices in quarter {q}") for q in range(4) if pairs_[q].sum() > 200]
    W.count("digests expanded", n); W.sample(set=s, impl=impl, digests=n, rounds=[int(pos.min()), int(pos.max())], expected=drawn * M.W / M.T)
def stream(W, impl, s, seconds):
    """chosen 16-bit draws: long runs of rejections, every position in order, the same position again and again, surplus bits set"""
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"
    def judge(name, got, want, script, clean):
        x = np.frombuffer(got, np.uint8); W.check(int((x != 0).sum()) == M.W, f"weight of the challenge under a hostile stream:{tag}", weight=int((x != 0).sum()), script=script[:4000]); W.check(int(x.max()) < M.kp, f"key index out of range under a hostile stream:{tag}", largest=int(x.max()), script=script[:4000])
        W.count("draws in hostile streams", len(script) // 2)
    streams.drive(W, I, M, ["challenge"], seconds / (15 if W.thorough else 1), judge)
def agree(W, impl, s, n):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; rec = I.can_force(); key = None
    for i in range(n):
        if i % 10 == 0: I.seed(W.rbytes(48)); pk, sk = I.keygen()
        m = W.rbytes(int(W.rng.integers(0, 200))); I.force(None) if rec else None; W.at(op="sign", set=s, impl=impl); sm = I.sign(m, sk); f = M.fields(sm); dig = sm[f["digest"][0]:f["digest"][1]]; c1 = I.force_calls() if rec else 0
        e = M.challenge(dig); need = len(M.cover((e != 0).astype(np.uint8))); W.check(sm[-1] == need, f"signature not built on the challenge of its digest:{tag}", seeds=sm[-1], required=need, digest=dig)
        if c1:
            x, d = I.last_challenge(); judge(W, M, x, d, tag, side="signer"); W.check(d == dig, f"signer expands something else than the digest it transmits:{tag}", expanded=d, transmitted=dig); W.count("signer expansions recorded")
        if cost(impl, s) < 2 or W.thorough:
            I.force(None) if rec else None; W.at(op="open", set=s, impl=impl); rc, _ = I.open(sm, pk); c2 = I.force_calls() if rec else 0
            if c1 and c2: y, d2 = I.last_challenge(); judge(W, M, y, d2, tag, side="verifier"); W.check(d2 == d and y.tobytes() == x.tobytes(), f"verifier's challenge differs from the signer's:{tag}", rc=rc); W.count("verifier expansions recorded")
            elif not c1: W.check(rc == 0, f"verifier's challenge differs from the signer's (rejected):{tag}", rc=rc)
        W.case("agree", tag, dig)
        if i == 0: W.sample(set=s, impl=impl, hidden=[int(v) for v in np.flatnonzero(e)][:16])
    if rec and not W.counters.get("signer expansions recorded"): W.note("no expansion could be recorded at the function boundary; decided from the signatures")
