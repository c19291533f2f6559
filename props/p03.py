"""Conformance: everything the code outputs is compared with the values computed by the independent model of the specification."""
from api import *
import time
import comp, streams
RULE = ("one case = one key pair, signed message, opening or component call whose complete output is compared with the value computed from the specification by the independent model; "
        "non-trivial and distinct = distinct inputs")
NAMES = [c.__name__ for c in comp.ALL]
def tasks(tier, seed):
    th = tier == "thorough"; out = []
    for i, s in pairs():
        u = cost(i, s); n = honest.sizes(s)
        out.append({"label": f"known answers {i} {s}", "fn": "corpus", "args": {"impl": i, "s": s, "budget": 6}, "est": max(2 * u, min(7, 2 * u * (n[0] * n[1] + n[2])))})
    for i, s in pairs(SCALED + [s for s in FULL if s[0] == "1"]):
        u = cost(i, s) + model_cost(s); out.append({"label": f"fresh seeds {i} {s}", "fn": "fresh", "args": {"impl": i, "s": s, "n": reps(u, 3 * (20 if th else 1), 2, 400)}, "est": 4})
    if th:
        for i, s in pairs([s for s in FULL if s[0] != "1"]):
            u = cost(i, s) + model_cost(s); out.append({"label": f"fresh seeds {i} {s}", "fn": "fresh", "args": {"impl": i, "s": s, "n": reps(u, 120, 2, 100)}, "est": 120})
    out += [{"label": f"hostile streams {i} {s}", "fn": "stream", "args": {"impl": i, "s": s, "seconds": 3}, "est": 4} for i, s in pairs(FULL)]
    out += [{"label": f"round lengths {i} {b}", "fn": "lengths", "args": {"impl": i, "s": vbuild.scaled(b, 6, 2), "seconds": 3 * (15 if th else 1)}, "est": 4} for i, b in pairs(FULL)]
    for i in vbuild.IMPLS: out.append({"label": f"message of 4 GiB {i}", "fn": "long", "args": {"impl": i, "s": vbuild.scaled("5_SHORT_SIG" if i == "ref" else "1_BALANCED", 6, 2)}, "est": 60, "timeout": 500})
    return out + comp_tasks(NAMES, 4, fn="comps")
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs() + pairs([vbuild.scaled(b, 6, 2) for b in FULL])]
def comps(W, **a): run_comp(W, oracle=True, **a)

def long(W, impl, s):
    """all of a message longer than 2^32 bytes, and its length, enter the digest as specified"""
    import ctypes as C
    from huge import Huge; from vimpl import arr, ptr
    n = (1 << 32) + int(W.rng.integers(1, 5000)); I, M = Impl(impl, s), Model(s); sd = W.rbytes(48); I.seed(sd); c = M.rng(sd); pk, sk = I.keygen(); M.keygen(c); pat = W.rbytes(1 << 21)
    m, sm, sm2 = Huge(n, 0, pat), Huge(n, M.sig_max), Huge(n, M.sig_max); a = arr(sk); l, l2 = C.c_ulonglong(0), C.c_uint64(0)
    W.at(op="sign", set=s, impl=impl, mlen=n); rc = I.lib.vs_sign(sm.p, C.byref(l), m.p, C.c_ulonglong(n), ptr(a))
    M.lib.lm_sign(M.pp, C.byref(c), m.p, C.c_uint64(n), ptr(a), sm2.p, C.byref(l2), None, None)
    W.check(rc == 0 and l.value == l2.value, f"length of a signed message of more than 4 GiB:{impl}:{s}", rc=rc, got=l.value, expected=l2.value); k = min(l.value, n + M.sig_max) - n; x, y = sm.at(n, k), sm2.at(n, k)
    W.check(x == y, f"signed message of more than 4 GiB differs from the specified one:{impl}:{s}", mlen=n, seed=sd, first_difference=next((i for i in range(k) if x[i] != y[i]), None)); W.case("long", impl, s, x); W.high("message length", n); W.sample(set=s, impl=impl, mlen=n)
def stream(W, impl, s, seconds): streams.drive(W, Impl(impl, s), Model(s), list(streams.KINDS), seconds)

def where(M, sm, exp):
    j = next((j for j in range(min(len(sm), len(exp))) if sm[j] != exp[j]), min(len(sm), len(exp)))
    return next((f"{k}+{j - a}" for k, (a, b) in M.fields(exp).items() if a <= j < b), str(j))

def corpus(W, impl, s, budget):
    I, M = Impl(impl, s), Model(s); u = cost(impl, s); left = budget * (20 if W.thorough else 1)
    for ki, key in enumerate(honest.get(s)):
        I.seed(key["seed"]); W.at(op="keygen", set=s, impl=impl); pk, sk = I.keygen()
        W.check(pk == key["pk"] and sk == key["sk"] and I.rc == 0, f"key pair:{impl}:{s}", seed=key["seed"], public_key_right=pk == key["pk"], secret_key_right=sk == key["sk"])
        W.case("key", impl, s, key["seed"]); W.count("key pairs compared")
        for i, e in enumerate(key["msgs"]):
            if (ki or i) and left <= 0: return
            W.at(op="sign", set=s, impl=impl, mlen=len(e["m"]))
            sm = I.sign(e["m"], key["sk"]); left -= u
            W.check(sm == e["sm"] and I.rc == 0, f"signed message:{impl}:{s}", key_seed=key["seed"], message=e["m"], index=i, got=sm, expected=e["sm"], first_difference=where(M, sm, e["sm"]))
            W.case("sign", impl, s, e["sm"]); W.count("signed messages compared")
            if ki == 0 and i == 0: W.sample(set=s, impl=impl, seed=key["seed"].hex(), mlen=len(e["m"]), sm=sm[-32:].hex())
            if left > 0 or (ki == 0 and i == 0):
                W.at(op="open", set=s, impl=impl, mlen=len(e["m"])); rc, m = I.open(e["sm"], key["pk"]); left -= u
                W.check(rc == 0 and m == e["m"], f"known answer rejected:{impl}:{s}", rc=rc, message=e["m"], sm=e["sm"]); W.count("openings compared")
        for e in key["forced"]:
            if left <= 0 or not forcing(W, I, M): return
            I.seed(e["seed"]); I.force(np.frombuffer(e["x"], np.uint8)); sm = I.sign(e["m"], key["sk"]); I.force(None); left -= u
            W.check(sm == e["sm"], f"signed message under a pinned challenge:{impl}:{s}", seed=e["seed"], message=e["m"], challenge=e["x"], first_difference=where(M, sm, e["sm"]), got=sm, expected=e["sm"])
            W.case("forced", impl, s, e["sm"]); W.count("signed messages compared under a pinned challenge"); W.high("published seeds", e["sm"][-1])

def lengths(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); sd = W.rbytes(48); I.seed(sd); c = M.rng(sd); W.at(op="keygen", set=s, impl=impl); pk, sk = I.keygen(); M.keygen(c); t0 = time.time(); k = 0
    for n in round_lengths(W.rng):
        if time.time() - t0 > seconds and k >= 46: break
        m = W.rbytes(n); k += 1; W.at(op="sign", set=s, impl=impl, mlen=n); sm = I.sign(m, sk); e = M.sign(c, m, sk)
        W.check(sm == e, f"signed message of round length:{impl}:{s}", mlen=n, seed=sd, first_difference=where(M, sm, e)); W.case("round", impl, s, sm); W.count("signed messages of round length compared")
    W.sample(set=s, impl=impl, lengths=k)

def fresh(W, impl, s, n):
    I, M = Impl(impl, s), Model(s); lens = boundary_lengths(M)
    for i in range(n):
        if i % 3 == 0:
            sd = W.rbytes([48, 48, 32, 1, 72, 136, 168, 0][int(W.rng.integers(8))]); I.seed(sd); c = M.rng(sd); W.at(op="keygen", set=s, impl=impl, seed=sd.hex())
            pk, sk = I.keygen(); e = M.keygen(c); W.check((pk, sk) == e, f"key pair:{impl}:{s}", seed=sd); W.case("key", impl, s, sd); W.count("key pairs compared")
        m = W.rbytes(int(W.rng.choice(lens))); W.at(op="sign", set=s, impl=impl, mlen=len(m))
        sm = I.sign(m, sk); e = M.sign(c, m, sk)
        W.check(sm == e, f"signed message:{impl}:{s}", seed=sd, message=m, since_seed=i % 3, first_difference=where(M, sm, e), got=sm, expected=e)
        W.case("sign", impl, s, sm); W.count("signed messages compared")
        if i % 2 == 0:
            t = hostile.flip(sm, int(W.rng.integers(8 * len(sm)))); r, ml = M.open(t, pk); rc, got = I.open(t, pk)
            W.check((rc == 0) == (r == 0), f"decision on a flipped bit:{impl}:{s}", rc=rc, expected=r, sm=t, pk=pk); W.count("decisions on a flipped bit compared")
