"""Compilers: the same sources compiled in many ways, each build monitored against the model (operations, hostile openings, components)."""
from api import *
import comp, time
RULE = ("one case = one key pair, signed message, opening of a (hostile) message or component call in one way of compiling the sources, its complete output compared with the model's; "
        "non-trivial and distinct = distinct (way of compiling, input)")
NAMES = [c.__name__ for c in comp.ALL]
QUICK = [vbuild.scaled("1_SHORT_SIG"), vbuild.scaled("3_BALANCED", 14, 4), vbuild.scaled("5_SHORT_SIG", 14, 4)]
FEW = ["gcc -O0, assertions", "gcc -Os", "gcc -O2, assertions", "gcc -O3, this processor, unsigned char", "gcc -O3, link-time optimisation", "clang -O3, this processor"]
def styles(tier): return FEW if tier == "quick" else list(vbuild.STYLES)
FULLQ = "1_SHORT_SIG"
def sets(tier): return QUICK if tier == "quick" else [vbuild.scaled(b, 14, 4) for b in FULL]
def full(tier): return [FULLQ] if tier == "quick" else [s for s in FULL if s[0] != "5"]
def tasks(tier, seed):
    x = 8 if tier == "thorough" else 1
    out = [{"label": f"{st}: {i} {s}", "fn": "style", "args": {"st": st, "impl": i, "s": s, "seconds": 1.8 * x}, "est": (14 if i == "ref" and s[0] != "1" else 3) * x} for st in styles(tier) for i, s in pairs(sets(tier))]
    return out + [{"label": f"{st}: {i} {s}", "fn": "whole", "args": {"st": st, "impl": i, "s": s}, "est": 6 * x} for st in styles(tier) for i, s in pairs(full(tier), ["avx2"] if x == 1 else None)]
def builds(tier, t):
    return [vbuild.build_model] + [lambda i=i, s=s, st=st: vbuild.build_so(i, s, st) for st in styles(tier) for i, s in pairs(sets(tier)) + pairs(full(tier), ["avx2"] if tier == "quick" else None)]

def style(W, st, impl, s, seconds):
    I, M = Impl(impl, s, st), Model(s); tag = f"{impl}:{s}:{st}"; lens = boundary_lengths(M); t0 = time.time(); n = 0
    pin = forcing_with(I, M)
    while n < 2 or time.time() - t0 < seconds / 3:
        if n % 3 == 0:
            sd = W.rbytes(48); I.seed(sd); c = M.rng(sd); W.at(op="keygen", set=s, impl=impl, compiled=st, seed=sd.hex()); got = I.keygen(); pk, sk = want = M.keygen(c)
            W.check(got == want, f"key pair depends on how the code is compiled:{tag}", seed=sd, public_key_right=got[0] == pk, secret_key_right=got[1] == sk); W.case(st, impl, s, sd); W.count("key pairs compared")
        m = W.rbytes(int(W.rng.choice(lens))); x = honest.forced_x(M, W.rng, ["worst", "random", "first"][n % 3]) if pin and n % 2 else None; W.at(op="sign", set=s, impl=impl, compiled=st, mlen=len(m), pinned=x is not None)
        if x is not None: I.force(x)
        sm = I.sign(m, sk); e = M.sign(c, m, sk, force=x); W.check(sm == e, f"signed message depends on how the code is compiled:{tag}", seed=sd, message=m, since_seed=n % 3, pinned=x is not None, fields=[k for k, (a, b) in M.fields(e).items() if sm[a:b] != e[a:b]])
        W.at(op="open", set=s, impl=impl, compiled=st, mlen=len(m)); rc, out = I.open(e, pk); W.check(rc == 0 and out == m, f"opening depends on how the code is compiled:{tag}", rc=rc, message=m, sm=e, pk=pk)
        if x is not None: I.force(None)
        W.case(st, impl, s, e); W.count("signed messages compared"); W.count("openings compared"); n += 1
    cases = hostile.get(s); order = W.rng.permutation(len(cases)); t0 = time.time(); k = 0
    for j in order:
        if k > 6 and time.time() - t0 > seconds / 3: break
        c = cases[j]; k += 1
        if c["force"] is not None and not pin: continue
        check_decision(W, I, c); W.count("hostile openings compared")
    t0 = time.time(); left = [getattr(comp, n)() for n in NAMES]; W.rng.shuffle(left); k = 0
    while time.time() - t0 < seconds / 3 or k < len(left) and time.time() - t0 < 3 * seconds:
        comp.drive(W, left[k % len(left)], [I], M, 1, key=f"compiled with {st}"); k += 1
def whole(W, st, impl, s):
    """one key pair, one signature and one opening at full size"""
    I, M = Impl(impl, s, st), Model(s); tag = f"{impl}:{s}:{st}"; key = honest.get(s)[0]; I.seed(key["seed"]); W.at(op="keygen", set=s, impl=impl, compiled=st); got = I.keygen()
    W.check(got == (key["pk"], key["sk"]), f"key pair depends on how the code is compiled:{tag}", seed=key["seed"]); e = key["msgs"][0]; W.at(op="sign", set=s, impl=impl, compiled=st); sm = I.sign(e["m"], key["sk"])
    W.check(sm == e["sm"], f"signed message depends on how the code is compiled:{tag}", message=e["m"]); W.at(op="open", set=s, impl=impl, compiled=st); rc, m = I.open(e["sm"], key["pk"])
    W.check(rc == 0 and m == e["m"], f"opening depends on how the code is compiled:{tag}", rc=rc); W.case(st, impl, s, "full"); W.count("full-size operations compared", 3); W.sample(compiled=st, set=s, impl=impl)
def forcing_with(I, M):
    if not I.can_force(): return False
    key = honest.get(I.s)[0]; x = honest.forced_x(M, np.random.default_rng(5), "random"); sm = M.sign(M.rng(b"forcing"), b"forcing", key["sk"], force=x); I.force(x); rc, _ = I.open(sm, key["pk"]); n = I.force_calls(); I.force(None)
    return rc == 0 and n > 0
