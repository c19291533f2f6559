"""NEON: the sources for Arm processors run here with each intrinsic executed as the Arm C Language Extensions define it, monitored against the model and by AddressSanitizer and UBSan."""
from api import *
import comp, san, time
RULE = ("one case = one key pair, signed message, opening of a (hostile) message or component call of the NEON sources, its complete output compared with the model's, or one honest or hostile operation of theirs in exact-size buffers under sanitizers; "
        "non-trivial and distinct = distinct (build, input)")
ASSUMPTIONS = ["intrinsics are executed by shim/neon/arm_neon.h, written from their definitions; an Arm compiler's own code generation is not observed", "little-endian, as the Arm systems the sources are for"]
NAMES = [c.__name__ for c in comp.ALL]
SMALL = [vbuild.scaled(b, 14, 4) for b in FULL]
def cost_(s): return 2 * cost("avx2", s)
def tasks(tier, seed):
    th = tier == "thorough"; x = 15 if th else 1; out = []
    for s in SMALL:
        out.append({"label": f"operations {s}", "fn": "ops", "args": {"s": s, "seconds": 3 * x}, "est": 3 * x + 2})
        for k in ("honest", "hostile"): out.append({"label": f"{k} under sanitizers {s}", "fn": "sanitized", "args": {"s": s, "kind": k, "seconds": 4 * x}, "est": 4 * x + 3})
    out += [{"label": f"components {s}", "fn": "comps", "args": {"s": s, "seconds": 5 * x}, "est": 5 * x + 2} for s in FULL]
    return out + [{"label": f"full size {s}", "fn": "full", "args": {"s": s, "n": reps(3 * cost_(s), 4 * x, 1, 200)}, "est": max(4, 3 * cost_(s))} for s in FULL]
def so(s):
    """None where the sources use what the intrinsics of shim/neon leave out"""
    try: return vbuild.build_so("neon", s)
    except vbuild.BuildError: return None
def exe(s):
    try: return san.exe("gasan", "neon", s)
    except vbuild.BuildError: return None
def builds(tier, t): return [vbuild.build_model] + [lambda s=s: so(s) for s in FULL + SMALL] + [lambda s=s: exe(s) for s in SMALL]
def subject(W, s):
    if so(s) is None: W.note("the NEON sources do not build with the intrinsics known here"); return None
    return Impl("neon", s)
def pinning(I, M):
    if not I.can_force(): return False
    key = honest.get(I.s)[0]; x = honest.forced_x(M, np.random.default_rng(5), "random"); sm = M.sign(M.rng(b"forcing"), b"forcing", key["sk"], force=x); I.force(x); rc, _ = I.open(sm, key["pk"]); n = I.force_calls(); I.force(None)
    return rc == 0 and n > 0

def ops(W, s, seconds):
    I, M = subject(W, s), Model(s)
    if I is None: return
    lens = boundary_lengths(M); t0 = time.time(); n = 0; pin = pinning(I, M)
    for name, want in (("pk", M.pk_bytes), ("sk", M.sk_bytes), ("sig", M.sig_max)): W.check(I.info[name] == want, f"advertised size:{name}:neon:{s}", got=I.info[name], expected=want)
    while n < 6 or time.time() - t0 < seconds / 2:
        if n % 3 == 0:
            sd = W.rbytes(48); I.seed(sd); c = M.rng(sd); W.at(op="keygen", set=s, impl="neon", seed=sd.hex()); got = I.keygen(); pk, sk = want = M.keygen(c)
            W.check(got == want, f"key pair of the NEON sources differs:{s}", seed=sd, public_key_right=got[0] == pk, secret_key_right=got[1] == sk); W.case("keygen", s, sd); W.count("key pairs compared")
        m = W.rbytes(int(W.rng.choice(lens))); x = honest.forced_x(M, W.rng, ["worst", "random", "first"][n % 3]) if pin and n % 2 else None; W.at(op="sign", set=s, impl="neon", mlen=len(m), pinned=x is not None)
        if x is not None: I.force(x)
        sm = I.sign(m, sk); e = M.sign(c, m, sk, force=x); W.check(sm == e, f"signed message of the NEON sources differs:{s}", seed=sd, message=m, since_seed=n % 3, pinned=x is not None, fields=[k for k, (a, b) in M.fields(e).items() if sm[a:b] != e[a:b]])
        W.at(op="open", set=s, impl="neon", mlen=len(m)); rc, out = I.open(e, pk); W.check(rc == 0 and out == m, f"opening by the NEON sources differs:{s}", rc=rc, message=m, sm=e, pk=pk)
        if x is not None: I.force(None)
        W.case("sign", s, e); W.count("signed messages compared"); W.count("openings compared"); n += 1
    cases = hostile.get(s); t0 = time.time()
    for k, j in enumerate(W.rng.permutation(len(cases))):
        if k > 20 and time.time() - t0 > seconds / 2: break
        if cases[j]["force"] is not None and not pin: continue
        check_decision(W, I, cases[j]); W.count("hostile openings compared")
def comps(W, s, seconds):
    I, M = subject(W, s), Model(s)
    if I is None: return
    left = [getattr(comp, n)() for n in NAMES]; W.rng.shuffle(left); t0 = time.time(); k = 0
    while time.time() - t0 < seconds or k < 2 * len(left) and time.time() - t0 < 3 * seconds: comp.drive(W, left[k % len(left)], [I], M, 2, key="component of the NEON sources"); k += 1
def full(W, s, n):
    I, M = subject(W, s), Model(s)
    if I is None: return
    key = honest.get(s)[0]; I.seed(key["seed"]); W.at(op="keygen", set=s, impl="neon"); W.check(I.keygen() == (key["pk"], key["sk"]), f"key pair of the NEON sources differs:{s}", seed=key["seed"]); W.case("keygen", s, key["seed"])
    for j in range(n):
        e = key["msgs"][j % len(key["msgs"])]
        if j == 0: W.at(op="sign", set=s, impl="neon"); sm = I.sign(e["m"], key["sk"]); W.check(sm == e["sm"], f"signed message of the NEON sources differs:{s}", message=e["m"]); W.count("signed messages compared")
        W.at(op="open", set=s, impl="neon"); rc, m = I.open(e["sm"], key["pk"]); W.check(rc == 0 and m == e["m"], f"opening by the NEON sources differs:{s}", rc=rc, message=e["m"]); W.case("open", s, e["sm"]); W.count("openings compared")
    W.sample(set=s, openings=n)
def sanitized(W, s, kind, seconds):
    if exe(s) is None: W.note("the NEON sources do not build with the intrinsics known here"); return
    M = Model(s)
    if kind == "honest": recs, kinds = san.honest_recs(M, W.rng, 60 if not W.thorough else 2000, [33, 0, 1] + [int(v) for v in W.rng.permutation(boundary_lengths(M))])
    else:
        import props.p07; recs, kinds = props.p07.records(W, M, "avx2", s, 60 if not W.thorough else 1000, False)
    st = san.drive(W, "neon", s, "gasan", recs, kinds, seconds, key=f"NEON sources, {kind}")
    if st: W.sample(set=s, kind=kind, cases=int(st[1]), accepted=int(st[2]), rejected=int(st[3]))
