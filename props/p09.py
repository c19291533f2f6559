"""Uninitialised memory: MemorySanitizer builds watch every branch, address and output; release builds are run over differently filled stack, heap and output buffers."""
from api import *
import san, ctypes, time
RULE = ("one case = one operation under MemorySanitizer with outputs checked for definedness, or one operation repeated over different prior stack, heap and output-buffer contents with results compared; "
        "non-trivial and distinct = distinct inputs per build")
SMALL = [vbuild.scaled(s, 14, 4) for s in vbuild.SETS]
def tasks(tier, seed):
    th = tier == "thorough"; out = []; x = 20 if th else 1
    for i, s in [(i, s) for s in SMALL for i in vbuild.IMPLS]:
        k = 1.6 if i == "ref" and s[0] == "5" else 1
        out.append({"label": f"msan honest {i} {s}", "fn": "msan", "args": {"impl": i, "s": s, "stub": False, "seconds": 4 * k * x}, "est": 8 * k})
        out.append({"label": f"fills {i} {s}", "fn": "fills", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 7})
    for i, s in pairs(FULL):
        if th or (i, s[0]) != ("ref", "5"): out.append({"label": f"msan full-size bookkeeping {i} {s}", "fn": "msan", "args": {"impl": i, "s": s, "stub": True, "seconds": 3 * x}, "est": 8})
        if cost(i, s) < (3 if th else 1): out.append({"label": f"fills {i} {s}", "fn": "fills", "args": {"impl": i, "s": s, "seconds": 3 * x}, "est": 7})
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda a=x["args"], k=x["fn"]: san.exe("msan", a["impl"], a["s"], a["stub"]) if k == "msan" else vbuild.build_so(a["impl"], a["s"]) for x in t]
def msan(W, impl, s, stub, seconds):
    M = Model(s); lens = [33, 0, 1] + [int(v) for v in W.rng.permutation(boundary_lengths(M))]
    recs, kinds = san.honest_recs(M, W.rng, 200 if not W.thorough else 4000, lens)
    # openings that fail at every stage belong to the same statement
    bad = [c for c in hostile.get(s) if case_cost(impl, s, c) < .02 or not stub and c["full"]]; bad = [bad[i] for i in W.rng.permutation(len(bad))[:60 if not W.thorough else 600]]
    r2 = [san.rec(1, c["sm"], c["pk"], i, c["force"], int(W.rng.integers(16))) for i, c in enumerate(bad)]
    recs = recs[:2] + r2 + recs[2:]; kinds = kinds[:2] + [c["kind"] for c in bad] + kinds[2:]
    st = san.drive(W, impl, s, "msan", recs, kinds, seconds, stub, key="uninitialised memory", patience=300)
    if st: W.sample(set=s, impl=impl, completed=int(st[1]), accepted=int(st[2]), example=kinds[0])

def fills(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); libc = ctypes.CDLL(None); t0 = time.time(); n = 0; u = cost(impl, s); pin = forcing(W, I, M); depth = 900_000 if u < 3 else 3_000_000
    V = [(0, 0, 0), (-1, 0x5a, 0xff), (0xff, 0xff, 0x33), (0x55, 0x80, 0x99)]          # stack, heap, output
    def each(fn):
        vs = V if W.thorough else [V[0], V[1 + int(W.rng.integers(3))]]; out = []
        for st, hp, of in vs:
            libc.mallopt(-6, hp); I.lib.vs_dirty_stack(st, ctypes.c_ulong(depth)); out.append(fn(of))
        libc.mallopt(-6, 0); W.count("operations repeated over other contents"); return out, vs
    hc = hostile.get(s); order = W.rng.permutation(len(hc))
    cheap = [hc[i] for i in order if case_cost(impl, s, hc[i]) < .02]; rest = [hc[i] for i in order if case_cost(impl, s, hc[i]) >= .02]
    lens = boundary_lengths(M)
    while n < 2 or time.time() - t0 < seconds:
        sd = W.rbytes(48); W.at(op="keygen", set=s, impl=impl)
        def kg(f): I.seed(sd); k = I.keygen(fill=f); return k, I.rc, I.randombytes(16)
        r, v = each(kg); W.check(all(x == r[0] for x in r), f"key generation depends on prior memory contents:{impl}:{s}", seed=sd, fills=str(v), differing=[a.hex()[:64] for a, b in [x[0] for x in r]]); W.case("key", impl, s, sd)
        pk, sk = r[0][0]; m = W.rbytes(int(W.rng.choice(lens))); x = honest.forced_x(M, W.rng, ["worst", "random"][n % 2]) if pin and n % 2 else None; n += 1
        def sg(f): I.seed(sd + b"s"); sm = I.sign(m, sk, fill=f); return sm, I.rc, I.smlen, I.randombytes(16)
        if x is not None: I.force(x)
        W.at(op="sign", set=s, impl=impl, mlen=len(m), pinned=x is not None); r, v = each(sg)
        W.check(all(y == r[0] for y in r), f"signing depends on prior memory contents:{impl}:{s}", seed=sd, mlen=len(m), fills=str(v), first_difference=[next((i for i in range(min(len(a[0]), len(r[0][0]))) if a[0][i] != r[0][0][i]), None) for a in r[1:]]); W.case("sign", impl, s, sd, m)
        sm = r[0][0]; W.at(op="open", set=s, impl=impl, mlen=len(m)); r, v = each(lambda f: (lambda q: (q[0], q[1] if q[0] == 0 else None))(I.open(sm, pk, fill=f)))
        W.check(all(y == r[0] for y in r), f"opening depends on prior memory contents:{impl}:{s}", mlen=len(m), fills=str(v), results=[y[0] for y in r]); I.force(None)
        batch = [cheap.pop() for _ in range(min(40, len(cheap)))] + [rest.pop() for _ in range(min(1 if u < 1 else 0, len(rest)))]
        for c in batch:
            if c["force"] is not None:
                if not pin: continue
                I.force(np.frombuffer(c["force"], np.uint8))
            W.at(op="open", set=s, impl=impl, kind=c["kind"]); r, v = each(lambda f: (lambda q: (q[0], q[1] if q[0] == 0 else None))(I.open(c["sm"], c["pk"], fill=f))); I.force(None)
            W.check(all(y == r[0] for y in r), f"decision depends on prior memory contents:{impl}:{s}", kind=c["kind"], fills=str(v), results=[y[0] for y in r], sm=c["sm"], pk=c["pk"]); W.case("open", impl, s, c["sm"], c["pk"])
    W.sample(set=s, impl=impl, rounds=n)
