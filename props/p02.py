"""Lock-step differential: both implementations get the same seed, inputs, challenges and hostile bytes; the monitor compares everything they return."""
from api import *
import comp, streams, time
RULE = ("one case = one operation run on the same inputs in both implementations with all outputs compared (keys, signed message bytes, generator state afterwards, "
        "decision and message on opening, component outputs); non-trivial and distinct = distinct inputs")
NAMES = [c.__name__ for c in comp.ALL]
def tasks(tier, seed):
    th = tier == "thorough"; out = []; x = 12 if th else 1
    for s in SCALED:
        u = cost("ref", s) + cost("avx2", s)
        out.append({"label": f"lock step {s}", "fn": "lock", "args": {"s": s, "n": reps(3 * u, 8 * x, 4, 500)}, "est": 9})
        out.append({"label": f"hostile {s}", "fn": "hostile_", "args": {"s": s, "seconds": 7 * x}, "est": 9})
    for s in FULL:
        u = cost("ref", s)
        out.append({"label": f"lock step {s}", "fn": "lock", "args": {"s": s, "n": reps(3 * u, 5 * x, 1, 60)}, "est": max(6, u * 1.2)})
        out.append({"label": f"hostile {s}", "fn": "hostile_", "args": {"s": s, "seconds": max(4, 1.1 * u if u < 10 else 0) * x}, "est": 5})
    out += [{"label": f"hostile streams {s}", "fn": "stream", "args": {"s": s, "seconds": 3 * (15 if th else 1)}, "est": 4} for s in FULL]
    out += [{"label": f"round lengths {b}", "fn": "lengths", "args": {"s": vbuild.scaled(b, 6, 2), "seconds": 3 * (15 if th else 1)}, "est": 4} for b in FULL]
    return out + comp_tasks(NAMES, 4, fn="comps")
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs() + pairs([vbuild.scaled(b, 6, 2) for b in FULL])]

def comps(W, **a): run_comp(W, oracle=False, **a)

def stream(W, s, seconds):
    """both implementations sample from the same chosen streams"""
    A, B = Impl("ref", s), Impl("avx2", s); M = Model(s); names = [k for k, (g, _) in streams.KINDS.items() if A.has(g) and B.has(g)]; t0 = time.time(); n = 0
    if not names or not streams.available(A) or not streams.available(B): W.note("streams cannot be chosen in this build of the tree: hostile streams were left out"); return
    base = W.rng
    while n < 3 * len(names) or time.time() - t0 < seconds:
        name = names[n % len(names)]; n += 1; r = int(base.integers(1 << 62)); res = []
        for I in (A, B): W.rng = np.random.default_rng(r); res.append(streams.KINDS[name][1](W, I, M))
        (na, _, a, _, script, _), (nb, _, b, _, sb, _) = res; assert script == sb
        if not na or not nb: W.count("streams not drawn by one of the implementations"); continue
        W.check(a == b, f"sampling differs under a hostile stream:{name}:{s}", script=script[:4000], ref=a[:200], avx2=b[:200]); W.case("stream", s, name, script); W.count("hostile streams compared")
    W.rng = base
def lengths(W, s, seconds):
    """messages of round lengths: what one implementation hashes in pieces the other must hash the same way"""
    A, B = Impl("ref", s), Impl("avx2", s); sd = W.rbytes(48); A.seed(sd); B.seed(sd); pk, sk = A.keygen(); B.keygen(); t0 = time.time(); k = 0
    for n in round_lengths(W.rng):
        if time.time() - t0 > seconds and k >= 46: break
        m = W.rbytes(n); k += 1; W.at(op="sign", set=s, mlen=n); a, b = A.sign(m, sk), B.sign(m, sk)
        W.check(a == b, f"signed messages differ:{s}", mlen=n, first_difference=next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), None)); W.case("round", s, a); W.count("signed messages of round length compared")
        if k % 2: W.at(op="cross open", set=s, mlen=n); rb, mb = B.open(a, pk); ra, ma = A.open(b, pk); W.check((rb, ra) == (0, 0) and ma == mb == m, f"one implementation does not open what the other signed:{s}", ref=ra, avx2=rb, mlen=n)
    W.sample(set=s, lengths=k)
def lock(W, s, n):
    A, B = Impl("ref", s), Impl("avx2", s); M = Model(s); lens = boundary_lengths(M); order = [lens[i] for i in W.rng.permutation(len(lens))]; keys = []
    pin = forcing(W, A, M) and forcing(W, B, M) if cost("ref", s) < 10 else False
    for name in ("pk", "sk", "sig"): W.check(A.info[name] == B.info[name], f"advertised size:{name}:{s}", ref=A.info[name], avx2=B.info[name])
    expensive = cost("ref", s) > 3
    for i in range(n):
        if i % 3 == 0 or not keys:
            sd = W.rbytes(48); A.seed(sd); B.seed(sd); W.at(op="keygen", set=s); ka, kb = A.keygen(), B.keygen()
            W.check(ka == kb, f"key pairs differ:{s}", seed=sd); W.case("key", s, sd); W.count("key pairs compared"); keys.append(ka)
            W.check(A.state() == B.state() or A.randombytes(32) == B.randombytes(32), f"generator state after key generation differs:{s}", seed=sd)
        pk, sk = keys[int(W.rng.integers(len(keys)))]; m = W.rbytes(order[i % len(order)]); x = None
        if pin and i % 3 == 2: x = honest.forced_x(M, W.rng, ["worst", "random", "first"][(i // 3) % 3]); A.force(x); B.force(x)
        if i % 2: sd = W.rbytes(48); A.seed(sd); B.seed(sd)
        W.at(op="sign", set=s, mlen=len(m), pinned=x is not None)
        a = A.sign(m, sk); b = B.sign(m, sk)
        W.check(a == b and A.rc == B.rc and A.smlen == B.smlen, f"signed messages differ:{s}", mlen=len(m), pinned=x is not None, ref=a, avx2=b,
                first_difference=next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), None), fields=str(M.fields(a)))
        W.check(A.state() == B.state() or A.randombytes(32) == B.randombytes(32), f"generator state after signing differs:{s}", mlen=len(m))
        W.at(op="cross open", set=s, mlen=len(m))
        rb, mb = B.open(a, pk); W.check(rb == 0 and mb == m, f"avx2 does not open what the reference signed:{s}", rc=rb)
        if not expensive or W.thorough:
            ra, ma = A.open(b, pk); W.check(ra == 0 and ma == m, f"reference does not open what avx2 signed:{s}", rc=ra)
            if i % 2 == 0:
                t = hostile.flip(b, int(W.rng.integers(8 * (len(b) - 1))))
                ra, ma = A.open(t, pk); rb, mb = B.open(t, pk); W.check((ra, ma if ra == 0 else 0) == (rb, mb if rb == 0 else 0), f"decisions differ on a tampered message:{s}", ref=ra, avx2=rb, sm=t, pk=pk); W.count("tampered messages compared")
        W.case("sign", s, a); W.count("signed messages compared")
        if x is not None: A.force(None); B.force(None); W.count("of these under a pinned challenge")
        if i == 0: W.sample(set=s, mlen=len(m), sm=a[-32:])

def hostile_(W, s, seconds):
    A, B = Impl("ref", s), Impl("avx2", s); M = Model(s); cases = affordable(W, hostile.get(s), "ref", s, seconds)
    pin = None
    for c in cases:
        if c["force"] is not None:
            if pin is None: pin = forcing(W, A, M) and forcing(W, B, M)
            if not pin: continue
        ra, ma = open_case(W, A, c); rb, mb = open_case(W, B, c)
        W.check(ra == rb and (ra != 0 or ma == mb), f"decisions differ:{s}:{c['kind']}", ref=ra, avx2=rb, sm=c["sm"], pk=c["pk"], forced=c["force"])
        W.count("hostile decisions compared")
