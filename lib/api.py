"""API-level observations shared by the property modules."""
import hashlib
import numpy as np
import vbuild, honest, hostile, cover
from vimpl import Model, Impl

FULL, SCALED = vbuild.SETS, [vbuild.scaled(s) for s in vbuild.SETS]
# seconds of one signing or opening (this machine, release build)
_T = {"ref": {"1_BALANCED": .8, "1_INTERMEDIATE": .75, "1_SHORT_SIG": .6, "3_BALANCED": 6.5, "3_SHORT_SIG": 8, "5_BALANCED": 32, "5_SHORT_SIG": 21},
      "avx2": {"1_BALANCED": .1, "1_INTERMEDIATE": .1, "1_SHORT_SIG": .09, "3_BALANCED": 1.4, "3_SHORT_SIG": 1.6, "5_BALANCED": 4.3, "5_SHORT_SIG": 2.9}}
_TT = dict(zip(FULL, [247, 244, 198, 759, 895, 1352, 907]))
def cost(impl, s):
    b = vbuild.base_set(s); t = _T[impl][b]
    return t if b == s else t * int(s.split("~")[1].split(".")[0]) / _TT[b] + .005
def model_cost(s):
    b = vbuild.base_set(s); t = {"1": .2, "3": 2, "5": 7}[s[0]]
    return t if b == s else t * 45 / _TT[b]
def pairs(sets=None, impls=None): return [(i, s) for s in (sets or FULL + SCALED) for i in (impls or vbuild.IMPLS)]
def reps(unit, seconds, lo, hi): return int(max(lo, min(hi, seconds / unit)))

def boundary_lengths(M):
    """message lengths around the ends of hash blocks: the hash input is T blocks, message, salt"""
    rate = 200 - 2 * M.D; pre = M.T * M.K * (M.N - M.K)
    out = {0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 255, 256, 257, 1000}
    for tail in (0, M.D):
        base = (-(pre + tail)) % rate
        for d in (-2, -1, 0, 1, 2):
            for b in (0, 1, 2): out.add(max(0, base + d + b * rate))
    for b in (1, 2):
        for d in (-1, 0, 1): out.add(b * rate + d)
    return sorted(out)
def round_lengths(rng):
    """lengths an implementation could work in pieces of, one more and one less, in random order and without end"""
    base = [1 << k for k in range(9, 18)] + [3 << k for k in range(7, 16)] + [1000, 10000, 100000, 1 << 18, 5 << 14]
    while True:
        for i in rng.permutation(len(base)):
            yield base[i]; yield base[i] + int(rng.choice([-1, 1]))

_forcing = {}
def forcing(W, I, M):
    """whether chosen challenges can be driven through this build: a random (not extremal) one, with a
    signature of the model's, must be intercepted and accepted"""
    k = (I.impl, I.s)
    if k not in _forcing:
        ok = I.can_force()
        if ok:
            key = honest.get(I.s)[0]
            fe = [f for f in key["forced"] if len(f["nodes"]) < M.maxseeds]
            if not fe:
                rng = np.random.default_rng(5); x = honest.forced_x(M, rng, "random"); sm = M.sign(M.rng(b"forcing"), b"forcing", key["sk"], force=x); fe = [{"sm": sm, "x": x.tobytes()}]
            fe = fe[0]
            I.force(np.frombuffer(fe["x"], np.uint8)); rc, _ = I.open(fe["sm"], key["pk"]); n = I.force_calls(); I.force(None)
            ok = rc == 0 and n > 0
        if not ok: W.note("challenges cannot be pinned in this build of the tree: cases needing that were left out")
        _forcing[k] = ok
    return _forcing[k]

def dec(rc): return "accept" if rc == 0 else "reject"

def open_case(W, I, c, key="decision"):
    """one hostile case: decision, return code, message, bounds"""
    W.at(case=c["kind"], set=I.s, impl=I.impl, smlen=len(c["sm"]), forced=c["force"] is not None)
    if c["force"] is not None: I.force(np.frombuffer(c["force"], np.uint8))
    rc, m = I.open(c["sm"], c["pk"], fill=0x5A)
    if c["force"] is not None: I.force(None)
    W.case(I.impl, I.s, c["sm"], c["pk"], c["force"] or b"")
    W.count(f"expected {['accept', 'reject: too short', 'reject: seed count out of range', 'reject: seed count not the required one', 'reject: malformed public key', 'reject: invalid action', 'reject: digest mismatch'][c['code']]}")
    return rc, m

def check_decision(W, I, c):
    rc, m = open_case(W, I, c)
    want = 0 if c["code"] == 0 else -1
    W.check(rc == want, f"decision:{I.impl}:{I.s}:{c['kind']}", kind=c["kind"], got=rc, expected=want, reason=c["code"], sm=c["sm"], pk=c["pk"], forced_challenge=c["force"])
    if rc == 0 and want == 0: W.check(m == c["sm"][:c["mlen"]], f"recovered message:{I.impl}:{I.s}", kind=c["kind"], got=m, expected=c["sm"][:c["mlen"]])
    return rc, m

def split(cases, n):
    return [cases[i::n] for i in range(n)]

def case_cost(impl, s, c):
    u = cost(impl, s)
    if c["full"]: return u
    if "in action last" in c["kind"]: return u
    if "in action inner" in c["kind"]: return u / 2
    if c["code"] in (0, 6): return u
    return .0005 + (u / 20 if "action" in c["kind"] else 0)
def affordable(W, cases, impl, s, seconds):
    """all cheap cases, and as many of the expensive ones as fit, chosen by the seed"""
    out, left = [], seconds
    for i in W.rng.permutation(len(cases)):
        k = case_cost(impl, s, cases[i])
        if k < .02 or left - k >= 0:
            out.append(cases[i]); left -= k
    W.count("hostile cases left out for time", len(cases) - len(out)) if len(out) < len(cases) else None
    return out

def comp_tasks(names, seconds, fn="comp", sets=FULL, label="component", **extra):
    """one task per full parameter set: component subjects against their oracle"""
    return [{"label": f"{label} {s}", "fn": fn, "args": {"s": s, "names": names, "seconds": seconds, **extra}, "est": seconds + 1} for s in sets]
def run_comp(W, s, names, seconds, oracle=True):
    import comp, time
    C = [getattr(comp, n)() for n in names]; M = Model(s); subj = [Impl(i, s) for i in vbuild.IMPLS]; seconds = seconds * (15 if W.thorough else 1)
    t0 = time.time(); per = {}
    for c in C:                       # a few of each, measured, then by equal share of the time
        t = time.time(); comp.drive(W, c, subj, M, 4, oracle=oracle); per[c.name] = (time.time() - t) / 4
    for c in C:
        k = int(max(6, min(4000, seconds / len(C) / max(per[c.name], 1e-4))))
        comp.drive(W, c, subj, M, k, oracle=oracle)

def uniform(W, counts, total, tag, what, p=1.0):
    """chi-square against equal frequencies (p: variance of a cell relative to the Poisson one); speaks only far beyond chance"""
    from scipy.special import gammaincc
    counts = np.asarray(counts, float); k = len(counts); e = total / k; v = ((counts - e) ** 2 / e).sum() / p
    sf = float(gammaincc((k - 1) / 2, v / 2)); W.high(f"-100 log10 p of {what}", -100 * np.log10(max(sf, 1e-300))); W.count(f"frequency tests of {what}")
    W.check(sf > 1e-12, f"{what} not equally frequent:{tag}", p_value=sf, samples=int(total), smallest=int(counts.argmin()), largest=int(counts.argmax()), counts=counts[:40].astype(int))

def api_tasks(seconds=1.5):
    """whole operations of small builds against the model: what remains visible when a component cannot be reached"""
    return [{"label": f"operations {i} {s}", "fn": "operations", "args": {"impl": i, "s": s, "seconds": seconds}, "est": seconds + .5} for s in [vbuild.scaled(b, 14, 4) for b in FULL] for i in vbuild.IMPLS]
def operations(W, impl, s, seconds):
    import time
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; t0 = time.time(); n = 0; seconds *= 15 if W.thorough else 1
    while n < 4 or time.time() - t0 < seconds:
        if n % 4 == 0:
            sd = W.rbytes(48); I.seed(sd); c = M.rng(sd); W.at(op="keygen", set=s, impl=impl, seed=sd.hex()); got, want = I.keygen(), M.keygen(c); pk, sk = want
            W.check(got[1] == want[1], f"secret key differs from the specified one:{tag}", seed=sd); W.check(got[0] == want[0], f"public key differs from the specified one:{tag}", seed=sd, got=got[0], expected=want[0]); W.case("keygen", tag, sd)
        m = W.rbytes(int(W.rng.integers(0, 300))); W.at(op="sign", set=s, impl=impl, mlen=len(m), seed=sd.hex()); sm = I.sign(m, sk); want = M.sign(c, m, sk)
        f = M.fields(want); bad = [k for k, (a, b) in f.items() if sm[a:b] != want[a:b]]; W.check(sm == want, f"signed message differs from the specified one:{tag}", fields=bad, seed=sd, m=m)
        W.at(op="open", set=s, impl=impl, mlen=len(m), seed=sd.hex()); rc, out = I.open(want, pk); W.check(rc == 0 and out == m, f"specified signature not accepted:{tag}", rc=rc, seed=sd, m=m)
        W.case("sign", tag, want); W.count("operations compared with the specification", 2); n += 1
    if n: W.sample(set=s, impl=impl, signatures=n)
def scaled_builds(sets=None):
    return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for s in (sets or FULL + [vbuild.scaled(b, 14, 4) for b in FULL]) for i in vbuild.IMPLS]

# built without optimisation every access the source makes is made, also one whose value is then masked away
LITERAL = "clang -O0, assertions"
def literal_tasks(x=1): return [{"label": f"packing {i} {s} unoptimised", "fn": "packing", "args": {"impl": i, "s": s, "seconds": x, "style": LITERAL}, "est": 3} for i, s in pairs(FULL)]
def literal_builds(): return [lambda i=i, s=s: vbuild.build_so(i, s, LITERAL) for i, s in pairs(FULL)]
class Guarded:
    """n bytes that end (and, in another copy, start) exactly at an inaccessible page: reads outside them kill the process, which the driver reports"""
    def __init__(self, n):
        import ctypes as C, mmap
        P = mmap.PAGESIZE; self.n = n; self.len = ((n + P - 1) // P + 2) * P; libc = C.CDLL(None, use_errno=True); libc.mmap.restype = C.c_void_p; libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]; libc.mprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
        self.base = libc.mmap(None, self.len, 3, 0x22, -1, 0); assert self.base not in (None, 2 ** 64 - 1)
        assert libc.mprotect(self.base, P, 0) == 0 and libc.mprotect(self.base + self.len - P, P, 0) == 0
        self.end = self.base + self.len - P - n; self.start = self.base + P; self.C = C
    def put(self, b, where="end", fill=None):
        C = self.C; a = self.end if where == "end" else self.start
        if fill is not None: C.memset(self.start, fill, self.len - 2 * (self.start - self.base))
        C.memmove(a, bytes(b), len(b)); return C.c_void_p(a)
    def lock(self, on=True): libc = self.C.CDLL(None); libc.mprotect.argtypes = [self.C.c_void_p, self.C.c_size_t, self.C.c_int]; assert libc.mprotect(self.start, self.len - 2 * (self.start - self.base), 1 if on else 3) == 0
    def get(self, where="end"): return self.C.string_at(self.end if where == "end" else self.start, self.n)
