"""Memory: operations run on a painted stack with a guard page; the monitor measures the stack each used, what it asked of the heap, and the growth of the process."""
from api import *
import ctypes as C, mmap, time
from huge import Huge
from vimpl import arr, buf, ptr
RULE = ("one case = one key generation, signature or opening executed on a painted stack, with the stack used and the heap requests measured and compared with the documented figures "
        "and with the same operation on other inputs; non-trivial and distinct = distinct (build, operation, input)")
ASSUMPTIONS = ["measured in the release build of this machine; the documented peaks may be exceeded threefold, which covers other compilers and reorganised code"]
# Utilities/MemoryBenchmarking/README.md: peak stack of key generation, signing, opening
DOC = {"ref": {"1_INTERMEDIATE": (82472, 171736, 110216), "1_SHORT_SIG": (82616, 159992, 110104), "1_BALANCED": (82376, 172440, 110232), "3_SHORT_SIG": (204840, 836936, 300120), "3_BALANCED": (204760, 754728, 299864), "5_SHORT_SIG": (381496, 1270320, 525104), "5_BALANCED": (381400, 1702640, 591816)},
       "avx2": {"1_INTERMEDIATE": (119496, 206328, 142152), "1_SHORT_SIG": (119640, 194584, 142008), "1_BALANCED": (119384, 207032, 142136), "3_SHORT_SIG": (284872, 977752, 375480), "3_BALANCED": (284808, 886072, 375224), "5_SHORT_SIG": (477128, 1403800, 618520), "5_BALANCED": (477032, 1854648, 684952)}}
OPS = ("key generation", "signing", "opening")
def tasks(tier, seed):
    th = tier == "thorough"; x = 12 if th else 1; out = []
    for i, s in pairs(FULL):
        u = cost(i, s); full = th or u < 22
        out.append({"label": f"full size {i} {s}", "fn": "size", "args": {"impl": i, "s": s, "ops": 3 if th or u < 10 else 2 if full else 1, "n": reps(u, 2 * x, 1, 20)}, "est": 2 * u if full else 3})
    for i, s in pairs([t if t[0] == "1" or th else vbuild.scaled(vbuild.base_set(t), 14, 4) for t in SCALED]):
        out.append({"label": f"lengths and history {i} {s}", "fn": "history", "args": {"impl": i, "s": s, "seconds": 3 * x, "mb": 600 if th else 30}, "est": 6})
        out.append({"label": f"hostile {i} {s}", "fn": "hostile_", "args": {"impl": i, "s": s, "seconds": 3 * x}, "est": 5})
    out += [{"label": f"hostile {i} {s}", "fn": "hostile_", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 5} for i, s in pairs([s for s in FULL if s[0] == "1"])]
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs(FULL + SCALED + [vbuild.scaled(b, 14, 4) for b in FULL])]

class Stack:
    """size bytes with an inaccessible page below"""
    def __init__(self, size=6 << 20):
        libc = C.CDLL(None); libc.mmap.restype = C.c_void_p; libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]; libc.mprotect.argtypes = [C.c_void_p, C.c_size_t, C.c_int]
        G = 1 << 20; b = libc.mmap(None, size + G, 3, 0x22, -1, 0); assert b not in (None, 2 ** 64 - 1) and libc.mprotect(b, G, 0) == 0
        self.a = np.frombuffer((C.c_ubyte * size).from_address(b + G), np.uint8)
class Run:
    def __init__(self, W, impl, s):
        self.W, self.I, self.st, self.tag, self.most, self.least, self.s, self.impl = W, Impl(impl, s), Stack(), f"{impl}:{s}", [0] * 3, [1 << 30] * 3, s, impl
        self.ok = self.I.has("vs_stack")
        if not self.ok: W.note("operations cannot be run on a stack of the monitor's in this build of the tree")
    def op(self, k, *a, key, **d):
        W = self.W; W.at(op=OPS[k], set=self.s, impl=self.impl, **d); rc, used, calls, asked, live = self.I.on_stack(self.st.a, k, *a); self.most[k] = max(self.most[k], used); self.least[k] = min(self.least[k], used) if rc == 0 else self.least[k]
        W.check(live == 0, f"{OPS[k]} leaves heap memory behind:{self.tag}", blocks=live, requests=calls, **d); W.count("heap requests", calls); W.count(f"{OPS[k]}: operations measured"); W.high(f"stack of {OPS[k]} {self.tag}", used); W.high("heap bytes asked by one operation", asked)
        W.check(asked <= 4 << 20, f"{OPS[k]} asks the heap for memory beyond a fixed amount:{self.tag}", bytes=asked, **d); W.case(self.tag, k, key); return rc
    def keygen(self, seed):
        I = self.I; pk, sk = buf(I.pk_bytes), buf(I.sk_bytes); I.seed(seed); self.op(0, pk.ctypes.data, None, None, 0, sk.ctypes.data, key=seed); return pk.tobytes(), sk.tobytes()
    def sign(self, m, sk, **d):
        I = self.I; sm = buf(len(m) + I.sig_bytes); n = C.c_ulonglong(); a, b = arr(m), arr(sk); rc = self.op(1, sm.ctypes.data, C.addressof(n), a.ctypes.data, len(m), b.ctypes.data, key=m[:200] + str(len(m)).encode(), mlen=len(m), **d); return rc, sm[:n.value].tobytes()
    def open(self, sm, pk, **d):
        o = buf(len(sm) + 8); n = C.c_ulonglong(); a, b = arr(sm), arr(pk); rc = self.op(2, o.ctypes.data, C.addressof(n), a.ctypes.data, len(sm), b.ctypes.data, key=sm[-2000:], smlen=len(sm), **d); return rc, n.value
    def documented(self, k):
        d = DOC[self.impl][vbuild.base_set(self.s)][k]; self.W.check(self.most[k] <= 3 * d, f"{OPS[k]} uses far more stack than documented:{self.tag}", measured=self.most[k], documented=d)
    def same(self, k, what, slack=0):
        """recursion over columns may cost up to 256 bytes for each"""
        I = self.I; margin = 256 * (I.info["N"] - I.info["K"]) + slack
        if self.most[k]: self.W.check(self.most[k] - self.least[k] <= margin, f"stack of {OPS[k]} depends on {what}:{self.tag}", least=self.least[k], most=self.most[k]); self.W.high(f"spread of the stack of {OPS[k]}", self.most[k] - self.least[k])

def size(W, impl, s, ops, n):
    R = Run(W, impl, s); key = honest.get(s)[0]
    if not R.ok: return
    for j in range(n):
        pk, sk = R.keygen(W.rbytes(48)) if j or ops == 1 else R.keygen(key["seed"])
        if ops > 1: rc, sm = R.sign(W.rbytes(33), sk); W.check(rc == 0, f"signing failed:{R.tag}", rc=rc)
        if ops > 2: rc, ml = R.open(sm, pk); W.check(rc == 0 and ml == 33, f"opening failed:{R.tag}", rc=rc)
    if ops == 2 and n: e = key["msgs"][0]; R.open(e["sm"][:len(e["m"])] + b"\1" * (len(e["sm"]) - len(e["m"])), key["pk"])
    for k in range(ops): R.documented(k); R.same(k, "its input")
    W.sample(set=s, impl=impl, stacks=dict(zip(OPS, R.most)))
def rss():
    with open("/proc/self/statm") as f: return int(f.read().split()[1]) * mmap.PAGESIZE
def history(W, impl, s, seconds, mb):
    """messages of very different lengths, then many operations with the memory of the process before and after"""
    R = Run(W, impl, s); M = Model(s)
    if not R.ok: return
    pin = forcing(W, R.I, M); pk, sk = R.keygen(W.rbytes(48))
    for n in (0, 1, 1000, 100000, 3000000, mb << 20):
        m = (W.rbytes(min(n, 4096)) * (n // 4096 + 1))[:n]; rc, sm = R.sign(m, sk); W.check(rc == 0, f"signing failed:{R.tag}", mlen=n, rc=rc); rc, ml = R.open(sm, pk); W.check(rc == 0 and ml == n, f"opening failed:{R.tag}", mlen=n, rc=rc)
        rc, ml = R.open(hostile.flip(sm, 8 * n + 5), pk); W.high("message length", n)
    del m, sm; t0 = time.time(); c = 0; at = []; cases = [x for x in hostile.get(s) if x["force"] is None and case_cost(impl, s, x) < .1]
    if pin:
        for k in range(6): x = honest.forced_x(M, W.rng, ["worst", "random", "first"][k % 3]); R.I.force(x); rc, sm = R.sign(b"extremal", sk, pinned=True); R.open(sm, pk, pinned=True); R.I.force(None)
    m = W.rbytes(100000)
    while c < 40 or time.time() - t0 < seconds:
        if c % 20 == 0: pk, sk = R.keygen(W.rbytes(48))
        if c % 4 == 0: rc, sm = R.sign(m, sk)
        elif c % 4 == 1: R.open(sm, pk)
        else: x = cases[int(W.rng.integers(len(cases)))]; R.open(x["sm"], x["pk"], kind=x["kind"])
        c += 1
        if c % 10 == 0: at.append(rss())
    h = len(at) // 2; grown = at[-1] - at[h]; W.high("growth of the process over the second half of its life", max(grown, 0)); W.check(grown < (2 << 20) + 4096 * c, f"memory grows with the number of operations:{R.tag}", operations=c, resident=at[:3] + at[-3:])
    for k in range(3): R.same(k, "the message length, challenge or history")
    W.sample(set=s, impl=impl, operations=c, stacks=dict(zip(OPS, R.most)))
def hostile_(W, impl, s, seconds):
    R = Run(W, impl, s); M = Model(s)
    if not R.ok: return
    for c in affordable(W, hostile.get(s), impl, s, seconds):
        if c["force"] is not None:
            if not forcing(W, R.I, M): continue
            R.I.force(np.frombuffer(c["force"], np.uint8))
        R.open(c["sm"], c["pk"], kind=c["kind"])
        if c["force"] is not None: R.I.force(None)
    d = [R.most[2], R.least[2]]; low = honest.get(s)[0]["msgs"][0]; R.least[2] = 1 << 30; R.open(low["sm"], honest.get(s)[0]["pk"]); base = R.least[2]; I = R.I; margin = 256 * (I.info["N"] - I.info["K"])
    W.check(d[0] <= base + margin, f"stack of opening depends on the presented bytes:{R.tag}", honest=base, most=d[0]); W.high("opening of hostile input: stack beyond an honest one", max(0, d[0] - base))
