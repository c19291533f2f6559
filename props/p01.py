"""Round trips: the monitor compares what opening returns with what was signed."""
import os
import numpy as np
import api, vbuild, cover, honest
from api import *
RULE = ("one case = one (build, key, message, generator state, challenge) signed and opened by the real code; messages of block-boundary lengths, "
        "challenges either derived from the digest or pinned to sets of hidden rounds needing the most seeds; non-trivial and distinct = distinct signed message")
def tasks(tier, seed):
    out = []; th = tier == "thorough"
    for impl, s in pairs():
        c = cost(impl, s); full = "~" not in s
        sec = (6 if full else 8) * (12 if th else 1); n = reps(2 * c, sec, 1, 400); f = reps(2 * c, sec / 3, 0, 100)
        out.append({"label": f"round trips {impl} {s}", "fn": "trips", "args": {"impl": impl, "s": s, "n": n, "nf": f}, "est": 2 * c * (n + f) + 1})
    for impl, b in pairs(FULL): out.append({"label": f"round lengths {impl} {b}", "fn": "lengths", "args": {"impl": impl, "s": vbuild.scaled(b, 6, 2), "seconds": 3 * (15 if th else 1)}, "est": 4})
    for impl in vbuild.IMPLS:
        out.append({"label": f"long messages {impl}", "fn": "long", "args": {"impl": impl, "s": vbuild.scaled("1_SHORT_SIG"), "sizes": [65535, 65536, 65537, 1 << 20, (1 << 24) + 1]}, "est": 4})
        out.append({"label": f"message of 4 GiB {impl}", "fn": "huge", "args": {"impl": impl, "s": vbuild.scaled("1_SHORT_SIG" if impl == "ref" else "3_BALANCED")}, "est": 70, "timeout": 500})
    for impl, s in LIVES: out.append({"label": f"long life {impl} {s}", "fn": "endure", "args": {"impl": impl, "s": s, "n": 70000 if th and impl == "avx2" else 4000 if th else 300}, "est": 300 * (2 * cost(impl, s) + .004), "timeout": 6000 if th else 400})
    return out
LIVES = [("ref", vbuild.scaled("1_BALANCED", 6, 2))] + [("avx2", vbuild.scaled(b, 6, 2)) for b in FULL]
def endure(W, impl, s, n):
    """hundreds of keys and messages in one process"""
    I, M = Impl(impl, s), Model(s); I.seed(W.rbytes(48)); keys = []; old = []
    for i in range(n):
        if len(keys) < 4 or i % 2 == 0:
            W.at(op="keygen", set=s, impl=impl, number=i); keys.append(I.keygen()); W.check(I.rc == 0, f"key generation fails:{impl}:{s}", rc=I.rc, number=i); keys = keys[-8:]
        pk, sk = keys[int(W.rng.integers(len(keys)))]; m = W.rbytes(int(W.rng.integers(0, 300))); sm = one(W, I, M, m, pk, sk, f"number {i} of a long life"); old.append((m, sm, pk)); old = old[-50:] if len(old) > 100 else old
        if i % 10 == 9: m, sm, pk = old[int(W.rng.integers(len(old)))]; rc, got = I.open(sm, pk); W.check(rc == 0 and got == m, f"older signature no longer opens:{impl}:{s}", rc=rc, number=i)
    W.high("round trips in one process", n); W.sample(set=s, impl=impl, round_trips=n)
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs() + pairs([vbuild.scaled(b, 6, 2) for b in FULL])]

def one(W, I, M, m, pk, sk, what, forced=False):
    W.at(op="sign", set=I.s, impl=I.impl, mlen=len(m), what=what)
    sm = I.sign(m, sk); rc = I.rc
    W.check(rc == 0, f"sign fails:{I.impl}:{I.s}", rc=rc, mlen=len(m), what=what)
    W.check(I.smlen <= len(m) + I.sig_bytes and I.smlen > len(m), f"signed length:{I.impl}:{I.s}", smlen=I.smlen, mlen=len(m))
    W.at(op="open", set=I.s, impl=I.impl, mlen=len(m), what=what)
    rc, got = I.open(sm, pk, fill=0xA5)
    W.check(rc == 0, f"honest signature rejected:{I.impl}:{I.s}", rc=rc, mlen=len(m), what=what, sm=sm, pk=pk)
    W.check(got == m, f"recovered message differs:{I.impl}:{I.s}", mlen=len(m), got_len=None if got is None else len(got), what=what)
    W.case(I.impl, I.s, sm); W.count("round trips"); W.high("published seeds", sm[-1]); W.high("message length", len(m))
    if forced: W.count("round trips under a pinned challenge"); W.count("of these publishing the maximum", sm[-1] == M.maxseeds)
    return sm

def trips(W, impl, s, n, nf):
    I, M = Impl(impl, s), Model(s); lens = boundary_lengths(M); keys = []; old = []
    order = [lens[i] for i in W.rng.permutation(len(lens))]
    for i in range(n):
        if i % 4 == 0 or not keys:
            I.seed(W.rbytes(48)); W.at(op="keygen", set=s, impl=impl); keys.append(I.keygen())
            W.check(I.rc == 0, f"key generation fails:{impl}:{s}", rc=I.rc)
        pk, sk = keys[int(W.rng.integers(len(keys)))]
        m = W.rbytes(order[i % len(order)])
        sm = one(W, I, M, m, pk, sk, "honest")
        if i == 0: W.sample(set=s, impl=impl, mlen=len(m), seeds=int(sm[-1]), sm=sm[-32:].hex())
        old.append((m, sm, pk))
    for m, sm, pk in old[:: max(1, len(old) // 2)][:2] if len(old) > 2 else []:      # still valid after everything that ran since
        rc, got = I.open(sm, pk); W.check(rc == 0 and got == m, f"older signature no longer opens:{impl}:{s}", rc=rc)
    if nf and forcing(W, I, M):
        pk, sk = keys[0]
        for i in range(nf):
            kind = ["worst", "random", "first"][i % 3]; x = honest.forced_x(M, W.rng, kind)
            I.force(x); one(W, I, M, W.rbytes(order[i % len(order)]), pk, sk, f"challenge pinned: {kind}", True); I.force(None)

def long(W, impl, s, sizes):
    I, M = Impl(impl, s), Model(s); I.seed(W.rbytes(48)); pk, sk = I.keygen()
    for n in sizes: one(W, I, M, W.rbytes(n), pk, sk, "long message")
    W.sample(set=s, impl=impl, sizes=sizes)

def lengths(W, impl, s, seconds):
    import time
    I, M = Impl(impl, s), Model(s); I.seed(W.rbytes(48)); pk, sk = I.keygen(); t0 = time.time(); k = 0
    for n in round_lengths(W.rng):
        if time.time() - t0 > seconds and k >= 20: break
        one(W, I, M, W.rbytes(n), pk, sk, "round length"); k += 1
    W.sample(set=s, impl=impl, lengths=k)

def huge(W, impl, s):
    import mmap, ctypes as C
    n = (1 << 32) + 5
    free = int([l for l in open("/proc/meminfo") if l.startswith("MemAvailable")][0].split()[1]) << 10
    if free < 13 << 30: W.note("message of 4 GiB left out: less than 13 GB of memory available"); return
    I, M = Impl(impl, s), Model(s); I.seed(W.rbytes(48)); pk, sk = I.keygen()
    msg = mmap.mmap(-1, n + I.sig_bytes + 4096); sm = mmap.mmap(-1, n + I.sig_bytes + 4096)
    for x in (msg, sm):
        try: x.madvise(14)       # huge pages
        except (OSError, ValueError): pass
    msg[0:5] = b"start"; msg[n - 3:n] = b"end"; msg[(1 << 31):(1 << 31) + 4] = b"half"
    am, asm = [C.addressof(C.c_char.from_buffer(x)) for x in (msg, sm)]
    from vimpl import arr, ptr
    ks, kp = arr(sk), arr(pk); L = C.c_ulonglong(0)
    W.at(op="sign", set=s, impl=impl, mlen=n)
    rc = I.lib.vs_sign(C.c_void_p(asm), C.byref(L), C.c_void_p(am), C.c_ulonglong(n), ptr(ks))
    W.check(rc == 0 and n < L.value <= n + I.sig_bytes, f"huge message: sign:{impl}", rc=rc, smlen=L.value, mlen=n)
    marks = [(0, b"start"), (1 << 31, b"half"), (n - 3, b"end")]
    W.check(all(sm[o:o + len(t)] == t for o, t in marks), f"huge message: message part of the signed message:{impl}")
    for o, t in marks: msg[o:o + len(t)] = bytes(len(t))
    ml = C.c_ulonglong(0)
    W.at(op="open", set=s, impl=impl, mlen=n)
    rc = I.lib.vs_open(C.c_void_p(am), C.byref(ml), C.c_void_p(asm), L, ptr(kp))
    W.check(rc == 0 and ml.value == n, f"huge message: open:{impl}", rc=rc, mlen=ml.value, expected=n)
    W.check(all(msg[o:o + len(t)] == t for o, t in marks), f"huge message: recovered message differs:{impl}", mlen=n)
    # every 32-bit half of the length counts: the same signature with the message 4 GiB shorter must fail
    tail = sm[n:L.value]; rc, _ = I.open(b"start" + tail, pk)
    W.check(rc == -1, f"huge message: signature also valid for the length modulo 2^32:{impl}", rc=rc)
    W.case(impl, s, tail); W.high("message length", n); W.count("round trips"); W.sample(set=s, impl=impl, mlen=n)
