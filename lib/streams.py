"""Hostile streams: chosen bytes in place of the output of the extendable-output functions, so that runs of rejections, extreme
shuffles and exact landings that no seed search would reach go through the real sampling code; the model gets the same bytes."""
import ctypes as C
import numpy as np
from vimpl import arr, buf, ptr
def word(fields, top, bits=7): return sum(int(v) << (bits * i) for i, v in enumerate(fields)) | (int(top) << (bits * (64 // bits)))
def sampling(rng, n, span):
    """little-endian words leading to n accepted fields (values 0..span of 7 bits)"""
    out = []; got = 0; bad = list(range(span + 1, 128)); kind = int(rng.integers(8)); vals = int(rng.integers(4)); k0 = int([0, 1, 2, 7, 40, 300, 3000][int(rng.integers(7))]) if kind in (0, 7) else 0; land = int(rng.integers(1, 10))
    def v():
        return int([rng.integers(span + 1), 0, span, rng.choice([0, span])][vals])
    def rej(): return bad[int(rng.integers(len(bad)))]
    def emit(f): nonlocal got; out.append(word(f, rng.integers(2) if kind != 3 else 1)); got += sum(x <= span for x in f)
    for _ in range(k0): emit([rej() for _ in range(9)])
    while got < n:
        left = n - got
        if kind == 1: a = int(rng.integers(10))                         # any number accepted in each word
        elif kind == 2: a = 1                                           # one a word: nine times the usual words
        elif kind == 4: a = 9
        elif kind == 5: a = 0 if rng.integers(3) else 9
        elif kind == 6 and left <= 9: a = min(left, land)               # the last one is the first, or the last, field of a word
        else: a = sum(int(rng.integers(128)) <= span for _ in range(9))
        if kind == 6 and left > 9: a = 9 if left - 9 >= land else left - land
        where = set(rng.permutation(9)[:a].tolist())
        if kind == 6 and left <= 9: where = set(range(9 - a, 9)) if rng.integers(2) else set(range(a))
        emit([v() if j in where else rej() for j in range(9)])
        if kind == 7 and rng.integers(40) == 0:
            for _ in range(int(rng.integers(1, 80))): emit([rej() for _ in range(9)])
    return b"".join(w.to_bytes(8, "little") for w in out), kind
def shuffle(rng, N):
    k = int(rng.integers(8)); i = np.arange(N, dtype=np.uint64); m = (np.uint64(N) - i); r = rng.integers(0, 1 << 32, N, dtype=np.uint64); top = ((np.uint64(1 << 32) - np.uint64(1)) // m) * m
    u = [np.zeros(N, np.uint64), np.full(N, (1 << 32) - 1, np.uint64), m - np.uint64(1), top - np.uint64(1), np.minimum(top, np.uint64((1 << 32) - 1)), np.where(r % np.uint64(2) == 0, np.uint64(0), np.uint64((1 << 32) - 1)), r & np.uint64(0xff), r | np.uint64(0xffff0000)][k]
    return u.astype("<u4").tobytes(), k
def monomial(rng, N): a, k = sampling(rng, N, 125); b, l = shuffle(rng, N); return a + b, f"{k}.{l}"
def rows(rng, K, n):
    return b"".join(sampling(rng, n, 126)[0] for _ in range(K)), "rows"
def bits(v): return int(v).bit_length()
def challenge(rng, M):
    """16-bit draws: position above the key index, surplus bits on top"""
    vb, pb = bits(M.kp - 1), bits(M.T - 1); free = 16 - vb - pb; out = []; x = np.zeros(M.T, int); placed = 0; kind = int(rng.integers(7)); order = list({0: rng.permutation(M.T), 1: np.arange(M.T), 2: np.arange(M.T)[::-1]}.get(kind, rng.permutation(M.T)))
    def surplus(n): return rng.integers(1 << free, size=n) << (vb + pb) if free > 0 else np.zeros(n, np.int64)
    def wrong(n):
        """n draws that are to be turned down: position or key index too large, place taken, or nothing to hide"""
        if not n: return
        done = np.flatnonzero(x); v = np.zeros(n, np.int64); p = rng.integers(M.T, size=n); j = rng.integers(4, size=n) if rng.integers(3) else np.full(n, rng.integers(4))
        if (1 << pb) > M.T: m = j == 0; v[m] = rng.integers(1 << vb, size=m.sum()); p[m] = rng.integers(M.T, 1 << pb, size=m.sum())
        if (1 << vb) > M.kp: m = j == 1; v[m] = rng.integers(M.kp, 1 << vb, size=m.sum()); p[m] = rng.integers(1 << pb, size=m.sum())
        if len(done): m = j == 2; v[m] = rng.integers(1, M.kp, size=m.sum()); p[m] = done[rng.integers(len(done), size=m.sum())]; m = j == 3; p[m] = done[rng.integers(len(done), size=m.sum())]
        out.append(v | p << vb | surplus(n))
    run = [0, 1, 3, 20, 300, 5000, 30000][int(rng.integers(7))] if kind >= 3 else 0
    if kind in (3, 4): wrong(run)
    while placed < M.W:
        if kind == 5 and placed == M.W - 1: wrong(run)                   # everything else placed, then a long wait for the last
        if kind == 6 and rng.integers(2): wrong(min(run, 200))
        if rng.integers(3) == 0: wrong(1)
        pos = int(order.pop()); v = int(rng.integers(1, M.kp)) if kind != 4 else M.kp - 1; out.append(np.array([v | pos << vb]) | surplus(1)); x[pos] = v; placed += 1
    return np.concatenate(out).astype("<u2").tobytes(), kind
def available(I): return I.has("vs_stream")
def both(I, M, script, running, f, g):
    """f() on the implementation and g() on the model under the same script; the bytes of it the implementation was given, f's and g's results"""
    a = arr(script); I.lib.vs_stream_given.restype = C.c_size_t
    I.lib.vs_stream(ptr(a), C.c_size_t(len(script)), 1 if running else 0)
    try: x = f()
    finally: n = I.lib.vs_stream_given(); I.lib.vs_stream(None, C.c_size_t(0), 0)
    M.lib.lm_script(ptr(a), C.c_size_t(len(script)), C.byref(running) if running else None)
    try: y = g()
    finally: M.lib.lm_script(None, C.c_size_t(0), None)
    return n, x, y
def reached(W, I, n, script):
    """whether the overlay was in force at all in this build of the tree"""
    if n: return True
    W.note("the sampling code does not draw through the incremental interface: hostile streams were left out"); return False
# one case of each kind; (key, got, expected, what)
def challenge_case(W, I, M):
    s, k = challenge(W.rng, M); d = W.rbytes(M.D); a = arr(d); x = buf(M.T + 16)
    def f(): I.lib.vi_challenge(ptr(x), ptr(a)); return x[:M.T].tobytes()
    W.at(op="challenge under a hostile stream", kind=k, script=s[:400].hex(), set=I.s, impl=I.impl); n, got, want = both(I, M, s, None, f, lambda: M.challenge(d).tobytes())
    return n, f"challenge.{k}", got, want, s, bool((x[M.T:] == 0xa7).all())
def monomial_case(W, I, M, kind):
    s, k = monomial(W.rng, M.N); cc, cp = buf(M.N, 0xEE), np.full(M.N, 0xEEEE, np.uint16); W.at(op=f"{kind} matrix under a hostile stream", kind=k, script=s[:400].hex(), set=I.s, impl=I.impl)
    if kind == "salted":
        sd, sa, r = W.rbytes(M.S), W.rbytes(M.D), int(W.rng.integers(M.T)); a, b = arr(sd), arr(sa); run = None
        def f(): I.lib.vi_msalt(ptr(cc), ptr(cp), ptr(a), ptr(b), C.c_uint(r))
        g = lambda: M.monomial_salted(sd, sa, r)
    elif kind == "private":
        sd = W.rbytes(M.D); a = arr(sd); run = None
        def f(): I.lib.vi_mprikey(ptr(cc), ptr(cp), ptr(a))
        g = lambda: M.monomial_prikey(sd)
    else:
        sd = W.rbytes(48); I.seed(sd); run = M.rng(sd); M.draw(run, 8); I.randombytes(8)
        def f(): I.lib.vi_mrnd(ptr(cc), ptr(cp))
        g = lambda: M.monomial_stream(run)
    n, _, (ec, ep) = both(I, M, s, run, f, g); return n, f"{kind}.{k}", cc.tobytes() + cp.tobytes(), ec.tobytes() + ep.tobytes(), s, (cc, cp)
def g0_case(W, I, M):
    s, k = rows(W.rng, M.K, M.N - M.K); sd = W.rbytes(M.S); a = arr(sd); G = np.full((M.K, M.N), 0xEE, np.uint8); W.at(op="public code under a hostile stream", script=s[:400].hex(), set=I.s, impl=I.impl)
    def f(): I.lib.vi_g0(ptr(G), ptr(a))
    n, _, e = both(I, M, s, None, f, lambda: M.g0(sd)); return n, "public code", G.tobytes(), e.tobytes(), s, True
def sampler_case(W, I, M, lo, generator):
    ct = int([1, 2, 8, 9, 10, 18, 19, M.N, W.rng.integers(1, 700)][int(W.rng.integers(9))]); s, k = sampling(W.rng, ct, 126 - lo); o = buf(ct + 64, 0xC7); sd = W.rbytes(48); a = arr(sd); run = None; W.at(op="sampler under a hostile stream", lowest=lo, count=ct, kind=k, script=s[:400].hex(), set=I.s, impl=I.impl)
    if generator:
        I.seed(sd); run = M.rng(sd); M.draw(run, 8); I.randombytes(8)
        def f(): (I.lib.vi_sample_star_g if lo else I.lib.vi_sample_q_g)(ptr(o), C.c_size_t(ct))
        g = lambda: M.sample(run, ct, lo, 126)
    else:
        def f(): (I.lib.vi_sample_star if lo else I.lib.vi_sample_q)(ptr(a), C.c_uint(48), ptr(o), C.c_size_t(ct))
        def g(): st = M.rng(sd); return M.sample(st, ct, lo, 126)
    n, _, e = both(I, M, s, run, f, g); return n, f"sampler.{lo}.{k}", o[:ct].tobytes(), e.tobytes(), s, bool((o[ct:] == 0xC7).all())
KINDS = {"challenge": ("chal", challenge_case), "salted": ("monomial", lambda W, I, M: monomial_case(W, I, M, "salted")), "private": ("monomial", lambda W, I, M: monomial_case(W, I, M, "private")),
         "generator": ("monomial", lambda W, I, M: monomial_case(W, I, M, "generator")), "code": ("codes", g0_case)}
for _l in (0, 1):
    for _g in (0, 1): KINDS[f"sampler {_l}{'g' if _g else ''}"] = ("field", lambda W, I, M, l=_l, g=_g: sampler_case(W, I, M, l, g))
def drive(W, I, M, names, seconds, judge=None):
    """hostile streams through the named sampling routines, results compared with the specified ones"""
    import time
    tag = f"{I.impl}:{I.s}"; seconds *= 15 if W.thorough else 1; t0 = time.time(); n = 0; longest = 0
    if not available(I): W.note("streams cannot be chosen in this build of the tree: hostile streams were left out"); return
    names = [x for x in names if I.has(KINDS[x][0])]; dead = set()
    while names and (n < 4 * len(names) or time.time() - t0 < seconds) and len(dead) < len(names):
        name = names[n % len(names)]; n += 1
        if name in dead: continue
        given, key, got, want, script, extra = KINDS[name][1](W, I, M)
        if not given and not reached(W, I, given, script): dead.add(name); continue
        if judge: judge(name, got, want, script, extra)
        if got != want: W.check(False, f"differs from the specified sampling under a hostile stream:{name}:{tag}", kind=key, at=[i for i in range(min(len(got), len(want))) if got[i] != want[i]][:8], script=script[:4000], script_length=len(script))
        W.check(True, "hostile stream")
        if extra is False: W.check(False, f"writes past the requested count under a hostile stream:{name}:{tag}", kind=key, script=script[:4000])
        W.case("stream", tag, name, script); W.count("hostile streams"); longest = max(longest, given)
    W.high("longest hostile stream used", longest)
