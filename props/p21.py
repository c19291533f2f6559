"""Field arithmetic over its whole domain, in the scalar routines and inside every vectorised loop that uses it, and the field samplers for every count."""
import api
from api import *
from api import operations
import comp, gens, time, streams
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one operand or operand pair of a reduction, product or inversion (the whole domain, exhaustively, also at every place of the matrix loops), or one sampling of a given count from a given stream compared with "
        "the specified rejection sampling, with canaries behind the buffer; non-trivial and distinct = distinct operands or (stream, count)")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1
    out = [{"label": f"scalar arithmetic {i} {s}", "fn": "scalar", "args": {"impl": i, "s": s}, "est": 2} for i, s in pairs(FULL)]
    out += [{"label": f"arithmetic inside the matrix loops {i} {s}", "fn": "loops", "args": {"impl": i, "s": s, "step": 1 if th else 3}, "est": 4} for i, s in pairs(FULL)]
    out += [{"label": f"samplers {i} {s}", "fn": "samplers", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 5} for i, s in pairs(FULL)]
    out += [{"label": f"samplers under hostile streams {i} {s}", "fn": "stream", "args": {"impl": i, "s": s, "seconds": 3 * x}, "est": 4} for i, s in pairs(FULL)]
    return out + api_tasks(.5) + comp_tasks(["Grnd"], 2, fn="comps", label="random generator matrices")
def builds(tier, t): return scaled_builds()
def comps(W, **a): run_comp(W, oracle=True, **a)
INV = np.array([pow(i, 125, 127) for i in range(127)], np.uint8)
def scalar(W, impl, s):
    I, M = Impl(impl, s), Model(s); L = I.lib; tag = f"{impl}:{s}"
    if I.has("field"):
        for f in ("vi_fq_red", "vi_fq_inv"): getattr(L, f).restype = C.c_uint
        top = 126 * 126 + 127      # a product of two field elements, and the sums formed from one
        for x in range(top + 1): W.check(L.vi_fq_red(x) == x % 127, f"reduction:{tag}", operand=x, got=L.vi_fq_red(x), expected=x % 127)
        for x in range(127): W.check(L.vi_fq_inv(x) == int(INV[x]), f"inversion:{tag}", operand=x, got=L.vi_fq_inv(x), expected=int(INV[x]))
        W.cases(top + 128, top + 128); W.count("reductions", top + 1); W.count("inversions", 127)
    else: W.note("scalar arithmetic not reachable through the shim; decided inside the matrix loops only")
    if impl == "avx2" and I.has("field_opt"):
        for f in ("vi_br_mul", "vi_br_red", "vi_br_red16"): getattr(L, f).restype = C.c_uint
        for a in range(127):
            for b in range(127):
                r = L.vi_br_red(L.vi_br_mul(a, b)); W.check(r == a * b % 127, f"product reduced to eight bits:{tag}", operands=(a, b), got=r, expected=a * b % 127)
        for x in range(126 * 126 + 127 + 1): W.check(L.vi_br_red16(x) == x % 127, f"reduction of sixteen bits:{tag}", operand=x, got=L.vi_br_red16(x), expected=x % 127)
        W.cases(127 * 127, 127 * 127); W.count("products", 127 * 127)
    W.sample(set=s, impl=impl, largest_operand=126 * 126 + 127)
def loops(W, impl, s, step):
    """all 127 x 126 operand pairs at every place of each loop over matrix entries"""
    I, M = Impl(impl, s), Model(s); L = I.lib; K, N = M.K, M.N; tag = f"{impl}:{s}"
    if not I.has("codes"): W.note("matrix loops not reachable through the shim; decided from whole operations only"); return
    rows = np.arange(K)[:, None]; idp = np.arange(N, dtype=np.uint16); cols = np.arange(N); off = int(W.rng.integers(126))
    pair = np.zeros((127, 127), bool)
    for sh in range(off % step, 126, step):
        c = ((cols * 5 + sh) % 126 + 1).astype(np.uint8)
        for u in (0, 127 - K) if K < 127 else (0,):
            G = ((rows + u) % 127 + 0 * cols).astype(np.uint8); G = np.ascontiguousarray(G); W.at(op="generator times monomial", set=s, impl=impl, shift=sh, offset=u)
            p = W.rng.permutation(N).astype(np.uint16) if sh % 2 else idp; o = np.zeros_like(G); L.vi_gmul(ptr(o), ptr(G), ptr(c), ptr(p)); e = np.zeros_like(G); e[:, p] = (G.astype(int) * c) % 127
            bad = np.argwhere(o != e); W.check(len(bad) == 0, f"product inside the monomial action on a matrix:{tag}", at=bad[:4].tolist(), operands=[(int(G[i, list(p).index(j)]), int(c[list(p).index(j)])) for i, j in bad[:4]], got=[int(o[i, j]) for i, j in bad[:4]])
            A = G.copy(); A[:, :] = G; ap = W.rng.choice(N, K, replace=False).astype(np.uint16); ac = ((np.arange(K) * 5 + sh) % 126 + 1).astype(np.uint8); o = np.zeros_like(G); L.vi_apply(ptr(o), ptr(A), ptr(ap), ptr(ac)); e = (A[:, ap].astype(int) * ac) % 127
            bad = np.argwhere(o[:, :K] != e); W.check(len(bad) == 0, f"product inside the action on an information set:{tag}", at=bad[:4].tolist(), operands=[(int(A[i, ap[j]]), int(ac[j])) for i, j in bad[:4]])
            pair[np.unique(G)[:, None], np.unique(c)[None, :]] = True; W.cases(2 * K * N, 2 * K * N); W.count("products inside matrix loops", K * N + K * K)
        # column normalisation: first entry sh+1, all field elements below it
        G = np.ascontiguousarray(np.repeat(((rows * 1 + 3 * sh) % 127).astype(np.uint8), N, 1)); G[0] = sh + 1; V = np.zeros((K, N - K), np.uint8); j = int(W.rng.integers(N)); L.vi_lexmin(ptr(V), 0, ptr(G), j); e = (G[:, j].astype(int) * int(INV[sh + 1])) % 127; W.check((V[:, 0] == e).all(), f"product inside column normalisation:{tag}", first=sh + 1, at=np.flatnonzero(V[:, 0] != e)[:4]); W.cases(K, K)
        # row reduction: scaling a row by the inverse of its pivot, and eliminating with every multiplier
        G = np.zeros((K, N), np.uint8); G[:, :K] = np.eye(K); G[:, K:] = (np.arange(K)[:, None] * 3 + np.arange(N - K)[None, :] + sh) % 127; G[0, 0] = sh + 1; k = 1 + sh % (K - 1); G[k, k] = 126 - sh if 126 - sh else 1; G[1:, 0] = (np.arange(1, K) + sh) % 127; G = np.ascontiguousarray(G); g, pv = G.copy(), buf(N)
        W.at(op="row reduction", set=s, impl=impl, shift=sh); r = L.vi_rref(ptr(g), ptr(pv)); rk, e, ep = M.rref(G); W.check(bool(r) == (rk == K) and (not r or (g == e).all()), f"arithmetic inside row reduction:{tag}", shift=sh, at=np.argwhere(g != e)[:4].tolist()); W.cases(1, 1); W.count("reductions with every pivot and multiplier")
    # elimination at every column position: one pivot with each value, rows holding every entry
    for j in range(int(W.rng.integers(4)), K, 8 if step > 1 else 2):
        G = np.zeros((K, N), np.uint8); G[np.arange(K), np.arange(K)] = W.rng.integers(1, 127, K); G[:, j] = np.where(np.arange(K) == j, 1 + j % 126, (np.arange(K) * 7 + j) % 127); G[:, K:] = W.rng.integers(0, 127, (K, N - K)); g, pv = G.copy(), buf(N); r = L.vi_rref(ptr(g), ptr(pv)); rk, e, ep = M.rref(G); W.check(bool(r) == (rk == K) and (not r or (g == e).all()), f"arithmetic inside row reduction:{tag}", column=j); W.cases(1, 1)
    W.high("operand pairs seen at every place", int(pair.sum())); W.sample(set=s, impl=impl, operand_pairs=int(pair.sum()))
def stream(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"
    def judge(name, got, want, script, clean):
        v = np.frombuffer(got, np.uint8); lo = int(name[8] == "1") if name.startswith("sampler") else 0
        W.check(int(v.max()) <= 126 and int(v.min()) >= lo, f"sampled element out of range under a hostile stream:{name}:{tag}", largest=int(v.max()), smallest=int(v.min()), script=script[:4000])
    streams.drive(W, I, M, [k for k in streams.KINDS if k.startswith("sampler")] , seconds / (15 if W.thorough else 1), judge)
def samplers(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); L = I.lib; tag = f"{impl}:{s}"; rng = W.rng; t0 = time.time(); n = 0
    if not I.has("field"): W.note("samplers not reachable through the shim; decided from whole operations only"); return
    counts = list(range(1, 200)) + [M.N - 1, M.N, M.N + 1, M.K * (M.N - M.K), 4096, 10000]; val = np.zeros((2, 127)); order = [counts[i] for i in rng.permutation(len(counts))]
    while n < len(order) * 2 or time.time() - t0 < seconds:
        ct = order[n % len(order)] if n < 2 * len(order) else int(rng.integers(1, 2000)); seed = rng.bytes(int(rng.integers(0, 120))); lo = n % 2; n += 1; o = buf(ct + 64, 0xC7); W.at(op="sample", lowest=lo, count=ct, set=s, impl=impl, seed=seed.hex())
        a = arr(seed); (L.vi_sample_star if lo else L.vi_sample_q)(ptr(a), C.c_uint(len(seed)), ptr(o), C.c_size_t(ct)); st = M.rng(seed); e = M.sample(st, ct, lo, 126)
        d = dict(lowest=lo, count=ct, seed=seed); W.check(int(o[:ct].max()) <= 126 and int(o[:ct].min()) >= lo, f"sampled element out of range:{tag}", largest=int(o[:ct].max()), smallest=int(o[:ct].min()), **d); W.check((o[:ct] == e).all(), f"sampled elements differ from the specified rejection:{tag}", at=np.flatnonzero(o[:ct] != e)[:5], **d); W.check((o[ct:] == 0xC7).all(), f"sampler writes past the requested count:{tag}", **d)
        if len(seed) > 11: val[lo] += np.bincount(o[:ct], minlength=127)[:127]; W.case(tag, lo, ct, seed)
        I.seed(seed); o[:] = 0xC7; (L.vi_sample_star_g if lo else L.vi_sample_q_g)(ptr(o), C.c_size_t(ct)); W.check((o[:ct] == e).all(), f"elements from the system generator differ:{tag}", at=np.flatnonzero(o[:ct] != e)[:5], **d); W.check((o[ct:] == 0xC7).all(), f"sampler from the system generator writes past the requested count:{tag}", **d)
        W.check(I.randombytes(16) == M.draw(st, 16), f"sampler leaves the generator elsewhere:{tag}", **d); W.count("samplings", 2)
        if n % 20 == 0:     # two samplings in a row continue the stream
            I.seed(seed); a1, b1 = buf(ct), buf(ct); L.vi_sample_star_g(ptr(a1), C.c_size_t(ct)); L.vi_sample_q_g(ptr(b1), C.c_size_t(ct)); st = M.rng(seed); W.check((a1[:ct] == M.sample(st, ct, 1, 126)).all() and (b1[:ct] == M.sample(st, ct, 0, 126)).all(), f"consecutive samplings:{tag}", **d)
    api.uniform(W, val[1][1:], val[1].sum(), tag, "sampled units"); api.uniform(W, val[0], val[0].sum(), tag, "sampled field elements"); W.sample(set=s, impl=impl, samplings=n)
