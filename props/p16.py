"""Row reduction: every result is judged by its own definition (shape, row space, rank) and against the model's reduction."""
from api import *
from api import operations
import gens, time
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one K x N matrix (uniform, scrambled from a known reduced form with chosen pivots, sparse, rank-deficient, repeated rows, zero columns, permuted rows, extreme entries) reduced by the real code; "
        "success compared with the rank, the result checked for reduced shape, exact pivot flags, canonical entries and equal row space, and compared with the model; non-trivial and distinct = distinct matrix")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1
    return [{"label": f"reduction {i} {s}", "fn": "reduce", "args": {"impl": i, "s": s, "seconds": 11 * x}, "est": 12} for i, s in pairs(FULL)] + api_tasks(1)
def builds(tier, t): return scaled_builds()
def cases(M, rng):
    K, N = M.K, M.N; i = 0
    while True:
        i += 1; k = i % 6
        if k in (0, 1): G, n = gens.matrix(rng, K, N)
        elif k == 2: f = gens.pivots(rng, K, N, int(rng.integers(6)))[0]; G, _, n = gens.true_rref(rng, K, N, f); G = gens.mulmod(gens.invertible(rng, K), G); n = "scrambled, chosen pivots"
        elif k == 3:    # the code a signer reduces: a systematic code after a monomial
            G, _, _ = gens.true_rref(rng, K, N, np.concatenate([np.ones(K), np.zeros(N - K)]).astype(np.uint8)); c, p, m = gens.monomial(rng, N); H = np.zeros_like(G); H[:, p] = (G.astype(int) * c) % 127; G, n = H, "systematic after a monomial: " + m
        elif k == 4:    # one late dependency: full rank but for the last pivot, or a pivot only in the very last column
            f = np.zeros(N, np.uint8); f[:K - 1] = 1; j = int(rng.choice([N - 1, K, N - 2, int(rng.integers(K - 1, N))])); f[j] = 1; G, _, _ = gens.true_rref(rng, K, N, f); G = G.copy(); n = "last pivot far right"
            if rng.integers(3) == 0: G[K - 1, j] = 0; n = "rank one short at the end"; G[K - 1] = 0
            G = gens.mulmod(gens.invertible(rng, K), G) if rng.integers(2) else G[rng.permutation(K)]
        else:           # low rank in a leading block, so that pivots are skipped in the middle
            b = int(rng.integers(2, 30)); at = int(rng.integers(0, N - b)); G = gens.field(rng, (K, N), 0)[0].copy(); r = int(rng.integers(0, b)); w = G[:, at:at + b]; w[:] = gens.mulmod(rng.integers(0, 127, (K, max(r, 1))), rng.integers(0, 127, (max(r, 1), b))) if r else 0; n = "dependent columns in a run"
            if rng.integers(2): cols = rng.choice(N, 4, replace=False); G[:, cols[0]] = G[:, cols[1]]; G[:, cols[2]] = (G[:, cols[3]].astype(int) * int(rng.integers(1, 127))) % 127
        yield np.ascontiguousarray(G, np.uint8), n
def reduce(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; K, N = M.K, M.N
    if not I.has("codes"): W.note("row reduction not reachable through the shim; decided from whole operations only"); return
    t0 = time.time(); n = 0; it = cases(M, W.rng)
    while n < 24 or time.time() - t0 < seconds:
        G, nm = next(it); g = G.copy(); piv = buf(N + 16, 0); piv[N:] = 0xC7; W.at(op="reduce", kind=nm, set=s, impl=impl, case=n)
        r = I.lib.vi_rref(ptr(g), ptr(piv)); rank, e, ep = M.rref(G); n += 1; d = dict(kind=nm, case=n, rank=int(rank), seed=W.seed)
        W.check((piv[N:] == 0xC7).all(), f"pivot flags written beyond the code length:{tag}", **d)
        W.check(bool(r) == (rank == K), f"success does not mean full rank:{tag}", returned=r, **d); W.count(f"{'full rank' if rank == K else 'rank deficient'}"); W.case(tag, G.tobytes()); W.high("columns skipped before the last pivot", int(np.flatnonzero(ep)[-1]) - K + 1 if rank else 0)
        if rank < K or not r: continue
        piv = piv[:N]; cols = np.flatnonzero(piv)
        W.check(int(g.max()) <= 126, f"entry not canonical:{tag}", largest=int(g.max()), **d)
        W.check(len(cols) == K and set(np.unique(piv)) <= {0, 1}, f"number of pivot flags:{tag}", flags=len(cols), values=np.unique(piv), **d)
        W.check((g[:, cols] == np.eye(K, dtype=np.uint8)).all(), f"pivot columns are not unit vectors in order:{tag}", **d)
        W.check(all((g[i, :cols[i]] == 0).all() for i in range(K)), f"entries left of a pivot:{tag}", **d)
        # same row space: reduced rows are determined by the original rows' values at the pivots
        W.check((gens.mulmod(G[:, cols], g) == G).all(), f"row space changed:{tag}", **d)
        W.check((piv == ep).all() and (g == e).all(), f"not the unique reduced form:{tag}", pivots_differ=np.flatnonzero(piv != ep)[:6], **d)
        if n % 5 == 0:
            h = g.copy(); p2 = buf(N, 0); r2 = I.lib.vi_rref(ptr(h), ptr(p2)); W.check(r2 and (h == g).all() and (p2[:N] == piv).all(), f"reducing a reduced matrix changes it:{tag}", **d)
    W.sample(set=s, impl=impl, matrices=n)
