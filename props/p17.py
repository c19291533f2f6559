"""The block hashed per round: the real code's output for a code and for equivalent presentations of it, the defining shape of the block, and the specified normal form."""
from api import *
from api import operations
import comp, gens, time
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one code and monomial whose digest block the real code computes, again after a change of basis, after scaling non-pivot columns and after permuting them, checked for sorted normalised columns, "
        "and compared with the specified normal form; codes with repeated, proportional, zero and nearly tied columns included; non-trivial and distinct = distinct (code, monomial)")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1
    return [{"label": f"normal form {i} {s}", "fn": "normal", "args": {"impl": i, "s": s, "seconds": 8 * x}, "est": 9} for i, s in pairs(FULL)] + comp_tasks(["Lexmin", "Sort", "Prepare"], 5, fn="against_model") + api_tasks(.7)
def builds(tier, t): return scaled_builds()
def against_model(W, s, names, seconds): run_comp(W, s, names, seconds)
def shape(W, V, tag, **d):
    W.check(int(V.max()) <= 126, f"block entry not canonical:{tag}", largest=int(V.max()), **d)
    nz = (V != 0).any(0); lead = V[(V != 0).argmax(0), np.arange(V.shape[1])]; W.check((lead[nz] == 1).all(), f"column whose first nonzero entry is not 1:{tag}", columns=np.flatnonzero(nz & (lead != 1))[:6], **d)
    A, B = V[:, :-1], V[:, 1:]; ne = A != B; f = ne.argmax(0); j = np.arange(V.shape[1] - 1); ok = ~ne.any(0) | (A[f, j] < B[f, j]); W.check(ok.all(), f"columns not in ascending lexicographic order:{tag}", at=np.flatnonzero(~ok)[:6], **d)
def codes(M, rng):
    K, N = M.K, M.N; i = 0
    while True:
        i += 1; k = i % 5; f = gens.pivots(rng, K, N)[0]
        if k == 0: G, n = M.g0(gens.seed_bytes(rng, M.S)), "public code"
        elif k == 1: G, _, n = gens.true_rref(rng, K, N, f)
        elif k == 2:     # many columns proportional, so that sorting sees ties
            G, _, _ = gens.true_rref(rng, K, N, f); G = G.copy(); np_ = np.flatnonzero(f == 0); np_ = np_[np_ > np.flatnonzero(f)[-1]] if np.flatnonzero(f)[-1] < N - 8 else np.array([], int); n = "proportional columns"
            if len(np_) > 4:
                src = rng.choice(np_, max(1, len(np_) // int(rng.integers(2, 40)))); G[:, np_] = (G[:, rng.choice(src, len(np_))].astype(int) * rng.integers(1, 127, len(np_))) % 127
        elif k == 3:     # columns agreeing in all but the last rows
            f = np.zeros(N, np.uint8); f[:K] = 1; G, _, _ = gens.true_rref(rng, K, N, f); G = G.copy(); r = int(rng.integers(1, 4)); at = int(rng.choice([K - r, 0, int(rng.integers(0, K - r))])); base = G[:, K].copy(); base[0] = 1; G[:, K:] = base[:, None]; G[at:at + r, K:] = rng.integers(0, 127, (r, N - K)); n = "columns tied outside a few rows"
        else:
            f = np.zeros(N, np.uint8); f[:K] = 1; G, _, _ = gens.true_rref(rng, K, N, f); G = G.copy(); z = rng.choice(np.arange(K, N), int(rng.integers(1, N - K)), replace=False); G[:int(rng.integers(1, K + 1))][:, z] = 0; n = "zero and late-starting columns"; h = int(rng.integers(1, K + 1)); G[:h, z] = 0
        yield np.ascontiguousarray(G, np.uint8), n
def normal(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; K, N = M.K, M.N; rng = W.rng
    if not I.has("codes"): W.note("digest block not reachable through the shim; decided from whole operations only"); return
    def prep(G, c, p):
        G = np.ascontiguousarray(G, np.uint8); V = np.zeros((K, N - K), np.uint8); ap = np.full(K, 0xEEEE, np.uint16); ac = buf(K, 0xEE); k = G.tobytes(); I.lib.vi_prepare(ptr(V), ptr(ap), ptr(ac), ptr(G), ptr(c), ptr(p)); return V, ap, ac
    ones = np.ones(N, np.uint8); idp = np.arange(N, dtype=np.uint16); inv = np.array([pow(i, 125, 127) for i in range(127)], np.uint8)
    t0 = time.time(); n = 0; it = codes(M, rng); left = 0
    while n < 12 or time.time() - t0 < seconds:
        G, nm = next(it); c, p, m = gens.monomial(rng, N); W.at(op="prepare", kind=nm, set=s, impl=impl, case=n); n += 1; d = dict(kind=nm, monomial=m, case=n, seed=W.seed)
        V, ap, ac = prep(G, c, p); shape(W, V, tag, **d); rank, EV, eap, eac = M.round(G, c, p)
        W.check((V == EV).all(), f"block differs from the specified normal form:{tag}", **d); W.check((ap == eap).all() and (ac == eac).all(), f"recorded action differs from the specified one:{tag}", **d)
        W.case(tag, G.tobytes(), c.tobytes(), p.tobytes()); W.count(f"codes: {nm.split(' ')[0]}")
        # exactly the normalised non-pivot columns of the reduced transformed code, with multiplicity
        H = np.zeros_like(G); H[:, p] = (G.astype(int) * c) % 127; r, R, piv = M.rref(H)
        np_ = R[:, piv == 0]; lead = np_[(np_ != 0).argmax(0), np.arange(N - K)]; B = np.where((np_ != 0).any(0), (np_.astype(int) * inv[lead]) % 127, 0).astype(np.uint8)
        W.check((V == comp.sort_cols(B)).all(), f"block does not consist of the normalised non-pivot columns:{tag}", **d)
        # the recorded action names the source of each pivot column
        W.check((H[:, np.flatnonzero(piv)] == (G[:, ap].astype(int) * ac) % 127).all(), f"action does not lead to the pivot columns:{tag}", **d)
        # basis change of the code
        if n % 2 == 0:
            A = gens.invertible(rng, K); V2, ap2, ac2 = prep(gens.mulmod(A, G), c, p); W.check((V2 == V).all(), f"block depends on the basis of the code:{tag}", **d); W.check((ap2 == ap).all() and (ac2 == ac).all(), f"action depends on the basis of the code:{tag}", **d); W.count("basis changes")
        # scaling the non-pivot columns of the transformed code: through the monomial and on the code itself
        sc = gens.coefs(rng, N)[0].copy(); sc[piv == 1] = 1; c2 = ((c.astype(int) * sc[p]) % 127).astype(np.uint8); V3, _, _ = prep(G, c2, p); W.check((V3 == V).all(), f"block depends on the scale of non-pivot columns:{tag}", **d)
        V4, _, _ = prep((H.astype(int) * sc) % 127, ones, idp); W.check((V4 == V).all(), f"block depends on the scale of non-pivot columns of the code:{tag}", **d); W.count("scalings", 2)
        # permuting non-pivot columns; kept when the pivot set stays
        for kind in range(2):
            q = idp.copy(); cols = np.flatnonzero(piv == 0)
            if kind: tail = cols[cols > np.flatnonzero(piv)[-1]]; cols = tail if len(tail) > 1 else cols
            pc = cols[gens.perm(rng, len(cols))[0].astype(int)] if kind else cols[np.argsort(cols + rng.integers(0, 6, len(cols)), kind="stable")]; q[cols] = pc; H2 = np.zeros_like(H); H2[:, q] = H; _, _, piv2 = M.rref(H2)
            if (piv2 != piv).any(): left += 1; continue
            V5, ap5, _ = prep(H2, ones, idp); W.check((V5 == V).all(), f"block depends on the order of non-pivot columns:{tag}", **d); p5 = q[p]; V6, ap6, ac6 = prep(G, c, np.ascontiguousarray(p5)); W.check((V6 == V).all(), f"block depends on where the monomial puts non-pivot columns:{tag}", **d); W.check((ap6 == ap).all() and (ac6 == ac).all(), f"action depends on where non-pivot columns go:{tag}", **d); W.count("permutations", 2)
    W.count("permutations left out: they change the pivot set", left); W.sample(set=s, impl=impl, codes=n)
