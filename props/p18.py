"""Packing of generator matrices: round trips, the specified bytes, and buffers that begin or end at inaccessible pages."""
from api import *
from api import operations
import gens, time
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one reduced generator matrix with one set of pivot columns, packed by the real code into exactly the advertised bytes, compared with the specified bit layout, unpacked again from memory bounded by "
        "inaccessible pages and through the compact form; non-trivial and distinct = distinct matrix")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1
    return [{"label": f"packing {i} {s}", "fn": "packing", "args": {"impl": i, "s": s, "seconds": 9 * x}, "est": 10} for i, s in pairs(FULL)] + literal_tasks(x) + api_tasks(1)
def builds(tier, t): return scaled_builds() + literal_builds()
def bits_layout(M, G, piv):
    """the layout spelt out bit by bit"""
    flag = np.zeros((M.N + 7) // 8 * 8, np.uint8); flag[:M.N] = piv; v = G[:, piv == 0].ravel(); b = ((v[:, None] >> np.arange(7)) & 1).astype(np.uint8).ravel()
    b = np.concatenate([b, np.zeros(-len(b) % 8, np.uint8)]); return np.packbits(flag, bitorder="little").tobytes() + np.packbits(b, bitorder="little").tobytes()
def packing(W, impl, s, seconds, style=None):
    I, M = Impl(impl, s, style), Model(s); tag = f"{impl}:{s}" + (":unoptimised" if style else ""); K, N = M.K, M.N; nb = I.info["rref"]; rng = W.rng
    if not I.has("codes"): W.note("packing not reachable through the shim; decided from whole operations only"); return
    g = Guarded(nb); t0 = time.time(); n = 0; seen = np.zeros((K * (N - K), 128), bool); pats = set(); flags = [f for f in range(6)]
    W.check(nb == (N + 7) // 8 + (K * (N - K) * 7 + 7) // 8, f"advertised packed size:{tag}", bytes=nb)
    while n < (8 if style else 24) or time.time() - t0 < seconds:
        if n % 3 == 2:   # pivot sets one exchange away from the usual one, and sets touching the last flags
            f = np.zeros(N, np.uint8); f[:K] = 1
            for _ in range(int(rng.integers(1, 6))): a, b = rng.choice(np.flatnonzero(f)), rng.choice(np.flatnonzero(f == 0)); f[a], f[b] = 0, 1
            if rng.integers(2):
                for b in N - 1 - np.flatnonzero(rng.integers(0, 2, 8)): 
                    if not f[b]: f[rng.choice(np.flatnonzero(f[:N - 8]))] = 0; f[b] = 1
            G, piv, nm = gens.rref(rng, K, N, f); nm = "exchanged pivots"
        else: G, piv, nm = gens.rref(rng, K, N)
        G = np.ascontiguousarray(G); W.at(op="pack", kind=nm, set=s, impl=impl, case=n); n += 1; d = dict(kind=nm, case=n, seed=W.seed); exp = bits_layout(M, G, piv); assert exp == M.pack_rref(G, piv)
        keep = G.tobytes(); pk = piv.tobytes(); fill = int(rng.choice([0, 255, 0x5a])); p = g.put(b"", "start", fill); where = "end" if n % 2 else "start"; p = C.c_void_p(g.end if where == "end" else g.start)
        slack = g.len - 2 * (g.start - g.base) - nb
        I.lib.vi_pack_rref(p, ptr(G), ptr(piv)); got = g.get(where)
        bad = [i for i in range(nb) if got[i] != exp[i]] if got != exp else []
        W.check(got == exp, f"packed bytes differ from the specified layout:{tag}", bytes=bad[:8], got=[got[i] for i in bad[:8]], expected=[exp[i] for i in bad[:8]], memory_before=fill, **d)
        rest = C.string_at(g.start, slack) if where == "end" else C.string_at(g.start + nb, slack); W.check(rest == bytes([fill]) * slack, f"packing writes outside the packed bytes:{tag}", **d)
        W.check(G.tobytes() == keep and piv.tobytes() == pk, f"packing modifies its input:{tag}", **d)
        o = np.full((K, N), 0xEE, np.uint8)
        for w in ("end", "start"):
            W.at(op="unpack", kind=nm, set=s, impl=impl, case=n, memory=w); p = g.put(exp, w, int(rng.choice([0, 255]))); o[:] = 0xEE; I.lib.vi_unpack_rref(ptr(o), p); W.check((o == G).all(), f"unpacking does not return the packed matrix:{tag}", entries=np.argwhere(o != G)[:5].tolist(), got=o[o != G][:5], expected=G[o != G][:5], **d)
            W.check(g.get(w) == exp, f"unpacking modifies the packed bytes:{tag}", **d)
        v, pos, back = np.zeros((K, N - K), np.uint8), np.zeros(N - K, np.uint16), np.full((K, N), 0xEE, np.uint8); W.at(op="compact", kind=nm, set=s, impl=impl, case=n)
        I.lib.vi_compact(ptr(v), ptr(pos), ptr(G), ptr(piv)); I.lib.vi_expand(ptr(back), ptr(v), ptr(pos)); W.check((back == G).all(), f"compact form does not expand back:{tag}", **d); W.check((pos == np.flatnonzero(piv == 0)).all() and (v == G[:, piv == 0]).all(), f"compact form holds other columns:{tag}", **d)
        seen[np.arange(K * (N - K)), G[:, piv == 0].ravel()] = True; pats.add(pk); W.case(tag, keep, pk); W.count("matrices packed and unpacked")
    W.count("(position, value) pairs packed", int(seen.sum())); W.count("pivot sets", len(pats)); W.sample(set=s, impl=impl, matrices=n, pivot_sets=len(pats), entry_values=int(seen.sum()))
