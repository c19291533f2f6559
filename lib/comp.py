"""Component-level subjects: each has an input generator, the call into the code under
test through the shim, and the same value computed by the model."""
import ctypes as C
import numpy as np
import gens
from vimpl import ptr, buf, arr

def c_(a): return np.ascontiguousarray(a)

class Comp:
    group = None
    near = {}       # index of an input -> how one entry of it may change without leaving the domain
    def neighbour(self, M, rng, inp):
        """the same input but for one byte or entry: what a stale or too coarsely keyed intermediate result gets wrong"""
        ks = sorted(self.near)
        if not ks: return None
        k = ks[int(rng.integers(len(ks)))]; how = self.near[k]; x = inp[k]; j = int(rng.integers(3))
        if how == "bytes": b = bytearray(x); b[[0, len(b) - 1, int(rng.integers(len(b)))][j]] ^= 1 << int(rng.integers(8)); x = bytes(b)
        elif how == "round": x = int([x ^ 1, (x + 256) % M.T, rng.integers(M.T)][j]) % M.T
        else:
            x = x.copy(); f = x.reshape(-1); a = [0, len(f) - 1, int(rng.integers(len(f)))][j]; b = int(rng.integers(len(f)))
            if how == "swap": f[a], f[b] = f[b], f[a]
            elif how == "field": f[a] = int(rng.integers(127))
            else: f[a] = int(rng.integers(1, 127))
        return tuple(x if i == k else v for i, v in enumerate(inp))
    def gen(self, M, rng): raise NotImplementedError
    def impl(self, I, inp): raise NotImplementedError
    def model(self, M, inp): raise NotImplementedError
    def dom(self, M, inp): return True

class Rref(Comp):
    name, group = "row reduction", "codes"
    near = {0: "field"}
    def gen(self, M, rng): G, n = gens.matrix(rng, M.K, M.N); return (c_(G),), n
    def impl(self, I, inp):
        g = inp[0].copy(); p = buf(I.info["N"]); r = I.lib.vi_rref(ptr(g), ptr(p)); return (r,) if r == 0 else (r, g.tobytes(), p.tobytes())
    def model(self, M, inp):
        r, g, p = M.rref(inp[0]); return (0,) if r < M.K else (1, g.tobytes(), p.tobytes())

class Gmul(Comp):
    name, group = "generator times monomial", "codes"
    near = {0: "field", 1: "coef", 2: "swap"}
    def gen(self, M, rng): G, n = gens.field(rng, (M.K, M.N)); c, p, n2 = gens.monomial(rng, M.N); return (c_(G), c, p), n + " " + n2
    def impl(self, I, inp):
        G, c, p = inp; o = np.zeros_like(G); I.lib.vi_gmul(ptr(o), ptr(G), ptr(c), ptr(p)); return (o.tobytes(),)
    def model(self, M, inp):
        G, c, p = inp; o = np.zeros_like(G); o[:, p] = (G.astype(int) * c) % 127; return (o.tobytes(),)

class Lexmin(Comp):
    name, group = "column normalisation", "codes"
    near = {0: "field"}
    def gen(self, M, rng):
        G, n = gens.field(rng, (M.K, M.N)); G = G.copy(); k = int(rng.integers(4)); col = int(rng.integers(M.N))
        if k == 1: G[:int(rng.integers(0, M.K + 1)), col] = 0
        if k == 2: G[:M.K - 1, col] = 0; G[M.K - 1, col] = int(rng.integers(0, 127))
        if k == 3: G[:, col] = int(rng.integers(0, 127))
        return (c_(G), col, int(rng.integers(M.N - M.K))), n + f" {k}"
    def impl(self, I, inp):
        G, col, dst = inp; V = np.full((G.shape[0], G.shape[1] - G.shape[0]), 0x55, np.uint8); I.lib.vi_lexmin(ptr(V), dst, ptr(G), col); return (V.tobytes(),)
    def model(self, M, inp):
        G, col, dst = inp; V = np.full((M.K, M.N - M.K), 0x55, np.uint8); x = G[:, col].astype(int); nz = np.flatnonzero(x)
        V[:, dst] = (x * pow(int(x[nz[0]]), 125, 127)) % 127 if len(nz) else 0
        return (V.tobytes(),)

def sort_cols(V):
    K, n = V.shape; o = np.lexsort(V[::-1]); return c_(V[:, o])
class Sort(Comp):
    name, group = "column sort", "codes"
    near = {0: "field"}
    def gen(self, M, rng):
        k = int(rng.integers(10)); n = M.N - M.K
        V, nm = gens.field(rng, (M.K, n)); V = V.copy()
        if k == 0: V[:] = V[:, :1]; nm += " all equal"
        elif k == 1: V = sort_cols(V); nm += " sorted"
        elif k == 2: V = c_(sort_cols(V)[:, ::-1]); nm += " reversed"
        elif k == 3: V = c_(V[:, rng.integers(0, 4, n)]); nm += " few distinct"
        elif k == 4: V[:] = V[:, :1]; V[M.K - 1] = rng.integers(0, 127, n); nm += " differ in last row"
        elif k == 5: V[:] = V[:, :1]; V[0] = rng.integers(0, 127, n); nm += " differ in first row"
        elif k == 6: V = sort_cols(V); i, j = rng.integers(0, n, 2); V[:, [i, j]] = V[:, [j, i]]; nm += " one swap"
        elif k == 7: V[:] = V[:, :1]; r = int(rng.integers(M.K)); V[r] = rng.integers(0, 3, n); nm += " ties in one row"
        elif k == 8: V = sort_cols(V); V = c_(np.concatenate([V[:, ::2], V[:, 1::2][:, ::-1]], 1)); nm += " organ pipe"
        return (c_(V),), nm
    def impl(self, I, inp): V = inp[0].copy(); I.lib.vi_sort(ptr(V)); return (V.tobytes(),)
    def model(self, M, inp): return (sort_cols(inp[0]).tobytes(),)

class Prepare(Comp):
    name, group = "round digest input", "codes"
    near = {1: "coef", 2: "swap"}
    def gen(self, M, rng):
        k = int(rng.integers(3))
        if k == 0: G = M.g0(rng.bytes(M.S)); n = "G0"
        elif k == 1: G, _, n = gens.true_rref(rng, M.K, M.N); n = "rref " + n
        else: G, n = gens.full_rank_matrix(rng, M.K, M.N); n = "full rank " + n
        c, p, n2 = gens.monomial(rng, M.N); return (c_(G), c, p), n + " " + n2
    def impl(self, I, inp):
        G, c, p = inp; K, N = G.shape; V = np.zeros((K, N - K), np.uint8); ap = np.zeros(K, np.uint16); ac = buf(K)
        I.lib.vi_prepare(ptr(V), ptr(ap), ptr(ac), ptr(G), ptr(c), ptr(p)); return V.tobytes(), ap.tobytes(), ac.tobytes()
    def model(self, M, inp):
        r, V, ap, ac = M.round(*inp); return V.tobytes(), ap.tobytes(), ac.tobytes()

class Apply(Comp):
    """the verifier's path: action applied to a code"""
    name, group = "action applied to a code", "codes"
    near = {1: "swap", 2: "coef"}
    def gen(self, M, rng):
        G, _, n = gens.true_rref(rng, M.K, M.N); p, c, n2 = gens.action(rng, M.K, M.N); return (c_(G), p, c), n + " " + n2
    def impl(self, I, inp):
        G, p, c = inp; K = G.shape[0]; o = np.zeros_like(G); I.lib.vi_apply(ptr(o), ptr(G), ptr(p), ptr(c))
        return o[:, :K].tobytes(), sort_cols(o[:, K:]).tobytes()
    def model(self, M, inp):
        o = M.apply(*inp); return o[:, :M.K].tobytes(), sort_cols(o[:, M.K:]).tobytes()

class PackRref(Comp):
    name, group = "packing of a generator matrix", "codes"
    def gen(self, M, rng): G, p, n = gens.rref(rng, M.K, M.N); return (c_(G), p), n
    def impl(self, I, inp):
        G, p = inp; n = I.info["rref"]; outs = []
        for fill in (0, 0xff):
            b = buf(n + 32, 0xC7); b[:n] = fill; I.lib.vi_pack_rref(ptr(b), ptr(G), ptr(p)); outs.append(b.tobytes())
        return tuple(outs)
    def model(self, M, inp): e = M.pack_rref(*inp) + b"\xc7" * 32; return e, e

class UnpackRref(Comp):
    name, group = "unpacking of a generator matrix", "codes"
    def gen(self, M, rng): G, p, n = gens.rref(rng, M.K, M.N); return (M.pack_rref(c_(G), p), c_(G)), n
    def impl(self, I, inp): o = np.zeros_like(inp[1]); a = arr(inp[0]); I.lib.vi_unpack_rref(ptr(o), ptr(a)); return (o.tobytes(),)
    def model(self, M, inp): return (inp[1].tobytes(),)

class Compact(Comp):
    name, group = "compact form and back", "codes"
    def gen(self, M, rng): G, p, n = gens.rref(rng, M.K, M.N); return (c_(G), p), n
    def impl(self, I, inp):
        G, p = inp; K, N = G.shape; v = np.zeros((K, N - K), np.uint8); pos = np.zeros(N - K, np.uint16); o = np.zeros_like(G)
        I.lib.vi_compact(ptr(v), ptr(pos), ptr(G), ptr(p)); I.lib.vi_expand(ptr(o), ptr(v), ptr(pos)); return v.tobytes(), pos.tobytes(), o.tobytes()
    def model(self, M, inp):
        G, p = inp; np_ = np.flatnonzero(p == 0); return c_(G[:, np_]).tobytes(), np_.astype(np.uint16).tobytes(), G.tobytes()

class G0(Comp):
    name, group = "public code expansion", "codes"
    near = {0: "bytes"}
    def gen(self, M, rng): return (gens.seed_bytes(rng, M.S),), "seed"
    def impl(self, I, inp): o = np.zeros((I.info["K"], I.info["N"]), np.uint8); a = arr(inp[0]); I.lib.vi_g0(ptr(o), ptr(a)); return (o.tobytes(),)
    def model(self, M, inp): return (M.g0(inp[0]).tobytes(),)

def mono_out(I): return buf(I.info["N"]), np.zeros(I.info["N"], np.uint16)
class Mmul(Comp):
    name, group = "monomial product", "monomial"
    near = {0: "coef", 1: "swap", 2: "coef", 3: "swap"}
    def gen(self, M, rng): a = gens.monomial(rng, M.N); b = gens.monomial(rng, M.N); return (a[0], a[1], b[0], b[1]), a[2] + " * " + b[2]
    def impl(self, I, inp): c, p = mono_out(I); I.lib.vi_mmul(ptr(c), ptr(p), *[ptr(x) for x in inp]); return c.tobytes(), p.tobytes()
    def model(self, M, inp):
        ac, ap, bc, bp = inp; return ((ac.astype(int) * bc[ap]) % 127).astype(np.uint8).tobytes(), bp[ap].tobytes()
class Minv(Comp):
    name, group = "monomial inverse", "monomial"
    near = {0: "coef", 1: "swap"}
    def gen(self, M, rng): a = gens.monomial(rng, M.N); return (a[0], a[1]), a[2]
    def impl(self, I, inp): c, p = mono_out(I); I.lib.vi_minv(ptr(c), ptr(p), *[ptr(x) for x in inp]); return c.tobytes(), p.tobytes()
    def model(self, M, inp):
        ac, ap = inp; inv = np.array([pow(i, 125, 127) for i in range(127)], np.uint8); c = np.zeros(M.N, np.uint8); p = np.zeros(M.N, np.uint16)
        c[ap] = inv[ac]; p[ap] = np.arange(M.N); return c.tobytes(), p.tobytes()
class Compose(Comp):
    name, group = "monomial composed with an action", "monomial"
    near = {0: "coef", 1: "swap", 2: "coef", 3: "swap"}
    def gen(self, M, rng): q = gens.monomial(rng, M.N); p, c, n = gens.action(rng, M.K, M.N); return (q[0], q[1], c, p), q[2] + " on " + n
    def impl(self, I, inp):
        K = I.info["K"]; c, p = buf(K), np.zeros(K, np.uint16); I.lib.vi_compose(ptr(c), ptr(p), *[ptr(x) for x in inp]); return c.tobytes(), p.tobytes()
    def model(self, M, inp):
        qc, qp, ac, ap = inp; inv = np.zeros(M.N, np.uint16); inv[qp] = np.arange(M.N); s = inv[ap]
        return ((ac.astype(int) * qc[s]) % 127).astype(np.uint8).tobytes(), s.astype(np.uint16).tobytes()
class Msalt(Comp):
    name, group = "ephemeral monomial expansion", "monomial"
    near = {0: "bytes", 1: "bytes", 2: "round"}
    def gen(self, M, rng):
        r = int(rng.choice([0, 1, 254, 255, 256, 257, M.T - 1, int(rng.integers(M.T))])) % M.T
        k = int(rng.integers(4)); seed = gens.seed_bytes(rng, M.S); salt = gens.seed_bytes(rng, M.D, [seed])
        if k == 0: seed = bytes([int(rng.choice([0, 255]))]) * M.S
        if k == 1: salt = bytes([int(rng.choice([0, 255]))]) * M.D
        return (seed, salt, r), f"{k}"
    def impl(self, I, inp): c, p = mono_out(I); a, b = arr(inp[0]), arr(inp[1]); I.lib.vi_msalt(ptr(c), ptr(p), ptr(a), ptr(b), C.c_uint(inp[2])); return c.tobytes(), p.tobytes()
    def model(self, M, inp): c, p = M.monomial_salted(*inp); return c.tobytes(), p.tobytes()
class Mprikey(Comp):
    name, group = "private monomial expansion", "monomial"
    near = {0: "bytes"}
    def gen(self, M, rng): return (gens.seed_bytes(rng, M.D),), ""
    def impl(self, I, inp): c, p = mono_out(I); a = arr(inp[0]); I.lib.vi_mprikey(ptr(c), ptr(p), ptr(a)); return c.tobytes(), p.tobytes()
    def model(self, M, inp): c, p = M.monomial_prikey(*inp); return c.tobytes(), p.tobytes()
class Mrnd(Comp):
    name, group = "monomial from the system generator", "monomial"
    near = {0: "bytes"}
    def gen(self, M, rng): return (rng.bytes(48),), ""
    def impl(self, I, inp):
        I.seed(inp[0]); o = []
        for _ in range(2): c, p = mono_out(I); I.lib.vi_mrnd(ptr(c), ptr(p)); o += [c.tobytes(), p.tobytes()]
        return tuple(o)
    def model(self, M, inp):
        s = M.rng(inp[0]); o = []
        for _ in range(2): c, p = M.monomial_stream(s); o += [c.tobytes(), p.tobytes()]
        return tuple(o)
class Grnd(Comp):
    name, group = "generator matrix from the system generator", "rnd"
    near = {0: "bytes"}
    def gen(self, M, rng): return (rng.bytes(48),), ""
    def impl(self, I, inp): I.seed(inp[0]); o = np.full((I.info["K"], I.info["N"]), 0xEE, np.uint8); I.lib.vi_grnd(ptr(o)); return o.tobytes(), I.randombytes(16)
    def model(self, M, inp): s = M.rng(inp[0]); return b"".join(M.sample(s, M.N, 0, 126).tobytes() for _ in range(M.K)), M.draw(s, 16)
class PackAction(Comp):
    name, group = "packing of an action", "monomial"
    near = {0: "coef", 1: "swap"}
    def gen(self, M, rng): p, c, n = gens.action(rng, M.K, M.N); return (c, p), n
    def impl(self, I, inp):
        n = I.info["mono"]; outs = []
        for fill in (0, 0xff):
            b = buf(n + 32, 0xC7); b[:n] = fill; I.lib.vi_pack_action(ptr(b), ptr(inp[0]), ptr(inp[1])); outs.append(b.tobytes())
        return tuple(outs)
    def model(self, M, inp): e = M.pack_action(inp[1], inp[0]) + b"\xc7" * 32; return e, e
class UnpackAction(Comp):
    name, group = "unpacking of an action", "monomial"
    near = {0: "bytes"}
    def gen(self, M, rng):
        if rng.integers(2): p, c, n = gens.action(rng, M.K, M.N); return (M.pack_action(p, c),), n
        return (rng.bytes(M.mono_bytes),), "random bytes"
    def impl(self, I, inp):
        K = I.info["K"]; c, p = buf(K), np.zeros(K, np.uint16); a = arr(inp[0]); I.lib.vi_unpack_action(ptr(c), ptr(p), ptr(a)); return c.tobytes(), p.tobytes()
    def model(self, M, inp): p, c = M.unpack_action(inp[0]); return c.tobytes(), p.tobytes()
class ActionValid(Comp):
    name, group = "action validity", "monomial"
    near = {0: "field", 1: "swap"}
    def gen(self, M, rng):
        p, c, n = gens.action(rng, M.K, M.N); p, c = p.copy(), c.copy(); k = int(rng.integers(8)); i, j = rng.choice(M.K, 2, replace=False)
        mx = (1 << M.pos_bits) - 1
        if k == 1: p[i] = p[j]
        elif k == 2: p[i] = int(rng.integers(M.N, mx + 1))
        elif k == 3: c[i] = 0
        elif k == 4: c[i] = 127
        elif k == 5: p[M.K - 1] = p[0]
        elif k == 6: p[M.K - 1] = p[M.K - 2]
        elif k == 7: i = int(rng.choice([0, M.K - 1])); p[i] = int(rng.choice([M.N, mx]))
        return (c, p), f"{k} {n}"
    def impl(self, I, inp): return (bool(I.lib.vi_action_valid(ptr(inp[0]), ptr(inp[1]))),)
    def model(self, M, inp): return (bool(M.action_valid(inp[1], inp[0])),)

class Challenge(Comp):
    name, group = "challenge expansion", "chal"
    near = {0: "bytes"}
    def gen(self, M, rng): return (gens.seed_bytes(rng, M.D),), ""
    def impl(self, I, inp): x = buf(I.info["T"] + 16); a = arr(inp[0]); I.lib.vi_challenge(ptr(x), ptr(a)); return (x.tobytes(),)
    def model(self, M, inp): return (M.challenge(inp[0]).tobytes() + b"\xa7" * 16,)

class Tree(Comp):
    """whole tree, path and rebuilt leaves for one hidden set"""
    name, group = "seed tree", "tree"
    near = {0: "bytes", 1: "bytes", 2: "swap"}
    def gen(self, M, rng):
        import cover
        k = int(rng.integers(9))
        if k == 8: h = np.zeros(M.T, np.uint8); h[cover.worst(M.T, M.W, rng)[1]] = 1; n = "worst case"
        else:
            for i, (h, n) in enumerate(gens.hidden_sets(rng, M.T, M.W, k + 1)): pass
        root = gens.seed_bytes(rng, M.S); return (root, gens.seed_bytes(rng, M.D, [root]), h), n
    def impl(self, I, inp):
        S, nodes, T = I.info["S"], I.info["nodes"], I.info["T"]; root, salt = arr(inp[0]), arr(inp[1]); h = c_(inp[2])
        t = buf(nodes * S + 64, 0xC7); I.lib.vi_tree(ptr(t), ptr(root), ptr(salt))
        st = buf(I.info["maxbytes"] + 64, 0xC7); hb = h.tobytes(); tb = t.tobytes()
        n = I.lib.vi_path(ptr(t), ptr(h), ptr(st))
        same = h.tobytes() == hb and t.tobytes() == tb
        t2 = buf(nodes * S + 64, 0xC7); t2[:nodes * S] = 0
        used = I.lib.vi_rebuild(ptr(t2), ptr(h), ptr(st), ptr(salt))
        leaves = t2[(I.info["L"] - 1) * S:nodes * S].reshape(-1, S)[:T]
        return tb, n, st[:n * S].tobytes(), bool((st[max(n * S, I.info["maxbytes"]):] == 0xC7).all()), used, leaves[h == 0].tobytes(), same
    def model(self, M, inp):
        t = M.tree_of(inp[0], inp[1]); nd = M.cover(inp[2]); tt = t.reshape(-1, M.S)
        lv = tt[M.L - 1:M.L - 1 + M.T]
        return t.tobytes() + b"\xc7" * 64, len(nd), tt[nd].tobytes(), True, len(nd), lv[inp[2] == 0].tobytes(), True

ALL = [Rref, Gmul, Lexmin, Sort, Prepare, Apply, PackRref, UnpackRref, Compact, G0, Mmul, Minv, Compose, Msalt, Mprikey, Mrnd, Grnd, PackAction,
       UnpackAction, ActionValid, Challenge, Tree]

def show(inp): return [x if isinstance(x, (int, bytes)) else np.asarray(x) for x in inp]

def drive(W, comp, subjects, M, n, key="component", oracle=True):
    """n generated inputs through every subject; the oracle is the model, or else the first subject"""
    S = [I for I in subjects if I.has(comp.group)]
    if len(S) < len(subjects): W.note(f"{comp.name}: the shim group '{comp.group}' does not build against this tree; decided at API level only")
    if not S or (not oracle and len(S) < 2): return
    if getattr(comp, "seen_set", None) != M.s: comp.seen_set, comp.seen = M.s, []
    for i in range(n):
        k = int(W.rng.integers(8)) if comp.seen else 9
        if k < 2 and comp.near: inp, nm = comp.neighbour(M, W.rng, comp.seen[-1][0]), "next to the previous input"
        elif k == 2: inp, nm = comp.seen[0][0], "an earlier input again"
        else: inp, nm = comp.gen(M, W.rng)
        comp.seen = comp.seen[-2:] + [(inp, nm)]
        W.at(component=comp.name, case=i, kind=nm)
        exp = comp.model(M, inp) if oracle else None
        for I in S:
            got = comp.impl(I, inp)
            if exp is None: exp = got; continue
            if got != exp:
                bad = [k for k in range(max(len(got), len(exp))) if k >= len(got) or k >= len(exp) or got[k] != exp[k]]
                W.check(False, f"{key}:{comp.name}:{I.impl}:{M.s}", input_kind=nm, inputs=[str(work_show(x)) for x in show(inp)], case=i,
                        differs_in=bad, got=[work_show(got[k]) for k in bad if k < len(got)][:2], expected=[work_show(exp[k]) for k in bad if k < len(exp)][:2])
        W.case(comp.name, *[x.tobytes() if isinstance(x, np.ndarray) else repr(x).encode() for x in inp])
        W.count(f"{comp.name} compared")
        if i == 0: W.sample(component=comp.name, kind=nm, set=M.s)
from work import show as work_show
