"""Packing and validation of monomial actions: round trips, the specified bytes, bounded memory, and every way an action can be invalid."""
from api import *
from api import operations
import gens, time
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one action packed (into exactly the advertised bytes, compared with the specified layout), unpacked from memory bounded by inaccessible pages, or validated: valid ones and ones with a position repeated at any two places, "
        "a position beyond the code length or a coefficient zero or outside the field at any place; non-trivial and distinct = distinct action or byte string")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1
    out = [{"label": f"packing {i} {s}", "fn": "packing", "args": {"impl": i, "s": s, "seconds": 5 * x}, "est": 6} for i, s in pairs(FULL)]
    out += literal_tasks(x)
    out += [{"label": f"validation {i} {s}", "fn": "validation", "args": {"impl": i, "s": s, "seconds": 5 * x}, "est": 6} for i, s in pairs(FULL)]
    return out + [{"label": f"embedded {i} {s}", "fn": "embedded", "args": {"impl": i, "s": s, "n": 40 * x}, "est": 2} for s in [vbuild.scaled(b, 14, 4) for b in FULL] for i in vbuild.IMPLS]
def builds(tier, t): return scaled_builds() + literal_builds()
def bits_layout(M, p, c):
    b = np.concatenate([((p[:, None].astype(int) >> np.arange(M.pos_bits)) & 1).ravel(), ((c[:, None].astype(int) >> np.arange(7)) & 1).ravel()]).astype(np.uint8)
    return np.packbits(np.concatenate([b, np.zeros(-len(b) % 8, np.uint8)]), bitorder="little").tobytes()
def packing(W, impl, s, seconds, style=None):
    I, M = Impl(impl, s, style), Model(s); tag = f"{impl}:{s}" + (":unoptimised" if style else ""); K, N = M.K, M.N; nb = I.info["mono"]; rng = W.rng; mx = (1 << M.pos_bits) - 1
    if not I.has("monomial"): W.note("packing of actions not reachable through the shim; decided from whole operations only"); return
    g = Guarded(nb); t0 = time.time(); n = 0; sp, sc = np.zeros((K, mx + 1), bool), np.zeros((K, 128), bool); W.check(nb == (K * (M.pos_bits + 7) + 7) // 8, f"advertised packed size:{tag}", bytes=nb)
    while n < (20 if style else 100) or time.time() - t0 < seconds:
        p, c, nm = gens.action(rng, K, N); n += 1
        if n % 10 == 0: p = np.full(K, int(rng.choice([0, N - 1, 1, 1 << (M.pos_bits - 1)])), np.uint16); p[int(rng.integers(K))] ^= 1 << int(rng.integers(M.pos_bits)); c = np.full(K, int(rng.choice([1, 126, 64])), np.uint8); nm = "single bits"
        W.at(op="pack", kind=nm, set=s, impl=impl, case=n); d = dict(kind=nm, case=n, seed=W.seed); exp = bits_layout(M, p, c); fill = int(rng.choice([0, 255, 0x5a])); g.put(b"", "start", fill); where = "end" if n % 2 else "start"
        slack = g.len - 2 * (g.start - g.base) - nb; kp, kc = p.tobytes(), c.tobytes()
        I.lib.vi_pack_action(C.c_void_p(g.end if where == "end" else g.start), ptr(c), ptr(p)); got = g.get(where); bad = [i for i in range(nb) if got[i] != exp[i]] if got != exp else []
        W.check(got == exp, f"packed bytes differ from the specified layout:{tag}", bytes=bad[:8], got=[got[i] for i in bad[:8]], expected=[exp[i] for i in bad[:8]], memory_before=fill, **d)
        rest = C.string_at(g.start, slack) if where == "end" else C.string_at(g.start + nb, slack); W.check(rest == bytes([fill]) * slack, f"packing writes outside the packed bytes:{tag}", **d)
        for w, raw in (("end", exp), ("start", exp), ("end", rng.bytes(nb))):
            up, uc = np.full(K, 0xEEEE, np.uint16), buf(K, 0xEE); W.at(op="unpack", set=s, impl=impl, case=n, memory=w); I.lib.vi_unpack_action(ptr(uc), ptr(up), g.put(raw, w, int(rng.choice([0, 255]))))
            if raw is exp: ep, ec = p, c
            else:
                b = np.unpackbits(np.frombuffer(raw, np.uint8), bitorder="little").astype(int); ep = (b[:K * M.pos_bits].reshape(K, -1) << np.arange(M.pos_bits)).sum(1); ec = (b[K * M.pos_bits:K * (M.pos_bits + 7)].reshape(K, 7) << np.arange(7)).sum(1)
            W.check((up == ep).all() and (uc == ec).all(), f"unpacking differs from what was packed:{tag}", positions=np.flatnonzero(up != ep)[:5], coefficients=np.flatnonzero(uc != ec)[:5], raw=raw, **d); W.case(tag, raw)
        W.check(p.tobytes() == kp and c.tobytes() == kc, f"packing modifies its input:{tag}"); sp[np.arange(K), p] = True; sc[np.arange(K), c] = True; W.count("actions packed and unpacked")
    W.count("(place, position) pairs packed", int(sp.sum())); W.count("(place, coefficient) pairs packed", int(sc.sum())); W.sample(set=s, impl=impl, actions=n)
def want(M, p, c): return bool(len(np.unique(p)) == M.K and int(p.max()) < M.N and int(c.min()) >= 1 and int(c.max()) < 127)
def variants(M, rng):
    """(positions, coefficients, kind): each place is hit in turn"""
    K, N, mx = M.K, M.N, (1 << M.pos_bits) - 1; i = 0
    while True:
        p, c, nm = gens.action(rng, K, N); p, c = p.copy(), c.copy(); a = i % K; b = int(rng.integers(K)); k = i % 9; i += 1
        if b == a: b = (a + 1) % K
        if k == 0: n = "valid " + nm
        elif k == 1: p[a] = p[b]; n = "position repeated"
        elif k == 2: b = (a + 1) % K; p[a] = p[b]; n = "position repeated next to itself"
        elif k == 3: c[a] = 0; n = "zero coefficient"
        elif k == 4: c[a] = 127; n = "coefficient 127"
        elif k == 5:
            if mx < N: continue
            p[a] = int(rng.choice([N, N + 1, mx, int(rng.integers(N, mx + 1))])); n = "position beyond the code"
        elif k == 6:   # a position at either end of the range, still valid
            v = int(rng.choice([0, N - 1])); w = np.flatnonzero(p == v); 
            if len(w): p[w[0]], p[a] = p[a], v
            else: p[a] = v
            c[a] = int(rng.choice([1, 126])); n = "extreme but valid"
        elif k == 7: v = int(rng.choice([0, N - 1, int(rng.integers(N))])); p = p[p != v][:K - 2] if (p == v).sum() else p[:K - 2]; p = np.concatenate([p, np.full(K - len(p), v, np.uint16)]).astype(np.uint16); p = p[rng.permutation(K)] if rng.integers(2) else p; n = "a chosen position repeated"
        else: p[a] = p[b]; c[b] = 0; n = "two faults"
        yield np.ascontiguousarray(p), np.ascontiguousarray(c), n
def validation(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; t0 = time.time(); n = 0; it = variants(M, W.rng)
    if not I.has("monomial"): W.note("validation not reachable through the shim; decided from whole operations only"); return
    while n < 9 * M.K or time.time() - t0 < seconds:
        p, c, nm = next(it); n += 1; W.at(op="validate", kind=nm, set=s, impl=impl, case=n); w = want(M, p, c); k = p.tobytes() + c.tobytes(); r = bool(I.lib.vi_action_valid(ptr(c), ptr(p)))
        W.check(r == w, f"validity of an action:{tag}", kind=nm, got=r, expected=w, positions=p.tolist() if not w else None, coefficients_out=np.flatnonzero((c == 0) | (c > 126)), repeated=[int(v) for v, m in zip(*np.unique(p, return_counts=True)) if m > 1][:4])
        W.check(p.tobytes() + c.tobytes() == k, f"validation modifies the action:{tag}"); W.case(tag, k); W.count(f"validated: {nm.split(' coef')[0] if not nm.startswith('valid') else 'valid'}")
        if r and w or nm.startswith("valid"): continue
        # and again from its packed form, if it has one
        up, uc = np.zeros(M.K, np.uint16), buf(M.K); raw = arr(bits_layout(M, p, c)); I.lib.vi_unpack_action(ptr(uc), ptr(up), ptr(raw)); W.check(bool(I.lib.vi_action_valid(ptr(uc), ptr(up))) == w, f"validity of a decoded action:{tag}", kind=nm)
    W.sample(set=s, impl=impl, validated=n)
def embedded(W, impl, s, n):
    """the same inside signatures: the actions the signer packed are those of the model, and invalid ones are refused"""
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; operations(W, impl, s, .4)
    c = M.rng(W.rbytes(48)); pk, sk = M.keygen(c); it = variants(M, W.rng)
    for j in range(n):
        m = W.rbytes(20); sm = M.sign(c, m, sk) if j % 10 == 0 or j == 0 else sm; f = M.fields(sm); a, b = f["actions"]; i = int(W.rng.integers(M.W)); p, co, nm = next(it); W.at(op="open", kind=nm, set=s, impl=impl, action=i)
        bad = bytearray(sm); bad[a + i * M.mono_bytes:a + (i + 1) * M.mono_bytes] = bits_layout(M, p, co); rc, _ = I.open(bytes(bad), pk); W.check(rc == -1, f"signature with a foreign or invalid action accepted:{tag}", kind=nm, rc=rc, action=i); W.case("sig", tag, bytes(bad)); W.count("signatures with replaced actions")
