"""Disclosure: the signer's ephemeral tree is recomputed from the observed generator stream, and everything put on the wire is searched for hidden nodes and key material."""
from api import *
RULE = ("one case = one signature made by the real code, each published seed identified as a tree node and checked to have no hidden leaf below it, and key, signature and the rest of the caller's buffer "
        "searched for 8-byte windows of every hidden node and secret-key-derived seed; non-trivial and distinct = distinct signed message")
def tasks(tier, seed):
    th = tier == "thorough"; out = []; x = 15 if th else 1
    for i, s in pairs(SCALED + [s for s in FULL if s[0] == "1"]) + [("avx2", s) for s in FULL if s[0] != "1"]:
        u = cost(i, s); n = reps(u, 6 * x, 1, 2000); out.append({"label": f"disclosure {i} {s}", "fn": "disclosure", "args": {"impl": i, "s": s, "n": n}, "est": u * n + 2})
    if th: out += [{"label": f"disclosure ref {s}", "fn": "disclosure", "args": {"impl": "ref", "s": s, "n": 6}, "est": 200} for s in FULL if s[0] != "1"]
    for i, s in pairs(FULL): out.append({"label": f"published nodes {i} {s}", "fn": "nodes", "args": {"impl": i, "s": s, "seconds": 3 * x}, "est": 4})
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs()]
def windows(b, n=8): return {b[i:i + n] for i in range(len(b) - n + 1)}
def hidden_nodes(M, x):
    """nodes at or above a hidden leaf"""
    out = set()
    for l in np.flatnonzero(np.asarray(x)):
        v = M.L - 1 + int(l)
        while True:
            out.add(v)
            if v == 0: break
            v = (v - 1) // 2
    return out
def search(W, tag, where, data, secrets, **d):
    w = windows(data)
    for name, b in secrets:
        hit = windows(b) & w
        if hit: W.check(False, f"{where} contains {name}:{tag}", window=next(iter(hit)), at=data.find(next(iter(hit))), **d)

def disclosure(W, impl, s, n):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; pin = forcing(W, I, M) if n > 2 else False; lens = boundary_lengths(M)
    for i in range(n):
        if i % 5 == 0:
            I.seed(W.rbytes(48)); W.at(op="keygen", set=s, impl=impl); pk, sk = I.keygen()
            c = M.rng(sk[:M.D]); secret = [("the secret key seed", sk[:M.D])] + [(f"private seed {j + 1}", M.draw(c, M.D)) for j in range(M.kp - 1)]
            search(W, tag, "public key", pk, secret); W.count("public keys searched")
        x = honest.forced_x(M, W.rng, ["worst", "random", "first"][i // 2 % 3]) if pin and i % 2 else None
        m = W.rbytes(int(W.rng.choice(lens)))
        st = I.state(); stream = I.randombytes(4 * M.S + M.D + 64); I.set_state(st)
        if x is not None: I.force(x)
        W.at(op="sign", set=s, impl=impl, mlen=len(m), pinned=x is not None); fill = int(W.rng.choice([0, 0xee])); sm = I.sign(m, sk, fill=fill); I.force(None)
        f = M.fields(sm); dig = sm[f["digest"][0]:f["digest"][1]]; xx = x if x is not None else M.challenge(dig); salt = sm[f["salt"][0]:f["salt"][1]]
        seeds = sm[f["seeds"][0]:f["seeds"][1]]; seeds = [seeds[j:j + M.S] for j in range(0, len(seeds), M.S)]; hid = hidden_nodes(M, xx)
        d = dict(mlen=len(m), pinned=x is not None, count=len(seeds))
        # the root is the first draw; should it be elsewhere in the stream, find it there
        tree = None
        for off in range(0, len(stream) - M.S + 1):
            t = M.tree_of(stream[off:off + M.S], salt).tobytes(); nodes = {t[M.S * v:M.S * v + M.S]: v for v in range(2 * M.L - 1)}
            if any(b in nodes for b in seeds): tree = nodes; W.count("roots found at offset %d of the stream" % off); break
            if off and M.T > 200: break
        if tree is None: W.check(False, f"no published seed is a node of the ephemeral tree:{tag}", **d); continue
        where = [tree.get(b) for b in seeds]
        W.check(None not in where, f"a published seed is no node of the ephemeral tree:{tag}", index=where.index(None) if None in where else None, **d)
        bad = [v for v in where if v in hid]; W.check(not bad, f"a published seed is an ancestor of a hidden round or its seed:{tag}", nodes=bad, hidden_rounds=np.flatnonzero(xx), **d)
        hs = [(f"hidden tree node {v}", t[M.S * v:M.S * v + M.S]) for v in sorted(hid)]
        body = sm[len(m):]; tail = I.tail; allowed = set()
        search(W, tag, "signed message", body, secret + hs, **d)
        if tail and tail != bytes([fill]) * len(tail): search(W, tag, "buffer beyond the signed message", tail, secret + [(f"tree node {v}", b) for b, v in tree.items()], **d); W.count("written tails searched")
        W.case(tag, sm); W.count("signatures searched"); W.count("published seeds identified", len(where)); W.count("hidden nodes searched for", len(hs)); W.high("published seeds", len(where))
        if i == 0: W.sample(set=s, impl=impl, published=where[:12], hidden=[int(v) for v in np.flatnonzero(xx)][:12])

def nodes(W, impl, s, seconds):
    """the publication step itself at full size: every hidden set shape, nodes identified in the storage written"""
    import gens, time
    I, M = Impl(impl, s), Model(s)
    if not I.has("tree"): W.note("publication step not reachable through the shim; decided at API level"); return
    from vimpl import arr, buf, ptr
    t0 = time.time(); n = 0
    while n < 9 or time.time() - t0 < seconds:
        root, salt = arr(W.rbytes(M.S)), arr(W.rbytes(M.D)); tree = M.tree_of(root.tobytes(), salt.tobytes()); tb = tree.tobytes(); idx = {tb[M.S * v:M.S * v + M.S]: v for v in range(2 * M.L - 1)}
        for h, nm in list(gens.hidden_sets(W.rng, M.T, M.W, 9)) + [((cover.challenge(M.T, M.kp, cover.worst(M.T, M.W, W.rng)[1], W.rng) != 0).astype(np.uint8), "worst")] if n % 4 == 0 else gens.hidden_sets(W.rng, M.T, M.W, 9):
            st = buf(I.info["maxbytes"] + 64, 0xC7); h = np.ascontiguousarray(h); W.at(op="path", kind=nm, impl=impl, set=s)
            t = buf(max(len(tree), I.info["nodes"] * M.S), 0); t[:len(tree)] = tree
            c = I.lib.vi_path(ptr(t), ptr(h), ptr(st)); out = st[:c * M.S].tobytes(); v = [idx.get(out[j:j + M.S]) for j in range(0, len(out), M.S)]; hid = hidden_nodes(M, h)
            W.check(None not in v, f"storage holds something else than tree nodes:{impl}:{s}", kind=nm, nodes=v); bad = [q for q in v if q in hid]
            W.check(not bad, f"storage holds an ancestor of a hidden round:{impl}:{s}", kind=nm, nodes=bad, hidden_rounds=np.flatnonzero(h))
            W.check(not (windows(st[c * M.S:I.info["maxbytes"]].tobytes()) - {b"\xc7" * 8}) & windows(tb[:M.S]) and all(st[j:j + M.S].tobytes() not in idx for j in range(c * M.S, I.info["maxbytes"], M.S)), f"storage beyond the published seeds holds tree nodes:{impl}:{s}", kind=nm)
            W.case("nodes", impl, s, h.tobytes(), root.tobytes()); W.count("publications checked")
            n += 1
