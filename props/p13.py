"""Seed tree: publication and rebuilding driven over structured, random and extremal hidden sets; the cover is recomputed independently."""
from api import *
import comp, gens, time
from vimpl import arr, buf, ptr
RULE = ("one case = one (root, salt, hidden set): the whole tree compared with the specified expansion, the published nodes with the independently computed maximal public subtrees, and the rebuilt public leaves with "
        "the signer's; or one signature whose published seeds were checked likewise; non-trivial and distinct = distinct (root, hidden set)")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1; out = []
    for i, s in pairs(FULL): out.append({"label": f"covers {i} {s}", "fn": "covers", "args": {"impl": i, "s": s, "seconds": 9 * x}, "est": 10})
    for i, s in pairs(SCALED + [s for s in FULL if s[0] == "1"]): out.append({"label": f"signatures {i} {s}", "fn": "sigs", "args": {"impl": i, "s": s, "n": reps(2 * cost(i, s), 5 * x, 1, 500)}, "est": 7})
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs()]
def maximal_public(T, L, hidden):
    """independent of the model: subtrees with no hidden round (leaves beyond the last round are never hidden) whose parent has one"""
    n = 2 * L - 1; hid = np.zeros(n, bool); hid[L - 1:L - 1 + T] = np.asarray(hidden) != 0
    for v in range(L - 2, -1, -1): hid[v] = hid[2 * v + 1] or hid[2 * v + 2]
    return [v for v in range(n) if not hid[v] and (v == 0 or hid[(v - 1) // 2])]
def sets(M, rng):
    while True:
        for x in gens.hidden_sets(rng, M.T, M.W, 9): yield x
        h = np.zeros(M.T, np.uint8); h[cover.worst(M.T, M.W, rng)[1]] = 1; yield h, "worst case"
        # local search from the worst case
        g = h.copy(); a, b = rng.choice(np.flatnonzero(g)), rng.choice(np.flatnonzero(g == 0)); g[a] = 0; g[b] = 1; yield g, "near the worst case"
        k = int(rng.integers(1, 6)); c = rng.integers(0, M.T, k); w = np.zeros(M.T, np.uint8); d = np.abs(np.arange(M.T)[None] - c[:, None]).min(0); w[np.argsort(d, kind="stable")[:M.W]] = 1; yield w, "clusters"
def covers(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"
    if not I.has("tree"): W.note("seed tree not reachable through the shim; decided from signatures only"); return
    t0 = time.time(); S, nd = M.S, I.info["nodes"]; n = 0; it = sets(M, W.rng)
    while n < 24 or time.time() - t0 < seconds:
        q = n // 12 % 6
        if q == 1: salt = gens.relative(W.rng, salt)
        elif q == 3: root = gens.relative(W.rng, root)
        else: root = gens.seed_bytes(W.rng, S); salt = gens.seed_bytes(W.rng, M.D, [root])
        if n % 96 == 0: k = int(W.rng.choice([0, 255])); root, salt = (bytes([k]) * S, salt) if n % 192 else (root, bytes([k]) * M.D)
        ra, sa = arr(root), arr(salt); t = buf(max(nd, 2 * M.L - 1) * S + 64, 0xC7); W.at(op="tree", impl=impl, set=s)
        I.lib.vi_tree(ptr(t), ptr(ra), ptr(sa)); e = M.tree_of(root, salt); tb = t[:len(e)].reshape(-1, S); eb = e.reshape(-1, S)
        bad = np.flatnonzero((tb != eb).any(1)); W.check(len(bad) == 0, f"tree differs from the specified expansion:{tag}", nodes=bad[:10], root=root, salt=salt)
        W.check(bool((t[nd * S:] == 0xC7).all()), f"tree expansion writes beyond its storage:{tag}"); W.count("trees compared")
        dup = len({r.tobytes() for r in tb}); W.check(dup == len(tb), f"two tree nodes carry the same seed:{tag}", distinct=dup)
        for _ in range(12):
            h, nm = next(it); h = np.ascontiguousarray(h, np.uint8); assert h.sum() == M.W; n += 1; W.at(op="path", kind=nm, impl=impl, set=s)
            st = buf(I.info["maxbytes"] + 64, 0xC7); before = t.tobytes(); c = I.lib.vi_path(ptr(t), ptr(h), ptr(st)); exp = maximal_public(M.T, M.L, h)
            d = dict(kind=nm, hidden_rounds=np.flatnonzero(h), root=root, salt=salt)
            W.check(sorted(int(v) for v in M.cover(h)) == exp, "model and monitor disagree on the cover")
            W.check(c == len(exp), f"number of published nodes:{tag}", got=c, expected=len(exp), **d); W.check(c * S <= I.info["maxbytes"], f"published nodes exceed the reserved storage:{tag}", nodes=c, **d)
            got = sorted(st[j * S:j * S + S].tobytes() for j in range(c)); want = sorted(eb[v].tobytes() for v in exp); W.check(got == want, f"published nodes are not the maximal public subtrees:{tag}", **d)
            W.check(t.tobytes() == before and (st[I.info["maxbytes"]:] == 0xC7).all(), f"publication writes elsewhere:{tag}", **d)
            r = buf(nd * S + 64, 0xC7); r[:nd * S] = int(W.rng.choice([0, 0xAA])) ; W.at(op="rebuild", kind=nm, impl=impl, set=s)
            store = buf(I.info["maxbytes"], 0xD1); store[:c * S] = st[:c * S]; used = I.lib.vi_rebuild(ptr(r), ptr(h), ptr(store), ptr(sa)); lv = r[(M.L - 1) * S:(M.L - 1 + M.T) * S].reshape(-1, S); pub = h == 0
            W.check(used == c, f"rebuilding consumes another number of seeds:{tag}", used=used, published=c, **d)
            W.check((lv[pub] == eb[M.L - 1:M.L - 1 + M.T][pub]).all(), f"rebuilt seed differs from the signer's:{tag}", rounds=np.flatnonzero((lv != eb[M.L - 1:M.L - 1 + M.T]).any(1) & pub)[:8], **d)
            W.check((r[nd * S:] == 0xC7).all(), f"rebuilding writes beyond the tree:{tag}", **d)
            W.case(tag, root, h.tobytes()); W.count(f"hidden sets: {nm}"); W.high(f"published seeds", c)
    W.sample(set=s, impl=impl, hidden_sets=n, worst=cover.worst(M.T, M.W)[0], reserved=I.info["maxseeds"])
def sigs(W, impl, s, n):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; pin = forcing(W, I, M); it = sets(M, W.rng)
    for i in range(n):
        if i % 10 == 0: I.seed(W.rbytes(48)); pk, sk = I.keygen()
        st = I.state(); root = I.randombytes(M.S); I.set_state(st); h, nm = next(it)
        x = cover.challenge(M.T, M.kp, np.flatnonzero(h), W.rng) if pin else None; I.force(x) if pin else None
        W.at(op="sign", set=s, impl=impl, kind=nm); m = W.rbytes(int(W.rng.integers(60))); sm = I.sign(m, sk); f = M.fields(sm)
        if x is None: x = M.challenge(sm[f["digest"][0]:f["digest"][1]])
        eb = M.tree_of(root, sm[f["salt"][0]:f["salt"][1]]).reshape(-1, M.S); exp = sorted(eb[v].tobytes() for v in maximal_public(M.T, M.L, x)); a, b = f["seeds"]; got = sorted(sm[j:j + M.S] for j in range(a, b, M.S))
        W.check(got == exp, f"seeds in a signature are not the maximal public subtrees:{tag}", kind=nm, hidden_rounds=np.flatnonzero(x), got=len(got), expected=len(exp))
        W.at(op="open", set=s, impl=impl, kind=nm); rc, _ = I.open(sm, pk); I.force(None) if pin else None
        W.check(rc == 0, f"verifier cannot rebuild what the signer published:{tag}", rc=rc, kind=nm, hidden_rounds=np.flatnonzero(x)); W.case("sig", tag, sm); W.count("signatures checked"); W.high("published seeds", len(got))
