"""Layout and bounds: canaries around every buffer, several prior contents, field-by-field parsing against the challenge the digest expands to."""
from api import *
RULE = ("one case = one operation between guard bytes with chosen prior buffer contents and alignment, its output parsed field by field and its seed count compared with the cover the "
        "challenge requires; non-trivial and distinct = distinct signed message or presented bytes")
def tasks(tier, seed):
    th = tier == "thorough"; out = []
    for i, s in pairs():
        u = cost(i, s); full = "~" not in s
        if full and u > 10: n, f = (1, 0) if not th else (6, 6)
        else: n, f = reps(2.5 * u, (4 if full else 4) * (12 if th else 1), 1, 300), reps(2.5 * u, 3 * (12 if th else 1), 1, 100)
        out.append({"label": f"layout {i} {s}", "fn": "layout", "args": {"impl": i, "s": s, "n": n, "nf": f}, "est": (1.3 if u > 10 else 2.5) * u * (n + f) + 1})
    for i, s in pairs(SCALED + [s for s in FULL if s[0] == "1"]): out.append({"label": f"sealed inputs {i} {s}", "fn": "sealed", "args": {"impl": i, "s": s, "n": reps(4 * cost(i, s), 3 * (12 if th else 1), 2, 60)}, "est": 4})
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs()]

def layout(W, impl, s, n, nf):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; lens = boundary_lengths(M); order = [lens[i] for i in W.rng.permutation(len(lens))]; slow = cost(impl, s) > 3
    for name, v in (("pk", M.pk_bytes), ("sk", M.sk_bytes), ("sig", M.sig_max)):
        W.check(I.info[name] == v, f"advertised size:{name}:{tag}", advertised=I.info[name], fields=v)
    def key(fill):
        sd = W.rbytes(48); ks = []
        for f in (fill, fill ^ 0xff) if not slow else (fill,):
            I.seed(sd); W.at(op="keygen", set=s, impl=impl); ks.append(I.keygen(fill=f))
            W.check(I.canary_ok, f"key generation writes beyond the advertised sizes:{tag}", seed=sd)
        W.check(len(set(ks)) == 1, f"key generation leaves part of a key unwritten:{tag}", seed=sd); W.case("key", tag, sd); W.count("key generations checked")
        return ks[0]
    pk, sk = key(0x00); pin = nf > 0 and forcing(W, I, M)
    for i in range(n + (nf if pin else 0)):
        if i % 8 == 7 and not slow: pk, sk = key(int(W.rng.integers(256)))
        forced = i >= n; kind = ["worst", "random", "first"][i % 3]
        x = honest.forced_x(M, W.rng, kind) if forced else None
        m = W.rbytes(order[i % len(order)]); fill = [0, 0xff, 0x5a][i % 3]; off = 32 + int(W.rng.integers(8)); st = I.state()
        if forced: I.force(x)
        W.at(op="sign", set=s, impl=impl, mlen=len(m), pinned=forced, fill=fill, off=off)
        sm = I.sign(m, sk, fill=fill, off=off)
        d = dict(mlen=len(m), fill=fill, alignment=off % 16, pinned=kind if forced else None, smlen=I.smlen)
        W.check(I.canary_ok, f"signing writes beyond its buffer:{tag}", **d); W.check(I.inputs_ok, f"signing modifies its inputs:{tag}", **d)
        W.check(I.smlen <= len(m) + M.sig_max, f"signed message longer than advertised:{tag}", limit=len(m) + M.sig_max, **d)
        c = sm[-1]; W.check(I.smlen == len(m) + M.fixed + c * M.S, f"reported length is not the sum of the fields:{tag}", count=c, sum=len(m) + M.fixed + c * M.S, **d)
        W.check(sm[:len(m)] == m, f"message part altered:{tag}", **d)
        f = M.fields(sm); xx = x if forced else M.challenge(sm[f["digest"][0]:f["digest"][1]]); nd = M.cover((np.asarray(xx) != 0).astype(np.uint8))
        W.check(int((np.asarray(xx) != 0).sum()) == M.W, f"challenge weight:{tag}", **d)
        W.check(c == len(nd), f"seed count is not what the challenge requires:{tag}", count=c, required=len(nd), **d)
        W.check(c <= M.maxseeds, f"more seeds than the maximum:{tag}", count=c, maximum=M.maxseeds, **d)
        a = sm[f["actions"][0]:f["actions"][1]]
        for r in range(M.W):
            P, Cf = M.unpack_action(a[r * M.mono_bytes:(r + 1) * M.mono_bytes])
            W.check(M.action_valid(P, Cf), f"packed action is not one:{tag}", index=r, positions=P, coefficients=Cf, **d)
            W.check(M.pack_action(P, Cf) == a[r * M.mono_bytes:(r + 1) * M.mono_bytes], f"packed action has padding bits set:{tag}", index=r, **d)
        W.case("sign", tag, sm); W.count("signed messages parsed"); W.high("published seeds", c); W.count("messages publishing the maximum", c == M.maxseeds)
        if i % 4 == 0 and not slow:       # other prior contents, other alignment: same bytes
            I.set_state(st); sm2 = I.sign(m, sk, fill=fill ^ 0xff, off=32); W.check(sm2 == sm, f"signed message depends on prior buffer contents or alignment:{tag}", **d); W.count("re-signed over other contents")
        if cost(impl, s) > 10 and not W.thorough: continue
        moff = 32 + int(W.rng.integers(8)); W.at(op="open", set=s, impl=impl, mlen=len(m), pinned=forced)
        rc, got = I.open(sm, pk, fill=fill, off=off, moff=moff)
        W.check(I.canary_ok, f"opening writes beyond its buffer:{tag}", **d); W.check(I.inputs_ok, f"opening modifies its inputs:{tag}", **d)
        if rc == 0: W.check(got == m and I.mlen == len(m), f"opening reports another message:{tag}", reported=I.mlen, **d); W.check(I.beyond_ok, f"opening writes beyond the message:{tag}", **d)
        if forced: I.force(None)
        if i == 0: W.sample(set=s, impl=impl, mlen=len(m), smlen=I.smlen, count=int(c), fields=str(f))
    cheap = [c for c in hostile.get(s) if case_cost(impl, s, c) < .02]
    for j in W.rng.permutation(len(cheap))[: 250 if not W.thorough else len(cheap)]:
        c = cheap[j]; fill = [0x11, 0xee][j % 2]
        if c["force"] is not None: continue
        W.at(op="open", case=c["kind"], set=s, impl=impl); rc, got = I.open(c["sm"], c["pk"], fill=fill)
        W.check(I.canary_ok, f"opening writes beyond its buffer:{tag}", kind=c["kind"]); W.check(I.inputs_ok, f"opening modifies its inputs:{tag}", kind=c["kind"])
        room = len(c["sm"]) - M.fixed - (c["sm"][-1] * M.S if c["sm"] else 0)
        W.check(beyond(I, c["sm"], c["pk"], fill, max(0, room)), f"opening writes beyond the message it would recover:{tag}", kind=c["kind"], sm=c["sm"], message_room=room)
        W.case("open", tag, c["sm"], c["pk"]); W.count("rejected inputs checked for stray writes")

def sealed(W, impl, s, n):
    """constant inputs in read-only pages that end at an inaccessible one: any write to them, even one undone later, kills the process"""
    import ctypes as C
    from vimpl import buf, ptr
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; lens = boundary_lengths(M); k = honest.get(s)[0]; pk, sk = k["pk"], k["sk"]; I.seed(W.rbytes(48))
    big = max(lens) + M.sig_max; gm, gs, gp, gk = Guarded(big), Guarded(big), Guarded(len(pk)), Guarded(len(sk)); L = C.c_ulonglong(0); o = buf(big)
    cheap = [c for c in hostile.get(s) if case_cost(impl, s, c) < .02 and c["force"] is None and len(c["sm"]) <= big]
    def put(g, b):
        g.lock(False); a = g.end + g.n - len(b); C.memmove(a, bytes(b), len(b)); g.lock(); return C.c_void_p(a), lambda: C.string_at(a, len(b)) == bytes(b)
    def opening(sm, pk_, kind):
        a, ok = put(gs, sm); b, ok2 = put(gp, pk_); W.at(op="open, sealed inputs", case=kind, set=s, impl=impl); rc = I.lib.vs_open(ptr(o), C.byref(L), a, C.c_ulonglong(len(sm)), b); W.check(ok() and ok2(), f"opening modifies its inputs:{tag}", kind=kind); W.case("sealed", tag, sm, pk_); W.count("openings of sealed inputs"); return rc
    for i in range(n):
        m = W.rbytes(lens[int(W.rng.integers(len(lens)))]); a, ok = put(gm, m); b, ok2 = put(gk, sk); W.at(op="sign, sealed inputs", mlen=len(m), set=s, impl=impl); rc = I.lib.vs_sign(ptr(o), C.byref(L), a, C.c_ulonglong(len(m)), b); W.check(ok() and ok2(), f"signing modifies its inputs:{tag}", mlen=len(m)); W.count("signings of sealed inputs"); sm = o[:min(L.value, big)].tobytes(); W.check(rc == 0, f"signing fails:{tag}", mlen=len(m))
        opening(sm, pk, "honest"); f = M.fields(sm)
        for part in ("digest", "seeds", "salt", "actions")[: 1 + 3 * (i % 2)]:
            lo, hi = f[part]
            if hi > lo: opening(hostile.flip(sm, 8 * lo + int(W.rng.integers(8 * (hi - lo)))), pk, f"flipped bit in {part}")
    for j in W.rng.permutation(len(cheap))[:200 if not W.thorough else len(cheap)]: opening(cheap[j]["sm"], cheap[j]["pk"], cheap[j]["kind"])
def beyond(I, sm, pk, fill, room):
    import ctypes as C
    from vimpl import buf, arr, ptr
    a, b, m, n = arr(sm), arr(pk), buf(len(sm) + 8, fill), C.c_ulonglong(0)
    I.lib.vs_open(ptr(m), C.byref(n), ptr(a), C.c_ulonglong(len(sm)), ptr(b)); return bool((m[room:] == fill).all())
