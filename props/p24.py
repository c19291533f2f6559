"""Constant time: valgrind watches every branch and address while the compared digests and the normalised columns are marked secret; the equality result is checked exactly."""
from api import *
import ct, tempfile, struct, time, ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one comparison, one column normalisation or one opening executed under valgrind with the compared bytes or the column marked undefined, in builds by two compilers, every dependent branch or address counted; "
        "or one comparison whose result is checked; non-trivial and distinct = distinct (build, lengths, pattern, inputs)")
ASSUMPTIONS = ["instructions are assumed to take the same time whatever their operands; builds for valgrind use AVX2 and not AVX-512"]
SMALL = [vbuild.scaled(b, 6, 2) for b in FULL]
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1; out = []
    for i, s in pairs(FULL):
        out.append({"label": f"branches {i} {s}", "fn": "branches", "args": {"impl": i, "s": s, "runs": 2 * x}, "est": 8, "timeout": 600})
        out.append({"label": f"equality {i} {s}", "fn": "equality", "args": {"impl": i, "s": s, "seconds": 2 * x}, "est": 3})
        out.append({"label": f"call counts {i} {s}", "fn": "callcounts", "args": {"impl": i, "s": s, "runs": 1 * x}, "est": 2})
    for i, s in pairs(SMALL): out.append({"label": f"opening {i} {s}", "fn": "opening", "args": {"impl": i, "s": s, "n": 6 * x if s[0] == "1" else 3 * x}, "est": {"1": 10, "3": 20, "5": 40}[s[0]], "timeout": 800})
    return out
def builds(tier, t):
    return [vbuild.build_model] + [lambda i=i, s=s, k=k: ct.exe(i, s, k) for i, s in pairs(FULL) for k in ("shipped", "gcc1", "clang1", "calls")] + [lambda i=i, s=s: ct.exe(i, s, "gcc1") for i, s in pairs(SMALL)] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs(FULL + SMALL)]
def lines(r, first): return [dict(zip(w[1::2], w[2::2])) for w in (l.split() for l in r.stdout.splitlines()) if w and w[0] == first]
def branches(W, impl, s, runs):
    tag = f"{impl}:{s}"; bad = {"memcmp": {}, "column": {}}; logs = {}
    with tempfile.TemporaryDirectory(prefix="vf-") as d:
        for kind in ("shipped", "gcc1", "clang1"):
            e, gone = ct.exe(impl, s, kind)
            for g in gone: W.note(f"{g.lower()} does not fit this tree: {tag} judged through whole openings only")
            for mode in ("memcmp", "column"):
                if "NO" + mode.upper() in ["NO" + g for g in gone]: continue
                for k in range(runs):
                    sd = int(W.rng.integers(1, 1 << 40)); W.at(mode=mode, build=kind, set=s, impl=impl, seed=sd); r, log = ct.run(e, [mode, str(sd)], d)
                    if r.returncode == 2: W.note(f"{mode} does not fit this tree"); break
                    got = [l.split() for l in r.stdout.splitlines()]; assert r.returncode == 0 and got, (r.returncode, r.stderr[-500:], log[-1500:])
                    for l in got:
                        x = dict(zip(l[1::2], l[2::2])); n = int(x["errors"]); W.case(mode, kind, tag, tuple(l), sd); W.count(f"{mode} runs watched ({kind})")
                        if mode == "memcmp": W.check(x["result"] == x["want"], f"comparison result is wrong:{tag}", **x)
                        if n: bad[mode].setdefault(kind, 0); bad[mode][kind] += n; logs.setdefault(mode, log[:1500])
    for mode, b in bad.items():
        W.count(f"{mode}: dependent branches or addresses", sum(b.values()))
        # the build as shipped decides; a dependence both unoptimising builds show is in the source
        W.check(not ("shipped" in b or ("gcc1" in b and "clang1" in b)), f"{'comparison' if mode == 'memcmp' else 'column normalisation'} branches on or indexes by what it processes:{tag}", counts=b, report=logs.get(mode))
    W.sample(set=s, impl=impl, dependent=bad)
def callcounts(W, impl, s, runs):
    """as many columns normalised whatever their contents"""
    e, gone = ct.exe(impl, s, "calls"); tag = f"{impl}:{s}"
    if "COLUMN" in gone: W.note("normalisation calls cannot be counted in this tree"); return
    for k in range(runs):
        sd = int(W.rng.integers(1, 1 << 40)); W.at(mode="calls", set=s, impl=impl, seed=sd); r, _ = ct.run(e, ["calls", str(sd)], "/tmp", vg=False); got = [l.split() for l in r.stdout.splitlines()]; assert r.returncode == 0 and got, (r.returncode, r.stderr[-500:])
        per = {}
        for l in got: per.setdefault(int(l[4]), []).append(int(l[2])); W.case("calls", tag, l[2], sd, len(per)); W.count("normalisation counts observed")
        W.check(len(per) == 1, f"which columns are normalised depends on their contents:{tag}", normalisations_by_pattern=per)
def opening(W, impl, s, n):
    """the transmitted digest is secret; with the challenge pinned only the comparison may use it"""
    M = Model(s); tag = f"{impl}:{s}"; e, gone = ct.exe(impl, s, "gcc1"); rng = W.rng
    if "FORCE" in gone: W.note("challenges cannot be pinned in this tree: openings not watched"); return
    sd = W.rbytes(48); c = M.rng(sd); pk, sk = M.keygen(c); x = honest.forced_x(M, rng, "random"); recs = []; m = W.rbytes(20); sm = M.sign(c, m, sk, force=x); a, b = M.fields(sm)["digest"]
    for k in range(n):
        v = bytearray(sm); at = [None, a, b - 1, a + M.D // 2][k % 4]
        if at is not None: v[at] ^= 1 << int(rng.integers(8))
        recs.append((bytes(v), a, 0 if at is None else -1))
    with tempfile.TemporaryDirectory(prefix="vf-") as d:
        f = d + "/f"; open(f, "wb").write(struct.pack("<2I", n, 1) + x.tobytes() + pk + b"".join(struct.pack("<2Ii", len(v), a, w) + v for v, a, w in recs))
        W.at(mode="open", set=s, impl=impl, seed=sd.hex()); r, log = ct.run(e, ["open", f], d, timeout=780); got = lines(r, "x") or [l.split() for l in r.stdout.splitlines()]
        assert r.returncode == 0 and len(got) == n, (r.returncode, r.stderr[-500:], log[-1500:])
    for l in got:
        # open I errors E result R want W
        i, err, res, want = int(l[1]), int(l[3]), int(l[5]), int(l[7]); W.high("branches on the outcome of the comparison", err); W.case("open", tag, recs[i][0]); W.count("openings watched")
        if res != want and err == 0 and want == 0: W.note("the pinned challenge was not used in this tree"); return
        W.check(res == want, f"decision is not equality of the digests:{tag}", got=res, expected=want)
        W.check(err <= 3, f"opening branches on the digest bytes, not only on their equality:{tag}", branches=err, equal=want == 0, report=log[:2000])
    W.sample(set=s, impl=impl, branches=[l[3] for l in got])
def equality(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; rng = W.rng; L = I.lib; t0 = time.time()
    if hasattr(L, "vi_has_memcmp") and L.vi_has_memcmp():
        def cmp(a, b, **d):
            x, y = arr(a), arr(b); W.at(op="compare", length=len(a), **d); r = L.vi_memcmp(ptr(x), ptr(y), C.c_uint(len(a))); W.check((r == 0) == (a == b), f"comparison result is wrong:{tag}", length=len(a), result=r, a=a, b=b, **d); W.case("cmp", tag, a, b); W.count("comparisons")
        for n in list(range(0, 140)) + [192, 255, 256, 257, 512, 1024]:
            a = W.rbytes(n); cmp(a, a)
            for j in (range(n) if n < 70 else rng.choice(n, 20)):
                v = bytearray(a); v[j] ^= 1 << int(rng.integers(8)); cmp(a, bytes(v), differs_at=int(j))
        for n in (1, 8, M.D):
            a = W.rbytes(n)
            for j in range(8 * n): v = bytearray(a); v[j // 8] ^= 1 << (j % 8); cmp(a, bytes(v)); cmp(bytes(v), a)
        while time.time() - t0 < seconds:
            n = int(rng.choice([2, 4, 8, M.D, M.D, M.D, 256, 512, 65536 if rng.integers(50) == 0 else 16])); a = np.frombuffer(W.rbytes(n), np.uint8).copy(); b = a.copy(); k = int(rng.integers(7))
            # differences that cancel in a sum, an exclusive or, a product or a counter
            i, j = rng.integers(0, n, 2); d = np.uint8(rng.integers(1, 256))
            if k == 0: b[i] ^= d; b[j] ^= d
            elif k == 1: b[i] += d; b[j] -= d
            elif k == 2: b = np.roll(a, int(rng.integers(1, n)))
            elif k == 3: b ^= d
            elif k == 4: b[:n // 2] ^= 0x80
            elif k == 5: b = b[::-1].copy()
            else: m = rng.random(n) < .5; b[m] ^= np.uint8(1)
            cmp(a.tobytes(), b.tobytes(), kind=k)
    else: W.note("the comparison is not reachable by itself in this tree: judged through openings only")
    I, M = Impl(impl, vbuild.scaled(s, 6, 2)), Model(vbuild.scaled(s, 6, 2)); tag = f"{impl}:{I.s}"
    if not forcing(W, I, M): return
    c = M.rng(W.rbytes(48)); pk, sk = M.keygen(c); x = honest.forced_x(M, rng, "random"); sm = M.sign(c, b"equality", sk, force=x); a, b = M.fields(sm)["digest"]; D = np.frombuffer(sm[a:b], np.uint8); t0 = time.time(); n = 0
    todo = [("same", D)] + [("bit", D ^ (np.arange(M.D) == j // 8).astype(np.uint8) * np.uint8(1 << j % 8)) for j in rng.permutation(8 * M.D)]
    for q in range(12): i, j = rng.choice(M.D, 2, replace=False); v = D.copy(); v[[i, j]] ^= np.uint8(1 + q * 20); todo.insert(1 + q, ("two equal changes", v))
    todo[1:1] = [("complement", D ^ np.uint8(255)), ("rotated", np.roll(D, 1)), ("reversed", D[::-1]), ("first half", np.where(np.arange(M.D) < M.D // 2, D ^ np.uint8(1), D)), ("all one bit", D ^ np.uint8(0x80)), ("zero", D * 0)]
    for kind, v in todo:
        if time.time() - t0 > 2 * seconds and n > 20: break
        y = sm[:a] + v.astype(np.uint8).tobytes() + sm[b:]; I.force(x); W.at(op="open", kind=kind, set=I.s, impl=impl); rc, out = I.open(y, pk); I.force(None); n += 1
        W.check(rc == (0 if (v == D).all() else -1), f"decision is not equality of the digests:{tag}", kind=kind, got=rc); W.case("open", tag, y); W.count("openings with a changed digest")
