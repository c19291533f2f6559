"""Tampering: every alteration of an honestly signed message that changes what it says must be rejected with -1."""
from api import *
from hostile import flip
import time
RULE = ("one case = one altered signed message (or public key) opened by the real code, next to the unaltered one as positive control; alterations known to be equivalent encodings "
        "(common scaling or joint permutation of an action, padding bits) are not generated; non-trivial and distinct = distinct altered bytes")
def tasks(tier, seed):
    th = tier == "thorough"; out = []
    for i, s in pairs():
        u = cost(i, s); full = "~" not in s
        sec = (5 if full else 10 if u < .3 else 16) * (15 if th else 1); n = reps(u, sec, 1, 100000)
        k = 2 if n > 60 and not full else 1
        for j in range(k): out.append({"label": f"alterations {i} {s} #{j}", "fn": "alter", "args": {"impl": i, "s": s, "n": n // k, "part": j}, "est": u * n / k + 1})
    for i, b in pairs(FULL): out.append({"label": f"every byte {i} {b}", "fn": "every", "args": {"impl": i, "s": vbuild.scaled(b, 6, 2), "seconds": 6 * (20 if th else 1)}, "est": 7})
    for i in vbuild.IMPLS: out.append({"label": f"message of 4 GiB {i}", "fn": "long", "args": {"impl": i, "s": vbuild.scaled("1_SHORT_SIG" if i == "ref" else "3_SHORT_SIG", 6, 2), "places": 5 if th else 1}, "est": 60, "timeout": 900})
    return out
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs() + [(i, vbuild.scaled(b, 6, 2)) for i, b in pairs(FULL)]]

def alterations(W, M, keys):
    """endless stream of (kind, sm, pk, pinned challenge or None), cycling through all kinds"""
    rng = W.rng; R = lambda a, b: int(rng.integers(a, b)); its = [(k, e) for k in keys for e in k["msgs"]]; fcs = [(k, e) for k in keys for e in k["forced"]]; n = 0
    def parts(sm): return {k: sm[a:b] for k, (a, b) in M.fields(sm).items()}
    def join(p): return p["msg"] + p["salt"] + p["actions"] + p["digest"] + p["seeds"] + p["count"]
    def act(p, i, P, Cf): a = p["actions"]; z = M.mono_bytes; return join(dict(p, actions=a[:i * z] + M.pack_action(P, Cf) + a[(i + 1) * z:]))
    rr = {}
    def nxt(name, m): rr[name] = rr.get(name, int(rng.integers(1 << 30))) + 1; return rr[name] % m     # every byte in turn
    while True:
        k, e = its[n % len(its)]; n += 1; sm, pk = e["sm"], k["pk"]; p = parts(sm); f = M.fields(sm); x = np.frombuffer(e["x"], np.uint8)
        def bit(field):
            a, b = f[field]; return flip(sm, 8 * (a + nxt(field, b - a)) + R(0, 8))
        if fcs:
            fk, fe = fcs[n % len(fcs)]; ff = M.fields(fe["sm"])
            a, b = ff["digest"]; yield "digest bit, challenge pinned", flip(fe["sm"], 8 * (a + nxt("fd", b - a)) + R(0, 8)), fk["pk"], fe["x"]
            yield "last digest byte, challenge pinned", flip(fe["sm"], 8 * (b - 1) + R(0, 8)), fk["pk"], fe["x"]
            i, j = sorted(rng.choice(b - a, 2, replace=False)); t = R(0, 8); yield "two digest bytes by the same bit, challenge pinned", flip(flip(fe["sm"], 8 * (a + i) + t), 8 * (a + j) + t), fk["pk"], fe["x"]
            a, b = ff["seeds"]; yield "seed bit, challenge pinned", flip(fe["sm"], 8 * (a + nxt("fs", (b - a) // M.S) * M.S + R(0, M.S)) + R(0, 8)), fk["pk"], fe["x"]
            yield "last seed, challenge pinned", flip(fe["sm"], 8 * b - 1 - R(0, 8 * M.S)), fk["pk"], fe["x"]
            a, b = ff["salt"]; yield "salt bit, challenge pinned", flip(fe["sm"], 8 * (a + nxt("fsalt", b - a)) + R(0, 8)), fk["pk"], fe["x"]
            a, b = ff["msg"]
            if b: yield "message bit, challenge pinned", flip(fe["sm"], 8 * (a + nxt("fm", b - a)) + R(0, 8)), fk["pk"], fe["x"]
            yield "message extended, challenge pinned", fe["sm"][:b] + bytes([R(0, 256)]) + fe["sm"][b:], fk["pk"], fe["x"]
        if p["msg"]: yield "message bit", bit("msg"), pk, None; yield "message shortened at the end", join(dict(p, msg=p["msg"][:-1])), pk, None; yield "message shortened at the start", sm[1:], pk, None
        yield "message extended at the end", join(dict(p, msg=p["msg"] + bytes([0 if n % 2 else R(0, 256)]))), pk, None
        yield "message extended at the start", bytes([0 if n % 2 else R(0, 256)]) + sm, pk, None
        yield "message replaced", join(dict(p, msg=rng.bytes(R(0, 80)) + b"x")), pk, None
        for field in ("salt", "digest", "seeds"): yield f"{field} bit", bit(field), pk, None
        a, b = f["digest"]; yield "digest reversed", sm[:a] + sm[a:b][::-1] + sm[b:], pk, None
        if len(p["seeds"]) > M.S: S = M.S; sd = p["seeds"]; yield "two seeds exchanged", join(dict(p, seeds=sd[-S:] + sd[S:-S] + sd[:S])), pk, None
        yield "last seed dropped", join(dict(p, seeds=p["seeds"][:-M.S], count=bytes([sm[-1] - 1]))), pk, None
        yield "seed appended", join(dict(p, seeds=p["seeds"] + rng.bytes(M.S), count=bytes([(sm[-1] + 1) & 255]))), pk, None
        c2 = (sm[-1] + R(1, 256)) & 255; yield "count byte", sm[:-1] + bytes([c2]), pk, None
        i = nxt("action", M.W); P, Cf = M.unpack_action(p["actions"][i * M.mono_bytes:(i + 1) * M.mono_bytes]); at = nxt("entry", M.K)
        c = Cf.copy(); c[at] = (int(c[at]) - 1 + R(1, 126)) % 126 + 1; yield "one coefficient", act(p, i, P, c), pk, None
        c = Cf.copy(); c[at] = 127 - int(c[at]); yield "one coefficient negated", act(p, i, P, c), pk, None
        free = np.setdiff1d(np.arange(M.N), P); q = P.copy(); q[at] = int(rng.choice(free)); yield "one position", act(p, i, q, Cf), pk, None
        j = (at + R(1, M.K)) % M.K
        if Cf[at] != Cf[j]: q = P.copy(); q[[at, j]] = q[[j, at]]; yield "two positions exchanged", act(p, i, q, Cf), pk, None
        q = P.copy(); q[at] = q[j]; yield "position repeated", act(p, i, q, Cf), pk, None
        c = Cf.copy(); c[at] = [0, 127][n % 2]; yield "coefficient outside the field's units", act(p, i, P, c), pk, None
        j = (i + R(1, M.W)) % M.W; z = M.mono_bytes; A = [p["actions"][t * z:(t + 1) * z] for t in range(M.W)]
        B = list(A); B[i], B[j] = B[j], B[i]; yield "two actions exchanged", join(dict(p, actions=b"".join(B))), pk, None
        B = list(A); B[i] = A[j]; yield "an action replaced by another", join(dict(p, actions=b"".join(B))), pk, None
        B = A[1:] + A[:1]; yield "actions rotated", join(dict(p, actions=b"".join(B))), pk, None
        k2, e2 = its[R(0, len(its))]
        if e2["sm"] != sm:
            p2 = parts(e2["sm"])
            for field in ("salt", "actions", "digest"): yield f"{field} of another signature", join(dict(p, **{field: p2[field]})), pk, None
            yield "seeds of another signature", join(dict(p, seeds=p2["seeds"], count=p2["count"])), pk, None
            if p2["msg"] != p["msg"]: yield "signature of another message", join(dict(p2, msg=p["msg"])), k2["pk"], None
            if p2["salt"] != p["salt"]: yield "digest and actions of another signature", join(dict(p, digest=p2["digest"], actions=p2["actions"], seeds=p2["seeds"], count=p2["count"])), pk, None
            if k2["pk"] != pk: yield "another public key", sm, k2["pk"], None
        yield "public key: seed of the common code", sm, flip(pk, R(0, 8 * M.S)), None
        used = sorted({int(v) for v in x if v}); j = used[R(0, len(used))] - 1; F = (M.N + 7) // 8; o = M.S + j * M.rref_bytes; ent = R(0, M.K * (M.N - M.K))
        P0 = sorted(c for c in range(M.N) if (pk[o + (c >> 3)] >> (c & 7)) & 1); v = int.from_bytes(pk[o + F:o + M.rref_bytes], "little"); old = (v >> (7 * ent)) & 127
        v2 = v ^ ((old ^ ((old + R(1, 127)) % 127)) << (7 * ent))
        yield "public key: one entry", sm, pk[:o + F] + v2.to_bytes(M.rref_bytes - F, "little") + pk[o + M.rref_bytes:], None
        if M.kp > 2: a, b = M.S, M.S + M.rref_bytes; yield "public key: matrices exchanged", sm, pk[:a] + pk[b:b + M.rref_bytes] + pk[a:b] + pk[b + M.rref_bytes:], None
        for cut in (1, M.S, R(1, len(sm))): yield "truncated at the end", sm[:-cut], pk, None

def alter(W, impl, s, n, part):
    I, M = Impl(impl, s), Model(s); keys = honest.get(s); u = cost(impl, s); ctl = 0
    if u < 3:
        for k in keys[:1]:
            for e in k["msgs"][:1 if u > 1 else 2]: rc, m = I.open(e["sm"], k["pk"]); ctl += rc == 0; W.count("positive controls", rc == 0)
            # and a key and signature of this build's own making
            if u > 1: continue
            I.seed(W.rbytes(48)); pk, sk = I.keygen(); own = {"pk": pk, "sk": sk, "msgs": [], "forced": []}
            for t in range(2):
                m = W.rbytes([40, 3][t]); sm = I.sign(m, sk); rc, _ = I.open(sm, pk); W.count("positive controls", rc == 0); ctl += rc == 0
                if rc == 0: a, b = M.fields(sm)["digest"]; own["msgs"].append({"m": m, "sm": sm, "x": M.challenge(sm[a:b]).tobytes()})
            if own["msgs"]: keys = list(keys) + [own]
        if not ctl: W.note(f"{impl} {s}: no unaltered signature was accepted, so rejections prove little there")
    pin = forcing(W, I, M) if u < 10 or part == 0 and any(k["forced"] for k in keys) and u < 3 else I.can_force()
    done = 0; st = alterations(W, M, keys)
    if n < 40:             # few affordable: choose among one full cycle, digest ends first
        cyc = [next(st) for _ in range(55)]; cyc = [cyc[i] for i in W.rng.permutation(len(cyc))]; cyc.sort(key=lambda c: c[0] != "last digest byte, challenge pinned"); st = iter(cyc)
    for kind, sm, pk, x in st:
        if done >= n: break
        if x is not None and not pin: continue
        if x is not None: I.force(np.frombuffer(x, np.uint8))
        W.at(op="open", kind=kind, set=s, impl=impl); rc, m = I.open(sm, pk)
        if x is not None: I.force(None)
        done += 1; W.case(impl, s, sm, pk, x or b""); W.count(f"altered: {kind}")
        if done == 1: W.sample(kind=kind, set=s, impl=impl, rc=rc)
        W.check(rc in (0, -1), f"return code:{impl}:{s}", rc=rc, kind=kind, sm=sm, pk=pk)
        if rc == 0 and M.open(sm, pk, None if x is None else np.frombuffer(x, np.uint8))[0] != 0:
            W.check(False, f"altered message accepted:{impl}:{s}", kind=kind, sm=sm, pk=pk, pinned=x)

def every(W, impl, s, seconds):
    """one bit of each byte of a signed message: first and last bytes of every field, seed, action and of the public key's seed before all others"""
    I, M = Impl(impl, s), Model(s); rng = W.rng; tag = f"{impl}:{s}"; t0 = time.time(); sweeps = 0; z = M.mono_bytes
    while sweeps == 0 or time.time() - t0 < seconds:
        for t in range(12):                                    # a signature publishing an inner node of the tree
            if t % 6 == 0: I.seed(W.rbytes(48)); W.at(op="keygen", set=s, impl=impl); pk, sk = I.keygen()
            m = W.rbytes([0, 1, 9, 33][int(rng.integers(4))]); W.at(op="sign", set=s, impl=impl); sm = I.sign(m, sk); f = M.fields(sm); a, b = f["digest"]; cov = M.cover((M.challenge(sm[a:b]) != 0).astype(np.uint8)); inner = [j for j, v in enumerate(cov) if v < M.L - 1]
            if inner: break
        W.at(op="open", set=s, impl=impl); rc, _ = I.open(sm, pk); W.count("positive controls", rc == 0); sweeps += 1
        if rc: W.note(f"{tag}: an unaltered signature was refused, so rejections prove little there")
        first = []; cells = [f["msg"], f["salt"], f["digest"]] + [(x, x + M.S) for x in range(*f["seeds"], M.S)] + [(x, x + z) for x in range(*f["actions"], z)]
        for x, y in cells: first += [("", x), ("", y - 1)] if y > x else []
        first += [("pk", 0), ("pk", M.S - 1)]; rest = [("", j) for j in range(len(sm) - 1)] + [("pk", j) for j in range(1, M.S - 1)]
        todo = [first[i] for i in rng.permutation(len(first))] + [rest[i] for i in rng.permutation(len(rest))]
        for where, j in todo:
            if time.time() - t0 > seconds and not (sweeps == 1 and (where, j) in first): break
            bit = int(rng.integers(8)); k, g = (pk, sm) if where else (sm, pk); alt = flip(k, 8 * j + bit); a, b = f["actions"]
            if not where and a <= j < b:                        # surplus bits of a packed action say nothing
                i = (j - a) // z; same = [np.array_equal(u, v) for u, v in zip(M.unpack_action(sm[a + i * z:a + i * z + z]), M.unpack_action(alt[a + i * z:a + i * z + z]))]
                if all(same): continue
            W.at(op="open", kind="one bit of each byte", at=j, set=s, impl=impl); rc, _ = I.open(*((sm, alt) if where else (alt, pk))); W.case("every", tag, alt, g); W.count("bytes changed one at a time")
            name = "public key seed" if where else next(n for n, (x, y) in f.items() if x <= j < y); W.check(rc in (0, -1), f"return code:{tag}", rc=rc, field=name, at=j, sm=alt if not where else sm)
            if rc == 0 and M.open(*((sm, alt) if where else (alt, pk)))[0] != 0: W.check(False, f"altered message accepted:{tag}", kind=f"one bit of the {name}", at=j, bit=bit, sm=sm, pk=pk)
        W.count("signatures with an inner published seed", bool(inner))
    t0 = time.time(); k = 0
    for n in round_lengths(rng):                               # messages an implementation might hash in pieces
        if time.time() - t0 > seconds / 2 and k >= 3: break
        m = W.rbytes(n); W.at(op="sign", set=s, impl=impl, mlen=n); sm = I.sign(m, sk); k += 1
        for j in [0, n - 1, int(rng.integers(n)), int(rng.choice([512, 1024, 4096, 65536])) - int(rng.integers(2))]:
            if j >= n: continue
            alt = flip(sm, 8 * j + int(rng.integers(8))); W.at(op="open", kind="message of a round length", at=j, mlen=n, set=s, impl=impl); rc, _ = I.open(alt, pk); W.case("round", tag, alt); W.count("altered: message of a round length")
            W.check(rc in (0, -1), f"return code:{tag}", rc=rc, mlen=n)
            if rc == 0 and M.open(alt, pk)[0] != 0: W.check(False, f"altered message accepted:{tag}", kind="message of a round length", mlen=n, at=j, pk=pk)
        if k % 4 == 0: cut = int(rng.choice([512, 4096, 65536])); t = sm[:n - cut] + sm[n:] if n > cut else sm[1:]; W.at(op="open", kind="message shortened by a round length", set=s, impl=impl); rc, _ = I.open(t, pk); W.case("round", tag, t); W.check(rc == -1 or M.open(t, pk)[0] == 0, f"altered message accepted:{tag}", kind="message shortened by a round length", mlen=n, cut=cut, pk=pk)
    W.sample(set=s, impl=impl, sweeps=sweeps, seeds=sm[-1], inner=len(inner))

def long(W, impl, s, places):
    """one bit changed far into a message of more than 2^32 bytes"""
    import ctypes as C
    from huge import Huge; from vimpl import arr, ptr
    n = (1 << 32) + int(W.rng.integers(1000, 5000)); I, M = Impl(impl, s), Model(s); I.seed(W.rbytes(48)); pk, sk = I.keygen(); pat = W.rbytes(1 << 21)
    m, sm = Huge(n, 0, pat), Huge(n, M.sig_max, pat); a, b = arr(sk), arr(pk); l, ml = C.c_ulonglong(0), C.c_ulonglong(0)
    W.at(op="sign", set=s, impl=impl, mlen=n); rc = I.lib.vs_sign(sm.p, C.byref(l), m.p, C.c_ulonglong(n), ptr(a)); m.close(); out = Huge(l.value, 0)
    if rc or not n < l.value <= n + M.sig_max: W.note(f"{impl} {s}: no signature of a 4 GiB message to alter"); return
    def opened(what): W.at(op=what, set=s, impl=impl, mlen=n); return I.lib.vs_open(out.p, C.byref(ml), sm.p, l, ptr(b))
    if W.thorough: W.count("positive controls", opened("open") == 0)
    spots = [n - 1, 1 << 31, (1 << 32) - 1, 1 << 32, n - 1 - int(W.rng.integers(900))]
    for p in [spots[i] for i in ([int(W.rng.choice([0, 3, 4]))] if places == 1 else W.rng.permutation(5)[:places])]:
        bit = int(W.rng.integers(8)); sm.flip(p, bit); rc = opened("open, one bit changed"); sm.flip(p, bit)
        W.check(rc == -1, f"altered message of more than 4 GiB accepted:{impl}:{s}", rc=rc, byte=p, bit=bit, mlen=n); W.case("long", impl, s, p, bit); W.count("altered: bit of a 4 GiB message")
