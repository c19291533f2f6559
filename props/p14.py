"""Seed expansion: every monomial matrix the real code expands is compared with the specified sampling and shuffle, checked for validity, separated by round and salt, and its values counted."""
import api
from api import *
from api import operations; import ctypes as C
import comp, gens, time, streams
from vimpl import arr, buf, ptr
RULE = ("one case = one seed (with salt and round, alone, or a generator state) expanded to a monomial matrix by the real code; checked for being a permutation with nonzero field coefficients, "
        "compared with the model's rejection sampling and shuffle, all matrices of one seed told apart; coefficient values and positions counted; non-trivial and distinct = distinct expansion input")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1
    out = [{"label": f"expansion {i} {s}", "fn": "expand", "args": {"impl": i, "s": s, "seconds": 9 * x}, "est": 10} for i, s in pairs(FULL)]
    out += [{"label": f"hostile streams {i} {s}", "fn": "stream", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 5} for i, s in pairs(FULL)]
    return out + api_tasks(1)
def builds(tier, t): return scaled_builds()
def valid(W, M, c, p, tag, **d):
    W.check(len(np.unique(p)) == M.N and int(p.max()) == M.N - 1, f"positions are not a permutation:{tag}", duplicates=M.N - len(np.unique(p)), largest=int(p.max()), **d)
    W.check(int(c.min()) >= 1 and int(c.max()) <= 126, f"coefficient zero or outside the field:{tag}", smallest=int(c.min()), largest=int(c.max()), **d)
def stream(W, impl, s, seconds):
    """chosen streams: runs of rejected coefficients of every length, extreme shuffles (first, last, wrapping draws)"""
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"
    def judge(name, got, want, script, m): valid(W, M, m[0], m[1], tag, kind=name, script=script[:4000])
    streams.drive(W, I, M, ["salted", "private", "generator"], seconds / (15 if W.thorough else 1), judge)
def expand(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"
    if not I.has("monomial"): W.note("matrix expansion not reachable through the shim; decided from whole operations only"); return
    cc, cp = buf(M.N), np.zeros(M.N, np.uint16); val = np.zeros(127); pos = np.zeros((M.N, 16)); place = np.zeros(M.N); n = 0
    done = set()
    def run(kind, *a):
        cc[:] = 0xEE; cp[:] = 0xEEEE; W.at(op=kind, set=s, impl=impl, args=[v.hex() if isinstance(v, bytes) else v for v in a])
        if kind == "salted": x, y = arr(a[0]), arr(a[1]); I.lib.vi_msalt(ptr(cc), ptr(cp), ptr(x), ptr(y), C.c_uint(a[2])); W.check(x.tobytes() == a[0] and y.tobytes() == a[1], f"expansion modifies its seed or salt:{tag}"); ec, ep = M.monomial_salted(*a)
        elif kind == "private": x = arr(a[0]); I.lib.vi_mprikey(ptr(cc), ptr(cp), ptr(x)); ec, ep = M.monomial_prikey(a[0])
        else: I.lib.vi_mrnd(ptr(cc), ptr(cp)); ec, ep = M.monomial_stream(a[0])
        d = dict(kind=kind, inputs=list(a) if kind != "generator" else None, matrix=n)
        valid(W, M, cc, cp, tag, **d)
        W.check((cc == ec).all(), f"coefficients differ from the specified sampling ({kind}):{tag}", at=np.flatnonzero(cc != ec)[:6], got=cc[cc != ec][:6], expected=ec[cc != ec][:6], **d)
        W.check((cp == ep).all(), f"positions differ from the specified shuffle ({kind}):{tag}", at=np.flatnonzero(cp != ep)[:6], **d)
        key = (kind, *a) if kind != "generator" else None; new = not odd and (key is None or (key not in done and all(len(set(v)) > 2 for v in a if isinstance(v, bytes)))); done.add(key)
        if new: val[:] += np.bincount(cc, minlength=127)[:127]; q = (cp.astype(int) * 16) // M.N; pos[np.arange(M.N), q] += 1; place[:] += np.bincount(cp[::7], minlength=M.N)[:M.N]
        W.case(kind, tag, *[v if isinstance(v, bytes) else repr(v).encode() for v in (a if kind != "generator" else (n,))]); W.count(f"{kind} expansions"); return cc.tobytes() + cp.tobytes()
    t0 = time.time(); block = 0; grp = 0
    while time.time() - t0 < seconds or grp < 3:
        grp += 1; odd = grp % 3 == 0; seed = gens.pattern(W.rng, M.S) if odd else W.rbytes(M.S); salt = gens.pattern(W.rng, M.D, [seed]) if odd else W.rbytes(M.D)
        if grp % 5 == 0: seed = bytes([int(W.rng.choice([0, 255]))]) * M.S
        if grp % 7 == 0: salt = bytes([int(W.rng.choice([0, 255]))]) * M.D
        # same seed under every kind of round: neighbours, and rounds sharing a byte or a bit pattern
        r0 = int(W.rng.integers(M.T)); rounds = {0, 1, M.T - 1, r0, r0 ^ 1, (r0 + 256) % M.T, (r0 + 128) % M.T, (r0 + 512) % M.T, r0 & 0xff, r0 >> 1, 255, 256, int(W.rng.integers(1 << 16)), 0xffff}
        rounds = sorted(r for r in rounds if r < M.T or r >= 1 << 15); seen = {}
        for r in rounds: o = run("salted", seed, salt, r); W.check(o not in seen, f"two rounds expand to the same matrix:{tag}", rounds=(seen.get(o), r), seed=seed, salt=salt); seen[o] = r
        base = run("salted", seed, salt, r0)
        W.check(seen.get(base) == r0, f"the same seed, salt and round expand differently:{tag}", round=r0, seed=seed, salt=salt)
        for k in {0, M.D - 1, int(W.rng.integers(M.D)), int(W.rng.integers(M.D))}:
            b = bytearray(salt); b[k] ^= 1 << int(W.rng.integers(8)); W.check(run("salted", seed, bytes(b), r0) != base, f"salt byte without influence:{tag}", byte=k, seed=seed, salt=salt, round=r0)
        for k in {0, M.S - 1, int(W.rng.integers(M.S))}:
            b = bytearray(seed); b[k] ^= 1 << int(W.rng.integers(8)); W.check(run("salted", bytes(b), salt, r0) != base, f"seed byte without influence:{tag}", byte=k, seed=seed, salt=salt, round=r0)
        W.count("matrices told apart", len(rounds) + 6)
        p = gens.pattern(W.rng, M.D, [seed, salt]) if odd else W.rbytes(M.D); base = run("private", p); k = int(W.rng.choice([0, M.D - 1, M.D // 2, int(W.rng.integers(M.D))])); b = bytearray(p); b[k] ^= 1 << int(W.rng.integers(8)); W.check(run("private", bytes(b)) != base, f"private seed byte without influence:{tag}", byte=k)
        if grp % 6 == 1: run("private", bytes([int(W.rng.choice([0, 255]))]) * M.D)
        sd = W.rbytes(48); I.seed(sd); st = M.rng(sd); a, b = run("generator", st), run("generator", st); W.check(a != b, f"two matrices from the system generator coincide:{tag}", seed=sd)
        n = sum(v for k_, v in W.counters.items() if k_.endswith("expansions"))
        if grp % 10 == 0: W.check(I.randombytes(32) == M.draw(st, 32), f"generator position after sampling a matrix:{tag}", seed=sd)
    api.uniform(W, val[1:], val.sum(), tag, "coefficient values"); api.uniform(W, place, place.sum(), tag, "places", 1 - len(range(0, M.N, 7)) / M.N)
    for q in range(16): api.uniform(W, pos[:, q], pos[:, q].sum(), tag, "sixteenth of the positions reached", 1 - 1 / 16) if M.N % 16 == 0 else None
    api.uniform(W, pos.sum(0), pos.sum(), tag, "positions overall") if M.N % 16 == 0 else None
    W.sample(set=s, impl=impl, matrices=n, coefficient_counts=[int(val[1:].min()), int(val[1:].max())])
