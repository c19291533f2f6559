"""SHA-3 and SHAKE: the real code's one-shot, block, incremental and wrapper calls against an independent FIPS 202 implementation."""
from api import *
from api import operations
import time, hashlib, mmap
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one (function, input, output length, way of splitting input and output, alignment) hashed by the real code and compared with Python's hashlib; all input lengths up to several blocks, "
        "all two-piece splits of input and output, random many-piece splits with empty pieces, interleaved states, and a 4 GiB input; canaries after every output; non-trivial and distinct = distinct (function, input length, output length, split)")
NAMES = ["sha3_256", "sha3_384", "sha3_512", "shake_128", "shake_256"]; RATE = [136, 104, 72, 168, 136]; OUT = [32, 48, 64, 0, 0]
HUGE = (1 << 32) + 13     # that many zero bytes
HUGE_DIGEST = ["d00a23bbfb25348281c60dcd7411967b909851dbd26af9336d27a8979e61a7e5", "c7ce36cadfe27d353a2edf116b0501a2dbd45ccb9c320fa2d98f8b7b2c334411cd2328857bc806cef383777143848355",
    "cbe5e917840fb78ead0036f86e7beb229b3d54f5e44caac024cd050d72626b1255e4410c5daebf6e62b739f4260112cc85267a423e247947e034dd4fe07d4d3f",
    "317eac44fe981f6069ef4e5489ec9cac1fc7549fa47b1e45566fc61713728dc9cf52eb5e6d95d936cf14f0280d674483a03c21f64591af91102029b019d8579a",
    "53ec2d0cd50d82953bc80738f35c0515f2dd09cd7c2d8c15e2a855eb77bf13624d541ed742e8513ad379257345454119aa475c7b238c179304941efa08f6a9ae"]
def H(k, m, n=None): h = getattr(hashlib, NAMES[k])(m); return h.digest(n) if k >= 3 else h.digest()
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1; out = []
    for i in vbuild.IMPLS:
        for k in range(5): out.append({"label": f"exhaustive lengths and splits {NAMES[k]} {i}", "fn": "exhaustive", "args": {"impl": i, "k": k, "blocks": 5 if th else 3}, "est": 8})
        for k in range(5): out.append({"label": f"4 GiB input {NAMES[k]} {i}", "fn": "huge", "args": {"impl": i, "k": k, "both": th}, "est": 14, "timeout": 400})
        for k in (3, 4): out.append({"label": f"4 GiB output {NAMES[k]} {i}", "fn": "hugeout", "args": {"impl": i, "k": k, "both": th}, "est": 20, "timeout": 400})
    for i, s in pairs(FULL): out.append({"label": f"random patterns {i} {s}", "fn": "patterns", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 5})
    return out + api_tasks(.5)
def builds(tier, t): return scaled_builds()
def load(W, impl, s="1_BALANCED"):
    I = Impl(impl, s)
    if not I.has("hash"): W.note("hash functions not reachable through the shim; decided from whole operations only"); return None
    return I
def oneshot(W, I, k, m, on, tag):
    al = int(W.rng.integers(16)); a = buf(len(m) + 32, 0x3C); a[al:al + len(m)] = np.frombuffer(m, np.uint8); o = buf(on + 96, 0xC7); ao = int(W.rng.integers(16)); W.at(op="one-shot", function=NAMES[k], inlen=len(m), outlen=on)
    I.lib.vi_h_oneshot(k, C.c_void_p(o.ctypes.data + ao), C.c_size_t(on), C.c_void_p(a.ctypes.data + al), C.c_size_t(len(m))); got = o[ao:ao + on].tobytes()
    W.check(got == H(k, m, on), f"one-shot {NAMES[k]} differs from FIPS 202:{tag}", input_length=len(m), output_length=on, input=m, got=got, alignment=(al, ao)); W.check((o[:ao] == 0xC7).all() and (o[ao + on:] == 0xC7).all(), f"{NAMES[k]} writes beyond the requested output:{tag}", input_length=len(m), output_length=on); W.check(a[al:al + len(m)].tobytes() == m, f"{NAMES[k]} modifies its input:{tag}")
    W.case("oneshot", I.impl, k, len(m), on); W.count(f"one-shot {NAMES[k]}")
def exhaustive(W, impl, k, blocks):
    I = load(W, impl); tag = impl
    if I is None: return
    r = RATE[k]; L = I.lib; L.vi_h_insplits.restype = L.vi_h_outsplits.restype = C.c_long; top = blocks * r + 3; m = W.rbytes(top + 64)
    for n in range(0, top + 1): oneshot(W, I, k, m[:n], OUT[k] or int(W.rng.integers(0, 3 * r)), tag)
    for n in (range(0, 2 * r + 3) if blocks < 5 else range(top + 1)):
        a = arr(m[:n]); w = H(k, m[:n], 64); wa = arr(w); W.at(op="input splits", function=NAMES[k], inlen=n); b = L.vi_h_insplits(k, ptr(a), C.c_size_t(n), ptr(wa), C.c_size_t(len(w)))
        W.check(b < 0, f"incremental {NAMES[k]} depends on the split of its input:{tag}", input_length=n, first_piece=b, input=m[:n]); W.cases(n + 1, n + 1); W.count(f"input splits {NAMES[k]}", n + 1)
    if k >= 3:
        for on in range(0, top + 1): oneshot(W, I, k, m[:int(W.rng.integers(0, 2 * r))], on, tag)
        for n in (0, 1, r - 1, r, r + 1):
            for on in (range(0, 2 * r + 3, 3 if blocks < 5 else 1)):
                a = arr(m[:n]); w = arr(H(k, m[:n], on)); tmp = buf(on + 80); W.at(op="output splits", function=NAMES[k], inlen=n, outlen=on); b = L.vi_h_outsplits(k, ptr(a), C.c_size_t(n), ptr(w), C.c_size_t(on), ptr(tmp))
                W.check(b < 0, f"incremental {NAMES[k]} depends on the split of its output:{tag}", input_length=n, output_length=on, first_piece=b); W.cases(on + 1, on + 1); W.count(f"output splits {NAMES[k]}", on + 1)
        for n in range(0, 2 * r + 2):
            for nb, f in ((1, 0), (1, 1), (3, 0), (3, 1), (3, 2), (4, 4)):
                a = arr(m[:n]); o = buf(nb * r + 64, 0xC7); W.at(op="blocks", function=NAMES[k], inlen=n, blocks=nb); L.vi_h_blocks(k, ptr(o), C.c_size_t(nb), ptr(a), C.c_size_t(n), C.c_size_t(f))
                W.check(o[:nb * r].tobytes() == H(k, m[:n], nb * r) and (o[nb * r:] == 0xC7).all(), f"block interface of {NAMES[k]} differs:{tag}", input_length=n, blocks=nb, first=f); W.case("blocks", impl, k, n, nb, f)
            if I.has("clone") and n % 3 == 0 or n < 3:
                if not I.has("clone"): continue
                nb = int(W.rng.integers(1, 6)); f = int(W.rng.integers(nb + 1)); a = arr(m[:n]); o, o2 = buf(nb * r + 64, 0xC7), buf(nb * r + 64, 0xC7); W.at(op="copied state", function=NAMES[k], inlen=n, blocks=nb); L.vi_h_clone(k, ptr(o), ptr(o2), C.c_size_t(nb), ptr(a), C.c_size_t(n), C.c_size_t(f)); w = H(k, m[:n], nb * r)
                W.check(o[:nb * r].tobytes() == w, f"a copied {NAMES[k]} state continues differently:{tag}", input_length=n, blocks=nb, copied_after=f); W.check(o2[:nb * r].tobytes() == w, f"a {NAMES[k]} state is disturbed by its copy:{tag}", input_length=n, blocks=nb, copied_after=f); W.case("clone", impl, k, n, nb, f); W.count("copied states")
    W.sample(function=NAMES[k], impl=impl, longest=top)
def pieces(rng, total, r):
    """cut points: few, many, on block boundaries, next to them, with empty pieces"""
    k = int(rng.integers(6)); 
    if k == 0: c = rng.integers(0, total + 1, int(rng.integers(0, 4)))
    elif k == 1: c = np.arange(0, total, r)
    elif k == 2: c = np.clip(np.arange(0, total, r) + rng.integers(-1, 2, len(np.arange(0, total, r))), 0, total)
    elif k == 3: c = rng.integers(0, total + 1, int(rng.integers(1, 40)))
    elif k == 4: st = int(rng.choice([1, 7, 8, r // 2, r - 1, r + 1])); c = np.arange(0, total, max(st, total // 200 or 1))
    else: c = np.repeat(rng.integers(0, total + 1, 3), 2)
    c = np.concatenate([[0], np.sort(c), [total]]); return [int(b - a) for a, b in zip(c[:-1], c[1:])]
def patterns(W, impl, s, seconds):
    I = load(W, impl, s); M = Model(s); tag = f"{impl}:{s}"; rng = W.rng
    if I is None: return
    L = I.lib; cs = max(L.vi_h_ctxsize(), L.vi_x_size(), L.vi_l_size()); t0 = time.time(); n = 0; kx, kl = (3 if M.cat == 1 else 4), {32: 0, 48: 1, 64: 2}[M.D]
    calls = {"plain": lambda k: (lambda c: L.vi_h_init(k, c), lambda c, p, q: L.vi_h_absorb(k, c, p, C.c_size_t(q)), lambda c, o: L.vi_h_final(k, c, o), lambda c, o, q: L.vi_h_squeeze(k, c, o, C.c_size_t(q))),
             "csprng": lambda k: (lambda c: L.vi_x_init(c, 8 * M.S), lambda c, p, q: L.vi_x_update(c, p, C.c_uint(q)), lambda c, o: L.vi_x_final(c), lambda c, o, q: L.vi_x_extract(c, o, C.c_uint(q))),
             "digest": lambda k: (lambda c: L.vi_l_init(c), lambda c, p, q: L.vi_l_absorb(c, p, C.c_size_t(q)), lambda c, o: L.vi_l_final(o, c), None)}
    while n < 30 or time.time() - t0 < seconds:
        # two states advanced in turn, so that anything shared between them shows
        jobs = []
        for _ in range(2):
            face = ["plain", "plain", "csprng", "digest"][int(rng.integers(4))]; k = int(rng.integers(5)) if face == "plain" else kx if face == "csprng" else kl; r = RATE[k]
            ln = int(rng.choice([int(rng.integers(0, 4 * r)), r * int(rng.integers(0, 6)), r * int(rng.integers(1, 6)) - 1, r * int(rng.integers(0, 6)) + 1, int(rng.integers(0, 5000))])); on = OUT[k] or int(rng.choice([int(rng.integers(0, 4 * r)), r * int(rng.integers(0, 5)), r * int(rng.integers(0, 5)) + 1, int(rng.integers(0, 3000))]))
            m = rng.bytes(ln); a = buf(ln + 32); al = int(rng.integers(16)); a[al:al + ln] = np.frombuffer(m, np.uint8); o = buf(on + 96, 0xC7); ao = int(rng.integers(16)); ctx = buf(cs + 64, 0xC7); init, ab, fin, sq = calls[face](k); ctx[:cs] = int(rng.choice([0, 0x55, 255]))
            ip, op = pieces(rng, ln, r), pieces(rng, on, r) if k >= 3 else []; steps = [("i", 0, 0)]; x = 0
            for q in ip: steps.append(("a", x, q)); x += q
            steps.append(("f", 0, 0)); x = 0
            for q in op: steps.append(("s", x, q)); x += q
            jobs.append(dict(face=face, k=k, m=m, on=on, a=a, al=al, o=o, ao=ao, ctx=ctx, fn=(init, ab, fin, sq), steps=steps, ip=ip, op=op))
        W.at(op="interleaved", functions=[(j["face"], NAMES[j["k"]], len(j["m"]), j["on"]) for j in jobs], set=s, impl=impl)
        idx = [0, 0]
        while any(idx[i] < len(jobs[i]["steps"]) for i in (0, 1)):
            i = int(rng.integers(2)); i = i if idx[i] < len(jobs[i]["steps"]) else 1 - i; j = jobs[i]
            if idx[i] and rng.integers(40) == 0 and not (j["ctx"][cs:] != 0xC7).any():      # a state is a value: it may be moved, what it was copied from overwritten
                old = j["ctx"]; new = buf(cs + 64, 0xC7); new[:cs] = old[:cs]; old[:] = 0xEE; j["ctx"] = new; j.setdefault("kept", []).append(old); W.count("states moved between calls")
            t, x, q = j["steps"][idx[i]]; idx[i] += 1; c = ptr(j["ctx"]); po = C.c_void_p(j["o"].ctypes.data + j["ao"] + (x if t == "s" else 0))
            if t == "i": j["fn"][0](c)
            elif t == "a": j["fn"][1](c, C.c_void_p(j["a"].ctypes.data + j["al"] + x), q)
            elif t == "f": j["fn"][2](c, po)
            else:
                j["fn"][3](c, po, q); W.check((j["o"][j["ao"] + x + q:] == 0xC7).all(), f"a squeeze writes beyond the requested piece:{tag}", function=NAMES[j["k"]], at=x, asked=q)
        for j in jobs:
            got = j["o"][j["ao"]:j["ao"] + j["on"]].tobytes(); d = dict(interface=j["face"], function=NAMES[j["k"]], input_pieces=j["ip"][:60], output_pieces=j["op"][:60], input=j["m"])
            W.check(got == H(j["k"], j["m"], j["on"]), f"incremental {NAMES[j['k']]} differs from FIPS 202 ({j['face']}):{tag}", **d); W.check((j["o"][j["ao"] + j["on"]:] == 0xC7).all() and (j["o"][:j["ao"]] == 0xC7).all() and (j["ctx"][cs:] == 0xC7).all(), f"hashing writes beyond output or state:{tag}", **d)
            W.case(j["face"], j["k"], tuple(j["ip"]), tuple(j["op"]), tag); W.count(f"call patterns ({j['face']})"); n += 1
        if n % 8 == 0: k = int(rng.integers(5)); oneshot(W, I, k, rng.bytes(int(rng.integers(0, 3000))), OUT[k] or int(rng.integers(0, 2000)), tag)
        if n % 16 == 0:     # the system generator itself, in requests of any size
            sd = W.rbytes(int(rng.integers(0, 300))); I.seed(sd); q = pieces(rng, int(rng.integers(0, 2000)), RATE[kx]); got = b"".join(I.randombytes(v) for v in q); W.check(got == H(kx, sd, sum(q)), f"system generator differs from its specified stream:{tag}", seed=sd, requests=q[:60]); W.count("generator streams")
    W.sample(set=s, impl=impl, patterns=n)
def huge(W, impl, k, both):
    I = load(W, impl); 
    if I is None: return
    m = mmap.mmap(-1, HUGE, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS); adr = C.addressof(C.c_char.from_buffer(m)); want = bytes.fromhex(HUGE_DIGEST[k])
    for face in (["one-shot", "incremental"] if both else ["one-shot" if vbuild.IMPLS.index(impl) ^ (k & 1) else "incremental"]):
        o = buf(128, 0xC7); W.at(op=face, function=NAMES[k], inlen=HUGE)
        if face == "one-shot": I.lib.vi_h_oneshot(k, ptr(o), C.c_size_t(64), C.c_void_p(adr), C.c_size_t(HUGE))
        else:
            c = buf(I.lib.vi_h_ctxsize()); I.lib.vi_h_init(k, ptr(c)); I.lib.vi_h_absorb(k, ptr(c), C.c_void_p(adr), C.c_size_t(HUGE)); I.lib.vi_h_final(k, ptr(c), ptr(o))
            if k >= 3: I.lib.vi_h_squeeze(k, ptr(c), ptr(o), C.c_size_t(64))
        W.check(o[:len(want)].tobytes() == want, f"{NAMES[k]} of more than 4 GiB differs ({face}):{impl}", got=o[:len(want)].tobytes(), expected=want); W.case("huge", impl, k, face); W.count("4 GiB inputs")

HUGE_TAIL = [None, None, None, "7846408f131818b85b98ad9312fa5d4c9dc8d8384356382c5cb9f4bdd707ef6d", "5dc3dd0f4cc7319521f052c96bd410ee188284c4fd719db33f2ccedbef3e9718"]      # SHA-256 of the last 2 MiB of HUGE bytes squeezed from b"less"
WINDOW = 1 << 21
def hugeout(W, impl, k, both):
    """more than 4 GiB of output, written over the same two megabytes again and again"""
    import os
    I = load(W, impl)
    if I is None: return
    libc = C.CDLL(None, use_errno=True); libc.mmap.restype = C.c_void_p; libc.mmap.argtypes = [C.c_void_p, C.c_size_t, C.c_int, C.c_int, C.c_int, C.c_long]; libc.munmap.argtypes = [C.c_void_p, C.c_size_t]
    n = (HUGE + WINDOW - 1) // WINDOW + 1; base = libc.mmap(None, n * WINDOW, 0, 0x4022, -1, 0); assert base not in (None, 2 ** 64 - 1); fd = os.memfd_create("out"); os.ftruncate(fd, WINDOW)
    for j in range(n): assert libc.mmap(base + j * WINDOW, WINDOW, 3, 0x11, fd, 0) == base + j * WINDOW
    a = arr(b"less")
    for face in (["one-shot", "incremental"] if both else ["one-shot" if vbuild.IMPLS.index(impl) ^ (k & 1) else "incremental"]):
        W.at(op=f"long output, {face}", function=NAMES[k], outlen=HUGE); C.memset(base, 0xC7, WINDOW)
        if face == "one-shot": I.lib.vi_h_oneshot(k, C.c_void_p(base), C.c_size_t(HUGE), ptr(a), C.c_size_t(4))
        else: c = buf(I.lib.vi_h_ctxsize()); I.lib.vi_h_init(k, ptr(c)); I.lib.vi_h_absorb(k, ptr(c), ptr(a), C.c_size_t(4)); I.lib.vi_h_final(k, ptr(c), None); I.lib.vi_h_squeeze(k, ptr(c), C.c_void_p(base), C.c_size_t(HUGE))
        got = hashlib.sha256(C.string_at(base + HUGE - WINDOW, WINDOW)).hexdigest(); W.check(got == HUGE_TAIL[k], f"more than 4 GiB of output of {NAMES[k]} differ ({face}):{impl}", got=got, expected=HUGE_TAIL[k]); W.case("hugeout", impl, k, face); W.count("4 GiB outputs")
    libc.munmap(base, n * WINDOW); os.close(fd)
