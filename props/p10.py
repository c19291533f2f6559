"""Histories: random sequences of operations, each result compared with the same operation executed alone in a fresh instance from the recorded generator state."""
from api import *
import time
from vimpl import buf, arr, ptr
import ctypes as C
RULE = ("one case = one operation at some point of a random history (honest, failing, hostile, under several keys, in reused buffers), its result compared with the same operation in a freshly loaded instance "
        "given the same generator state and inputs, and the generator watched across openings; non-trivial and distinct = distinct (operation, inputs, position in the history)")
def tasks(tier, seed):
    th = tier == "thorough"; out = []; x = 20 if th else 1
    for i, s in [(i, s) for s in [vbuild.scaled(b, 14, 4) for b in FULL] for i in vbuild.IMPLS] + [(i, s) for i, s in pairs(FULL) if cost(i, s) < (3 if th else 1)]:
        for j in range(2 if "~" in s else 1): out.append({"label": f"history {i} {s} #{j}", "fn": "history", "args": {"impl": i, "s": s, "seconds": (6 if "~" in s else 5) * x}, "est": 10})
    for i, s in LONG: out.append({"label": f"long life {i} {s}", "fn": "endure", "args": {"impl": i, "s": s, "n": 70000 if th and i == "avx2" else 3000 if th else 300, "short": 70000}, "est": 300 * (2 * cost(i, s) + .01) + 4, "timeout": 6000 if th else 400})
    for i, s in [(i, vbuild.scaled(b, 6, 2)) for b in FULL for i in vbuild.IMPLS] + ([(i, s) for i, s in pairs(FULL) if cost(i, s) < .5] if th else [("avx2", "1_BALANCED")]): out.append({"label": f"near twins {i} {s}", "fn": "twins", "args": {"impl": i, "s": s, "n": 400 if th or (i == "avx2" and "~" in s) or s.startswith("1_BALANCED~") else 70 if "~" in s else 10}, "est": 10 if i == "ref" else 6, "timeout": 3000 if th else 400})
    return out
LONG = [("ref", vbuild.scaled("1_SHORT_SIG", 6, 2)), ("ref", vbuild.scaled("1_BALANCED", 6, 2))] + [("avx2", vbuild.scaled(b, 6, 2)) for b in FULL]
def endure(W, impl, s, n, short):
    """one instance living through hundreds of operations of each kind and tens of thousands of refused openings; every answer compared with the one given by an instance with no past"""
    I, M = Impl(impl, s), Model(s); F = Fixed(I); tag = f"{impl}:{s}"; rng = W.rng; I.seed(W.rbytes(48)); pk, sk = I.keygen(); pk2, sk2 = I.keygen()
    sms = [I.sign(W.rbytes(int(rng.integers(0, 400))), k) for k in (sk, sk, sk2)]; sm = sms[0]; f = M.fields(sm)
    refused = [(sm[:M.fixed - 1], pk), (b"", pk), (sm[:-1] + bytes([M.maxseeds + 1]), pk), (sm[:-1] + b"\xff", pk), (sm[:M.fixed + 3] , pk)]
    ops = [("keygen",)] * 2 + [("sign", W.rbytes(int(rng.integers(0, 400))), k) for k in (sk, sk, sk2)] + [("open", sms[0], pk), ("open", sms[1], pk), ("open", sms[2], pk2), ("open", sms[2], pk), ("open", hostile.flip(sms[1], 8 * f["digest"][0] + 3), pk), ("open", hostile.flip(sms[0], 5), pk)] + [("open", a, b) for a, b in refused]
    book = []
    for op in ops: B = I.fresh(); st = W.rbytes(48); a = arr(st); B.lib.vs_seed(ptr(a), C.c_uint(48)); before = B.state(); ans = F.run(B.lib, op); book.append((op, before, ans, B.state())); B.close()
    def run(e, pos):
        op, before, ans, after = e; W.at(op=op[0], position=pos, set=s, impl=impl); I.set_state(before); got = F.run(I.lib, op)
        W.check(got == ans, f"answer changes after a long life:{tag}", operation=op[0], position=pos, done=dict(done), rc=(got[0], ans[0])); W.check(I.state() == after or not stable, f"generator moves differently after a long life:{tag}", operation=op[0], position=pos); done[op[0]] = done.get(op[0], 0) + 1
    done = {}; pos = 0; stable = True
    # bytes of the generator's state need not be comparable between instances: only used when they are at first
    for e in book: I.set_state(e[1]); F.run(I.lib, e[0]); stable &= I.state() == e[3]
    step = [e for e in book if e[0][0] != "open"] + [e for e in book if e[0][0] == "open" and len(e[0][1]) > M.fixed + 3]; low = [e for e in book if e not in step]; per = short // (n // 5)
    while min(done.get(k, 0) for k in ("keygen", "sign", "open")) < n:
        for j in rng.permutation(len(step)): run(step[j], pos); pos += 1
        if done.get("refused at once", 0) < short:
            for _ in range(per): run(low[pos % len(low)], pos); pos += 1; done["refused at once"] = done.get("refused at once", 0) + 1
    while done.get("refused at once", 0) < short: run(low[pos % len(low)], pos); pos += 1; done["refused at once"] = done.get("refused at once", 0) + 1
    for e in book: run(e, pos)
    for k, v in done.items(): W.count(f"long lives: {k}", v); 
    W.cases(pos, len(book)); W.high("operations in one life", pos); W.sample(set=s, impl=impl, done=dict(done))
def twins(W, impl, s, n):
    """an operation, then the same operation with one byte of one input changed, then the first again: each answered as an instance with no past answers it"""
    I, M = Impl(impl, s), Model(s); F = Fixed(I); G = Fixed(I); tag = f"{impl}:{s}"; rng = W.rng; k = honest.get(s)[0]; pk, sk = k["pk"], k["sk"]; st = W.rbytes(48); m = W.rbytes(40)
    c = M.rng(st); sm = M.sign(c, m, sk); f = M.fields(sm); I.seed(st); before = I.state()
    def near(b, lo, hi, every):
        at = range(lo, hi) if every else sorted(set(int(x) for x in rng.integers(lo, hi, 12)) | {lo, hi - 1})
        return [b[:i] + bytes([b[i] ^ (1 << int(rng.integers(8)))]) + b[i + 1:] for i in at]
    lists = [("public-code seed", [("open", sm, x) for x in near(pk, 0, M.S, True)]), ("public matrices", [("open", sm, x) for x in near(pk, M.S, len(pk), False)]), ("secret key", [("sign", m, x) for x in near(sk, 0, len(sk), True)]),
             ("message", [("sign", x, sk) for x in near(m, 0, len(m), False) + [m[:-1], m + b"\0", b""]] + [("open", x, pk) for x in near(sm, 0, len(m), False)])]
    lists += [("signed " + fld, [("open", x, pk) for x in near(sm, *f[fld], fld in ("salt", "digest"))]) for fld in ("salt", "digest", "actions", "seeds", "count") if fld in f and f[fld][1] > f[fld][0]]
    todo = [(what, op) for what, l in lists for op in (l if len(l) * len(lists) <= n else [l[int(j)] for j in rng.choice(len(l), min(len(l), max(1, n // len(lists))), replace=False)])]
    def alone(op):
        B = I.fresh(); B.set_state(before); got = G.run(B.lib, op); B.close(); return got
    base = {"sign": ("sign", m, sk), "open": ("open", sm, pk)}; ans = {o: alone(b) for o, b in base.items()}
    def run(op, want, what, pos):
        W.at(op=op[0], what=what, position=pos, set=s, impl=impl); I.set_state(before); got = F.run(I.lib, op); W.check(got == want, f"answer depends on a similar operation before it:{tag}", operation=op[0], changed=what, position=pos, inputs=list(op[1:]), rc=(got[0], want[0]))
    pos = 0
    for o in base: run(base[o], ans[o], "nothing", 0)
    for what, op in sorted(todo, key=lambda e: e[1][0]):
        want = alone(op); run(op, want, what, pos); run(base[op[0]], ans[op[0]], "back to the first", pos + 1); pos += 2
        W.case(tag, what, *op[1:]); W.count(f"operations after a twin differing in one byte of the {what}")
        W.count("twins answered differently" if want != ans[op[0]] else "twins answered alike")
    W.sample(set=s, impl=impl, twins=len(todo))
class Fixed:
    """operations through buffers that stay at the same addresses for the whole history"""
    def __init__(self, I): self.I = I; self.pk, self.sk = buf(I.pk_bytes), buf(I.sk_bytes); self.m, self.sm, self.o = buf(4096), buf(4096 + I.sig_bytes), buf(4096 + I.sig_bytes)
    def put(self, dst, b): dst[:len(b)] = np.frombuffer(b, np.uint8); return dst
    def run(self, lib, op):
        k = op[0]; n = C.c_ulonglong(0)
        if k == "keygen": rc = lib.vs_keypair(ptr(self.pk), ptr(self.sk)); return rc, self.pk.tobytes(), self.sk.tobytes()
        if k == "sign": self.put(self.m, op[1]); self.put(self.sk, op[2]); rc = lib.vs_sign(ptr(self.sm), C.byref(n), ptr(self.m), C.c_ulonglong(len(op[1])), ptr(self.sk)); return rc, self.sm[:n.value].tobytes()
        self.put(self.sm, op[1]); self.put(self.pk, op[2]); rc = lib.vs_open(ptr(self.o), C.byref(n), ptr(self.sm), C.c_ulonglong(len(op[1])), ptr(self.pk)); return rc, self.o[:n.value].tobytes() if rc == 0 else None
def history(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); F = Fixed(I); G = Fixed(I); t0 = time.time(); rng = W.rng; tag = f"{impl}:{s}"; u = cost(impl, s)
    I.seed(W.rbytes(48)); keys, sigs, log = [], [], []; cheap = [c for c in hostile.get(s) if case_cost(impl, s, c) < .02 and c["force"] is None and len(c["sm"]) < 4096 + I.sig_bytes]
    # the answers of an instance with no past, from a key pair of the model's
    first = [(k, e) for k in honest.get(s)[:2] for e in k["msgs"][:2]]
    for k, e in first: keys.append((k["pk"], k["sk"])); sigs.append((e["sm"], k["pk"]))
    keys = list(dict.fromkeys(keys)); n = 0; prev = None; seen = {}
    while n < (12 if u < .5 else 6) or time.time() - t0 < seconds:
        r = int(rng.integers(12)); pk, sk = keys[int(rng.integers(len(keys)))]; sm, spk = sigs[int(rng.integers(len(sigs)))]
        if r == 0: op = ("keygen",)
        elif r <= 3: op = ("sign", W.rbytes(int(rng.integers(0, 90))), sk)
        elif r == 4 and prev and prev[0] == "sign": op = ("sign", prev[1], sk)              # same message again, perhaps another key
        elif r <= 6: op = ("open", sm, spk)
        elif r == 7: op = ("open", hostile.flip(sm, int(rng.integers(8 * len(sm)))), spk)
        elif r == 8: op = ("open", sm, pk)
        elif r == 9: op = ("open", sm, hostile.flip(spk, int(rng.integers(8 * M.S, 8 * len(spk)))))   # a key sharing the public-code seed
        elif r == 10 and prev and prev[0] == "open": op = prev
        else: c = cheap[int(rng.integers(len(cheap)))]; op = ("open", c["sm"], c["pk"])
        before = I.state(); W.at(op=op[0], position=n, set=s, impl=impl)
        got = F.run(I.lib, op); after = I.state()
        B = I.fresh(); B.set_state(before); alone = G.run(B.lib, op); after2 = B.state(); x, y = None, None
        if after != after2: x, y = I.randombytes(64), B.randombytes(64); I.set_state(after)
        B.close(); log.append(op[0])
        d = dict(position=n, operation=op[0], history=" ".join(log[-12:]), inputs=[v for v in op[1:]], rc=(got[0], alone[0]))
        W.check(got == alone, f"result depends on what ran before:{tag}", **d); W.check(x == y, f"generator state after the operation depends on what ran before:{tag}", **d)
        if op[0] == "open":
            if before != after:
                a = I.randombytes(64); I.set_state(before); b = I.randombytes(64); I.set_state(after); W.check(a == b, f"opening disturbs the generator:{tag}", **d)
            h = hash(op[1:]); W.check(seen.setdefault(h, got) == got, f"repeated opening answers differently:{tag}", before=seen[h][0], **d)
            W.count("openings accepted" if got[0] == 0 else "openings rejected")
        if op[0] == "keygen" and len(keys) < 6: keys.append((got[1], got[2]))
        if op[0] == "sign": sigs.append((got[1], next(p for p, q in keys if q == op[2]))); sigs[:] = sigs[-20:]
        W.case(tag, n, *[v if isinstance(v, bytes) else v.encode() for v in op]); W.count("operations compared with a fresh instance"); prev = op; n += 1
    W.high("history length", n); W.sample(set=s, impl=impl, operations=n, tail=" ".join(log[-10:]))
