"""The system generator as a ledger: what every operation drew, where it is in the stream, and where it ended up in the outputs."""
from api import *
import gens, time
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one operation in a sequence on one generator stream, after which the position of the generator, the bytes it drew and their place in the outputs are compared with an independent copy of the stream; "
        "salts and ephemeral seeds of all signatures told apart; non-trivial and distinct = distinct (stream, position)")
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1; out = []
    for i, s in [(i, s) for s in [vbuild.scaled(b, 14, 4) for b in FULL] for i in vbuild.IMPLS]:
        for j in range(2): out.append({"label": f"ledger {i} {s} #{j}", "fn": "ledger", "args": {"impl": i, "s": s, "seconds": 5 * x}, "est": 6})
    for i, s in pairs([vbuild.scaled(b, 6, 2) for b in FULL]): out.append({"label": f"patterned output {i} {s}", "fn": "patterned", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 6})
    for i, s in pairs(FULL): out.append({"label": f"ledger {i} {s}", "fn": "ledger", "args": {"impl": i, "s": s, "seconds": (3 if cost(i, s) < 10 else 0) * x}, "est": 4 + 2 * cost(i, s)})
    return out
def builds(tier, t): return scaled_builds()
def ledger(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; rng = W.rng; t0 = time.time(); u = cost(impl, s)
    n = 0; runs = 0; salts, roots, secrets = {}, {}, {}; used = set()
    while n < (2 if u > 4 else 6) or time.time() - t0 < seconds:
        sd = W.rbytes(int(rng.choice([48, 48, 48, 0, 1, 200])))
        if sd in used: sd = W.rbytes(48)       # a stream heard before would repeat its secrets
        used.add(sd); I.seed(sd); ref = M.rng(sd); at = 0; stream = M.draw(M.rng(sd), 1 << 16); keys = []; runs += 1; last = sig = None
        def pos(what, took, **d):
            """the generator must now deliver exactly the stream from here"""
            nonlocal at
            st = I.state(); nxt = I.randombytes(64); I.set_state(st)
            if nxt != stream[at + took:at + took + 64]:
                j = stream.find(nxt[:32]); W.check(False, f"{what} draws {'a different number of' if j >= 0 else 'something else than'} bytes from the generator:{tag}", position=at, drawn=(j - at) if j >= 0 else None, expected=took, seed=sd, **d)
            at += took; W.count(f"{what}: generator positions checked")
        steps = int(rng.integers(3, 30)) if u < .3 else 4 if u < 3 else 2
        for k in range(steps):
            r = (int(rng.integers(8)) if u < 3 or k != 1 else 1) if keys else 0
            if r == 0 and len(keys) < 8:
                W.at(op="keygen", set=s, impl=impl, step=k); p0 = at; pk, sk = I.keygen(fill=int(rng.choice([0, 255]))); pos("key generation", M.D + M.S, step=k)
                own, pub = stream[p0:p0 + M.D], stream[p0 + M.D:p0 + M.D + M.S]; W.check(sk == own + pub or (len(sk) == M.D and sk == own) or own in sk, f"secret key does not hold the whole drawn secret:{tag}", sk=sk, drawn=own); W.check(pub in pk and pub == pk[:M.S], f"public key does not start with the whole drawn public-code seed:{tag}", pk=pk[:64], drawn=pub)
                W.check(own not in secrets, f"secret of an earlier key reused:{tag}"); secrets[own] = n; W.check(pub not in secrets, f"public-code seed of an earlier key reused:{tag}"); secrets[pub] = n; keys.append((pk, sk))
            elif r <= 4:
                pk, sk = keys[int(rng.integers(len(keys)))]; m = last if last is not None and rng.integers(2) else W.rbytes(int(rng.integers(0, 90))); last = m; W.at(op="sign", set=s, impl=impl, step=k); p0 = at
                sm = I.sign(m, sk, fill=int(rng.choice([0, 255]))); pos("signing", M.S + M.D, step=k, mlen=len(m)); root, salt = stream[p0:p0 + M.S], stream[p0 + M.S:p0 + M.S + M.D]; f = M.fields(sm); a, b = f["salt"]
                W.check(sm[a:b] == salt, f"salt is not the drawn one:{tag}", salt=sm[a:b], drawn=salt, mlen=len(m), seed=sd, position=p0)
                # every byte of the root is used: the published seeds are nodes of the tree grown from the whole root
                x = M.challenge(sm[f["digest"][0]:f["digest"][1]]); eb = M.tree_of(root, salt).reshape(-1, M.S); got = sm[f["seeds"][0]:f["seeds"][1]]; want = b"".join(eb[v].tobytes() for v in M.cover((x != 0).astype(np.uint8)))
                W.check(sorted(got[i:i + M.S] for i in range(0, len(got), M.S)) == sorted(want[i:i + M.S] for i in range(0, len(want), M.S)), f"published seeds do not grow from the drawn root:{tag}", root=root, seed=sd, position=p0)
                if u < .3 or k == 0: W.check(sm == _model(M, sd, p0, m, sk), f"signature is not the one the drawn bytes determine:{tag}", seed=sd, position=p0, m=m); W.count("signatures recomputed from the drawn bytes")
                W.check(salt not in salts, f"salt of an earlier signature reused:{tag}"); W.check(root not in roots, f"ephemeral seed of an earlier signature reused:{tag}"); salts[salt] = roots[root] = n; sig = (sm, pk)
            elif sig:
                W.at(op="open", set=s, impl=impl, step=k); b = bytearray(sig[0]); j = int(rng.integers(len(b))); b[j] ^= 1 if rng.integers(2) else 0; I.open(bytes(b), keys[int(rng.integers(len(keys)))][0] if rng.integers(3) == 0 else sig[1]); pos("opening", 0, step=k)
            W.case(tag, sd, k, at); n += 1
        if u < .3: w = int(rng.integers(1, 100)); got = I.randombytes(w); W.check(got == stream[at:at + w], f"bytes handed out after the operations:{tag}", seed=sd, position=at)
    W.high("operations on one stream", n); W.count("signatures told apart", len(salts)); W.count("streams", runs); W.sample(set=s, impl=impl, operations=n, signatures=len(salts), keys=len(secrets) // 2)
def patterned(W, impl, s, seconds):
    """the generator's sponge is laid open so that its next bytes are chosen: extreme and repeated seeds, secrets and salts are used like any others"""
    from vimpl import Sponge
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; rng = W.rng; t0 = time.time(); n = 0; I.seed(b"layout"); rate = M.rng(b"x").rate; known = []; key = None
    def load(b):
        """bytes to deliver first; the rest of the block is random"""
        p = int(rng.integers(0, rate - len(b) + 1)) if rng.integers(3) else rate - len(b); blk = W.rbytes(p) + b; blk += W.rbytes(200 - len(blk)); p -= p % 8 if rng.integers(2) else 0; blk = blk[:p] + b + blk[p + len(b):]
        I.set_state(blk + int(rate - p).to_bytes(8, "little")); c = M.rng(b"x"); M.draw(c, 1); c.s[:] = list(np.frombuffer(blk, "<u8")); c.pos = p; return c
    if I.info["state"] != 208: W.note("the generator's state is laid out otherwise in this tree: patterned outputs left out"); return
    probe = W.rbytes(64); c = load(probe); got = I.randombytes(500)
    if got != M.draw(c, 500) or got[:64] != probe: W.note("the generator's state is laid out otherwise in this tree: patterned outputs left out"); return
    while n < 40 or time.time() - t0 < seconds:
        keygen = key is None or n % 4 == 0; D, S = M.D, M.S
        b = gens.pattern(rng, D, known) + gens.pattern(rng, S, known) if keygen else gens.pattern(rng, S, known) + gens.pattern(rng, D, known)
        if rng.integers(6) == 0: b = bytes([b[0]]) * len(b)
        c = load(b); what = "key generation" if keygen else "signing"; W.at(op=what, set=s, impl=impl, drawn=b.hex()); x = dict(drawn=b)
        if keygen: pk, sk = I.keygen(); W.check((pk, sk) == M.keygen(c), f"key pair is not the one the drawn bytes determine:{tag}", **x); key = (pk, sk); known = (known + [b[:S], b[:D], b[-S:]])[-12:]
        else: m = [b"", b[:S], b[-D:], W.rbytes(int(rng.integers(60)))][int(rng.integers(4))]; sm = I.sign(m, key[1]); want = M.sign(c, m, key[1]); W.check(sm == want, f"signature is not the one the drawn bytes determine:{tag}", m=m, sk=key[1], **x); W.check(I.open(sm, key[0])[0] == 0, f"signature over patterned bytes refused:{tag}", m=m, **x); known = (known + [b[:S], b[-D:]])[-12:]
        got = I.randombytes(64); W.check(got == M.draw(c, 64), f"{what} draws a different number of bytes from the generator:{tag}", **x); W.case(tag, "patterned", b, keygen); W.count(f"{what} on chosen generator output"); n += 1
    W.sample(set=s, impl=impl, chosen=b.hex())
def _model(M, sd, p0, m, sk): c = M.rng(sd); M.draw(c, p0) if p0 else None; return M.sign(c, m, sk)
