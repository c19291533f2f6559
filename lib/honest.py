"""Honest keys and signed messages computed by the model alone (nothing of /repo), cached in build/."""
import hashlib, os, pickle
import numpy as np
import vbuild, cover
from vimpl import Model

VERSION = "4"
LENS = [33, 0, 135, 1, 104, 72, 136, 300, 17, 64]

def seed_bytes(s, k): return hashlib.sha512(f"honest {s} {k}".encode()).digest()[:48]
def message(s, k, i):
    n = LENS[(i + 3 * k) % len(LENS)]
    return hashlib.shake_128(f"msg {s} {k} {i}".encode()).digest(n) if n else b""
def sizes(s):
    if "~" in s: return 2, 4, 3
    return {"1": (2, 4, 2), "3": (1, 3, 1), "5": (1, 2, 1)}[s[0]]

def forced_x(M, rng, kind):
    if kind == "worst": h = cover.worst(M.T, M.W, rng)[1]
    elif kind == "first": h = range(M.W)
    else: h = rng.choice(M.T, M.W, replace=False)
    return cover.challenge(M.T, M.kp, h, rng)

def make(s):
    M = Model(s); nk, nm, nf = sizes(s); keys = []
    for k in range(nk):
        sd = seed_bytes(s, k); c = M.rng(sd); pk, sk = M.keygen(c); msgs = []
        for i in range(nm):
            m = message(s, k, i); sm = M.sign(c, m, sk, want_tree=False); t = M.trace
            msgs.append({"m": m, "sm": sm, "x": bytes(t.x[:M.T]), "root": bytes(t.root[:M.S]), "salt": bytes(t.salt[:M.D]), "nodes": list(t.nodes[:t.nseeds])})
        forced = []
        rng = np.random.default_rng(k + 77)
        for i in range(nf if k == 0 else 0):
            x = forced_x(M, rng, ["worst", "random", "first"][i % 3]); sd2 = seed_bytes(s + "f", i); c2 = M.rng(sd2); m = message(s + "f", k, i)
            sm = M.sign(c2, m, sk, force=x); t = M.trace
            forced.append({"m": m, "sm": sm, "x": x.tobytes(), "seed": sd2, "nodes": list(t.nodes[:t.nseeds])})
        keys.append({"seed": sd, "pk": pk, "sk": sk, "msgs": msgs, "forced": forced})
    return keys

def _path(kind, s, ver):
    mh = vbuild.tree_hash([os.path.join(vbuild.VERIF, "model", x) for x in ("less_model.c", "less_model.h")])[:16]
    return os.path.join(vbuild.BUILD, f"{kind}-{s}-{mh}-{ver}.pickle")
def cached(kind, s, ver, fn):
    p = _path(kind, s, ver)
    if not os.path.exists(p):
        with vbuild.Lock(p + ".lock"):
            if not os.path.exists(p):
                v = fn()
                with open(p + ".tmp", "wb") as f: pickle.dump(v, f)
                os.rename(p + ".tmp", p)
    return pickle.load(open(p, "rb"))
def get(s): return cached("honest", s, VERSION, lambda: make(s))
