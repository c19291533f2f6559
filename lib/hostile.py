"""Adversarial (signed message, public key) pairs labelled by the model, cached in build/."""
import numpy as np
import gens, honest, cover
from vimpl import Model

VERSION = "5"
def setbit(b, i, v=None):
    b = bytearray(b); b[i >> 3] = b[i >> 3] ^ (1 << (i & 7)) if v is None else (b[i >> 3] & ~(1 << (i & 7))) | (v << (i & 7)); return bytes(b)
def flip(b, i): return setbit(b, i)

class Maker:
    def __init__(self, s):
        self.M = M = Model(s); self.s = s; self.rng = np.random.default_rng(20240219 + sum(map(ord, s)))
        self.keys = honest.get(s); self.cases = []
        self.full_budget = {"1": 70, "3": 22, "5": 9}[s[0]] if "~" not in s else {"1": 90, "3": 50, "5": 40}[s[0]]
    def add(self, kind, sm, pk, force=None, full=False):
        if full:
            if self.full_budget <= 0: return
            self.full_budget -= 1
        self.cases.append({"kind": kind, "sm": bytes(sm), "pk": bytes(pk), "force": None if force is None else bytes(force), "full": full})
    def parts(self, sm):
        f = self.M.fields(sm); return {k: sm[a:b] for k, (a, b) in f.items()}
    def join(self, p): return p["msg"] + p["salt"] + p["actions"] + p["digest"] + p["seeds"] + p["count"]
    def actions(self, p): n = self.M.mono_bytes; return [p["actions"][i:i + n] for i in range(0, len(p["actions"]), n)]
    def with_action(self, p, i, b): a = self.actions(p); a[i] = b; return self.join(dict(p, actions=b"".join(a)))
    # ---------------------------------------------------------------- cheap: rejected before the algebra
    def lengths(self, k, sm):
        M, pk = self.M, k["pk"]
        for n in sorted({0, 1, 2, 3, M.D, M.fixed - 1, M.fixed, M.fixed + 1, M.fixed + M.S - 1, M.fixed + M.S, len(sm) - 1, len(sm) - M.S}):
            for c in (0, 1, sm[-1], 255):
                b = bytearray(sm[:n]) if n <= len(sm) else bytearray(sm)
                if n: b[-1] = c
                self.add(f"length {n} count {c}", b, pk)
            self.add(f"tail of length {n}", sm[len(sm) - n:], pk, full=(n == len(sm)))
        for n in (0, 1, M.fixed, M.fixed + 40 * M.S, 4 * M.fixed):
            for v in (0, 255): self.add(f"{n} bytes of {v}", bytes([v]) * n, pk)
            b = bytearray(self.rng.bytes(n)); self.add("random bytes", b, pk)
            if n: b[-1] = int(self.rng.integers(0, M.maxseeds + 1)); self.add("random bytes, plausible count", b, pk)
    def counts(self, k, sm):
        M = self.M; p = self.parts(sm); c0 = sm[-1]
        for c in range(256):
            if c == c0: continue
            self.add(f"count byte {c} for {c0}", sm[:-1] + bytes([c]), k["pk"])
            if abs(c - c0) <= 3 or c in (0, 1, M.maxseeds, M.maxseeds + 1, M.maxseeds - 1, 255):
                sd = (p["seeds"] + self.rng.bytes(max(0, c - c0) * M.S))[:c * M.S]
                self.add(f"{c} seeds for {c0}", self.join(dict(p, seeds=sd, count=bytes([c]))), k["pk"])
        self.add("one surplus zero seed", self.join(dict(p, seeds=p["seeds"] + bytes(M.S), count=bytes([(c0 + 1) & 255]))), k["pk"])
    def pubkeys(self, k, sm):
        M, pk = self.M, k["pk"]; F = (M.N + 7) // 8
        for j in range(M.kp - 1):
            o = M.S + j * M.rref_bytes; base = 8 * o
            flags = [(pk[o + (c >> 3)] >> (c & 7)) & 1 for c in range(M.N)]
            on = [c for c in range(M.N) if flags[c]]; off = [c for c in range(M.N) if not flags[c]]
            def put(cols, v):
                b = pk
                for c in cols: b = setbit(b, base + c, v)
                return b
            self.add("one pivot flag too many", sm, put([int(self.rng.choice(off))], 1)); self.add("one pivot flag too many (last)", sm, put([off[-1]], 1))
            self.add("one pivot flag missing", sm, put([int(self.rng.choice(on))], 0)); self.add("one pivot flag missing (first)", sm, put([on[0]], 0))
            self.add("one pivot flag missing (last)", sm, put([on[-1]], 0))
            self.add("no pivot flags", sm, put(on, 0)); self.add("all pivot flags", sm, put(off, 1))
            eb = 8 * (o + F); ne = M.K * (M.N - M.K)
            for e in (0, 1, int(self.rng.integers(ne)), int(self.rng.integers(ne)), ne - 2, ne - 1):
                b = pk
                for t in range(7): b = setbit(b, eb + 7 * e + t, 1)
                self.add(f"field element 127 at entry {'0' if e == 0 else 'last' if e == ne - 1 else 'inner'}", sm, b)
            self.add("all entries 127", sm, pk[:o + F] + b"\xff" * (M.rref_bytes - F) + pk[o + M.rref_bytes:])
        self.add("public key all zero", sm, bytes(len(pk))); self.add("public key all ones", sm, b"\xff" * len(pk))
        self.add("public key random", sm, self.rng.bytes(len(pk)))
    def bad_actions(self, k, sm):
        M, pk = self.M, k["pk"]; p = self.parts(sm); acts = self.actions(p); mx = (1 << M.pos_bits) - 1
        for i in sorted({0, M.W // 2, M.W - 1}):
            P, Cf = M.unpack_action(acts[i])
            def tryit(kind, f):
                a, b = P.copy(), Cf.copy(); f(a, b); self.add(f"{kind} in action {'first' if i == 0 else 'last' if i == M.W - 1 else 'inner'}", self.with_action(p, i, M.pack_action(a, b)), pk)
            tryit("repeated position (0,1)", lambda a, b: a.__setitem__(1, a[0])); tryit("repeated position (0,last)", lambda a, b: a.__setitem__(M.K - 1, a[0]))
            tryit("repeated position (last two)", lambda a, b: a.__setitem__(M.K - 2, a[M.K - 1]))
            tryit("all positions equal", lambda a, b: a.__setitem__(slice(None), a[0]))
            for v in sorted({M.N, mx}):
                for at in (0, M.K // 2, M.K - 1): tryit(f"position {v}", lambda a, b: a.__setitem__(at, v))
            for v in (0, 127):
                for at in (0, M.K // 2, M.K - 1): tryit(f"coefficient {v}", lambda a, b: b.__setitem__(at, v))
            self.add("action all zero", self.with_action(p, i, bytes(M.mono_bytes)), pk); self.add("action all ones", self.with_action(p, i, b"\xff" * M.mono_bytes), pk)
    # ---------------------------------------------------------------- full verifications
    def malleable(self, k, sm, force=None):
        M, pk = self.M, k["pk"]; p = self.parts(sm); acts = self.actions(p)
        for i in {0, M.W - 1}:
            P, Cf = M.unpack_action(acts[i]); v = int(self.rng.integers(2, 127))
            self.add("action scaled by a constant (equivalent)", self.with_action(p, i, M.pack_action(P, (Cf.astype(int) * v % 127).astype(np.uint8))), pk, force, full=True)
        pos_pad = 8 * ((M.K * M.pos_bits + 7) // 8) - M.K * M.pos_bits; cf_pad = 8 * ((7 * M.K + 7) // 8) - 7 * M.K
        a = acts[0]
        if pos_pad: a = setbit(a, M.K * M.pos_bits, 1)
        if cf_pad: a = setbit(a, 8 * M.mono_bytes - 1, 1)
        # (positions and coefficients are packed back to back; only the very end is padding)
        if M.unpack_action(a)[0].tobytes() == M.unpack_action(acts[0])[0].tobytes() and M.unpack_action(a)[1].tobytes() == M.unpack_action(acts[0])[1].tobytes() and a != acts[0]:
            self.add("padding bit of an action set (equivalent)", self.with_action(p, 0, a), pk, force, full=True)
        if M.N % 8: self.add("padding bit of the pivot flags set (equivalent)", sm, setbit(pk, 8 * M.S + 8 * (M.N // 8) + 7, 1), force, full=True)
        if (7 * M.K * (M.N - M.K)) % 8: self.add("padding bit of the public key set (equivalent)", sm, setbit(pk, 8 * (M.S + M.rref_bytes) - 1, 1), force, full=True)
    def perm_rows(self, k, sm, force=None):
        """permuting a hidden round's action positions permutes rows of the transformed basis: equivalent"""
        M = self.M; p = self.parts(sm); acts = self.actions(p); P, Cf = M.unpack_action(acts[0]); q = self.rng.permutation(M.K)
        self.add("positions of an action permuted", self.with_action(p, 0, M.pack_action(P[q], Cf[q])), k["pk"], force, full=True)
    def tamper(self, k, sm, force=None, n=6):
        M, pk = self.M, k["pk"]; f = M.fields(sm)
        order = ["digest", "msg", "salt", "seeds", "actions"]
        for name in order:
            a, b = f[name]
            if a == b: continue
            for bit in (8 * b - 1, int(self.rng.integers(8 * a, 8 * b)), 8 * a)[:n]: self.add(f"bit of {name} flipped", flip(sm, bit), pk, force, full=True)
        p = self.parts(sm); acts = self.actions(p); i = int(self.rng.integers(M.W)); P, Cf = M.unpack_action(acts[i]); c2 = Cf.copy(); e = int(self.rng.integers(M.K)); c2[e] = c2[e] % 126 + 1
        self.add("one coefficient changed", self.with_action(p, i, M.pack_action(P, c2)), pk, force, full=True)
        un = np.setdiff1d(np.arange(M.N), P); P2 = P.copy(); P2[e] = int(self.rng.choice(un)); self.add("one position changed", self.with_action(p, i, M.pack_action(P2, Cf)), pk, force, full=True)
        if M.W > 1: a = list(acts); a[0], a[-1] = a[-1], a[0]; self.add("two actions exchanged", self.join(dict(p, actions=b"".join(a))), pk, force, full=True)
        self.add("message extended", self.join(dict(p, msg=p["msg"] + b"\0")), pk, force, full=True)
        self.add("seed of the public code changed", sm, flip(pk, 3), force, full=True)
        self.add("public key entry changed", sm, flip(pk, 8 * (M.S + (M.N + 7) // 8 + 5) + 2), force, full=True)
    def degenerate_pk(self, kind):
        M = self.M; out = self.rng.bytes(M.S)
        for j in range(M.kp - 1):
            piv, _ = gens.pivots(self.rng, M.K, M.N, kind % 6); G, piv, _ = gens.true_rref(self.rng, M.K, M.N, piv)
            if kind == 0: G[:, piv == 0] = 0
            if kind == 1: G[:, piv == 0] = 126; G = (G * ((np.arange(M.N)[None, :] >= np.flatnonzero(piv)[:, None]))).astype(np.uint8)
            out += M.pack_rref(np.ascontiguousarray(G), piv)
        return out
    def forged(self, n):
        """with the challenge pinned, any well-formed fields and the digest the verifier recomputes must be accepted"""
        M = self.M
        for t in range(n):
            kind = t % 6; pk = self.degenerate_pk(kind) if t % 7 != 6 else self.keys[0]["pk"]
            x = honest.forced_x(M, self.rng, ["worst", "random", "first"][t % 3]); need = len(M.cover(x))
            acts = b""
            for i in range(M.W): P, Cf, _ = gens.action(self.rng, M.K, M.N); acts += M.pack_action(P, Cf)
            m = self.rng.bytes(int(self.rng.integers(0, 50)))
            p = dict(msg=m, salt=self.rng.bytes(M.D), actions=acts, digest=bytes(M.D), seeds=self.rng.bytes(need * M.S), count=bytes([need]))
            r, ml, rec = M.open_rec(self.join(p), pk, np.frombuffer(x, np.uint8))
            assert r == 6, r
            p["digest"] = rec; sm = self.join(p); self.add(f"forged under a pinned challenge, public key kind {kind}", sm, pk, x, full=True)
            if t < 2: self.add("forged, digest bit flipped (last)", flip(sm, 8 * M.fields(sm)["digest"][1] - 1), pk, x, full=True)
    def make(self):
        k = self.keys[0]; e = k["msgs"][0]; sm = e["sm"]; x = None
        self.lengths(k, sm); self.counts(k, sm); self.pubkeys(k, sm); self.bad_actions(k, sm)
        self.malleable(k, sm)
        if k["forced"]:
            fe = k["forced"][0]; fx = fe["x"]
            self.add("honest, worst-case challenge", fe["sm"], k["pk"], fx, full=True)
        self.forged({"1": 8, "3": 4, "5": 2}[self.s[0]] if "~" not in self.s else 12)
        self.perm_rows(k, sm)
        if k["forced"]:
            a, b = self.M.fields(fe["sm"])["digest"]
            for bit in (8 * b - 1, 8 * a, 8 * a + 8 * (self.M.D // 2)): self.add("digest bit flipped, challenge pinned", flip(fe["sm"], bit), k["pk"], fx, full=True)
            a, b = self.M.fields(fe["sm"])["seeds"]
            for bit in (8 * a, 8 * b - 1): self.add("seed bit flipped, challenge pinned", flip(fe["sm"], bit), k["pk"], fx, full=True)
        if len(self.keys) > 1: self.add("another public key", sm, self.keys[1]["pk"], full=True)
        if len(k["msgs"]) > 1:
            p, q = self.parts(sm), self.parts(k["msgs"][1]["sm"])
            self.add("signature of another message", self.join(dict(q, msg=p["msg"])), k["pk"], full=True)
        self.tamper(k, sm)
        for e2 in k["msgs"][1:]: self.tamper(k, e2["sm"], n=3)
        M = self.M
        for c in self.cases:
            c["code"], c["mlen"] = M.open(c["sm"], c["pk"], None if c["force"] is None else np.frombuffer(c["force"], np.uint8))
        return self.cases
def get(s): return honest.cached("hostile", s, VERSION, lambda: Maker(s).make())
