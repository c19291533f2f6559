"""ctypes bindings: implementation under test and the independent model."""
import ctypes as C, os, sys
import numpy as np
import vbuild

U8 = C.c_ubyte; P8 = C.POINTER(C.c_ubyte)
def buf(n, fill=0):
    a = np.empty(max(n, 1), dtype=np.uint8); a[:] = fill; return a
def ptr(a): return C.c_void_p(a.ctypes.data)
def arr(b):
    a = np.frombuffer(bytes(b), dtype=np.uint8).copy()
    return a if len(a) else np.zeros(1, np.uint8)

class Par(C.Structure):
    _fields_ = [(n, C.c_int) for n in "cat N K kp T W S maxseeds D L rref_bytes mono_bytes pk_bytes sk_bytes sig_max pos_bits".split()]
class Sponge(C.Structure):
    _fields_ = [("s", C.c_uint64 * 25), ("rate", C.c_uint), ("pos", C.c_uint), ("sq", C.c_int), ("ds", C.c_ubyte)]
class Trace(C.Structure):
    _fields_ = [("root", U8 * 32), ("salt", U8 * 64), ("digest", U8 * 64), ("x", U8 * 1400), ("nseeds", C.c_uint32),
                ("nodes", C.c_uint32 * 256), ("tree", C.c_void_p)]

class Model:
    lib = None
    def __init__(self, s):
        if Model.lib is None:
            Model.lib = C.CDLL(vbuild.build_model())
            L = Model.lib
            for n in "lm_init lm_absorb lm_squeeze lm_hash lm_rng_init lm_sample lm_monomial lm_monomial_salted lm_monomial_prikey lm_challenge lm_tree lm_normal lm_g0 lm_pack_rref lm_pack_action lm_unpack_action lm_apply_action lm_keygen lm_sign".split():
                getattr(L, n).restype = None
        self.s = s; self.p = Par(); Model.lib.lm_param(vbuild.SETS.index(vbuild.base_set(s)), C.byref(self.p))
        sc = vbuild.scale_of(s)
        if sc:
            p = self.p; p.T, p.W, p.maxseeds = sc; p.L = 1 << int(p.T).bit_length()
            p.sig_max = 2 * p.D + p.W * p.mono_bytes + p.maxseeds * p.S + 1
        for n, _ in Par._fields_: setattr(self, n, getattr(self.p, n))
        self.pp = C.byref(self.p); self.fixed = 2 * self.D + self.W * self.mono_bytes + 1
    def rng(self, seed):
        c = Sponge(); a = arr(seed); self.lib.lm_rng_init(self.pp, C.byref(c), ptr(a), C.c_size_t(len(seed))); return c
    def draw(self, c, n):
        o = buf(n); self.lib.lm_squeeze(C.byref(c), ptr(o), C.c_size_t(n)); return o[:n].tobytes()
    def keygen(self, c):
        pk, sk = buf(self.pk_bytes), buf(self.sk_bytes)
        self.lib.lm_keygen(self.pp, C.byref(c), ptr(pk), ptr(sk)); return pk.tobytes(), sk.tobytes()
    def sign(self, c, m, sk, force=None, want_tree=False):
        ml = len(m); sm = buf(ml + self.sig_max); n = C.c_uint64(); tr = Trace(); tree = None
        if want_tree:
            tree = buf((2 * self.L - 1) * self.S); tr.tree = tree.ctypes.data
        ma, sa = arr(m), arr(sk); f = None if force is None else ptr(force)
        self.lib.lm_sign(self.pp, C.byref(c), ptr(ma), C.c_uint64(ml), ptr(sa), ptr(sm), C.byref(n), f, C.byref(tr))
        self.trace = tr; self.tree = tree
        return sm[:n.value].tobytes()
    def open(self, sm, pk, force=None):
        n = C.c_uint64(); a, b = arr(sm), arr(pk); f = None if force is None else ptr(force)
        r = self.lib.lm_open(self.pp, ptr(a), C.c_uint64(len(sm)), ptr(b), C.byref(n), f)
        return r, n.value
    def open_rec(self, sm, pk, force=None):
        """(reason code, message length, digest the verifier recomputes)"""
        n = C.c_uint64(); a, b = arr(sm), arr(pk); f = None if force is None else ptr(force); rec = buf(self.D)
        r = self.lib.lm_open_rec(self.pp, ptr(a), C.c_uint64(len(sm)), ptr(b), C.byref(n), f, ptr(rec))
        return r, n.value, rec.tobytes()
    def challenge(self, d):
        x = buf(self.T); a = arr(d); self.lib.lm_challenge(self.pp, ptr(a), ptr(x)); return x
    def cover(self, hidden):
        n = np.zeros(self.T + 8, np.uint32); h = np.ascontiguousarray(hidden, np.uint8)
        k = self.lib.lm_cover(self.pp, ptr(h), ptr(n)); return n[:k].copy()
    def tree_of(self, root, salt):
        t = buf((2 * self.L - 1) * self.S); a, b = arr(root), arr(salt)
        self.lib.lm_tree(self.pp, ptr(a), ptr(b), ptr(t)); return t
    def monomial_salted(self, seed, salt, rnd):
        c, p = buf(self.N), np.zeros(self.N, np.uint16); a, b = arr(seed), arr(salt)
        self.lib.lm_monomial_salted(self.pp, ptr(a), ptr(b), C.c_uint(rnd), ptr(c), ptr(p)); return c, p
    def monomial_prikey(self, seed):
        c, p = buf(self.N), np.zeros(self.N, np.uint16); a = arr(seed)
        self.lib.lm_monomial_prikey(self.pp, ptr(a), ptr(c), ptr(p)); return c, p
    def monomial_stream(self, sponge):
        c, p = buf(self.N), np.zeros(self.N, np.uint16)
        self.lib.lm_monomial(self.pp, C.byref(sponge), ptr(c), ptr(p)); return c, p
    def sample(self, sponge, n, lo, hi):
        o = buf(n); self.lib.lm_sample(C.byref(sponge), ptr(o), C.c_size_t(n), lo, hi); return o[:n]
    def rref(self, G):
        g = np.ascontiguousarray(G, np.uint8).copy(); piv = buf(self.N)
        r = self.lib.lm_rref(self.pp, ptr(g), ptr(piv)); return r, g, piv
    def normal(self, G, piv):
        V = np.zeros((self.K, self.N - self.K), np.uint8)
        self.lib.lm_normal(self.pp, ptr(G), ptr(piv), ptr(V)); return V
    def round(self, G, coef, perm):
        V = np.zeros((self.K, self.N - self.K), np.uint8); ap = np.zeros(self.K, np.uint16); ac = buf(self.K)
        r = self.lib.lm_round(self.pp, ptr(G), ptr(coef), ptr(perm), ptr(V), ptr(ap), ptr(ac)); return r, V, ap, ac
    def g0(self, seed):
        G = np.zeros((self.K, self.N), np.uint8); a = arr(seed); self.lib.lm_g0(self.pp, ptr(a), ptr(G)); return G
    def pack_rref(self, G, piv):
        o = buf(self.rref_bytes); self.lib.lm_pack_rref(self.pp, ptr(G), ptr(piv), ptr(o)); return o.tobytes()
    def unpack_rref(self, b):
        G = np.zeros((self.K, self.N), np.uint8); a = arr(b); r = self.lib.lm_unpack_rref(self.pp, ptr(a), ptr(G)); return r, G
    def pack_action(self, perm, coef):
        o = buf(self.mono_bytes); self.lib.lm_pack_action(self.pp, ptr(perm), ptr(coef), ptr(o)); return o.tobytes()
    def unpack_action(self, b):
        p = np.zeros(self.K, np.uint16); c = buf(self.K); a = arr(b); self.lib.lm_unpack_action(self.pp, ptr(a), ptr(p), ptr(c)); return p, c
    def action_valid(self, perm, coef): return self.lib.lm_action_valid(self.pp, ptr(perm), ptr(coef))
    def apply(self, G, perm, coef):
        o = np.zeros((self.K, self.N), np.uint8); self.lib.lm_apply_action(self.pp, ptr(G), ptr(perm), ptr(coef), ptr(o)); return o
    def shake(self, rate, ds, data, n):
        o = buf(n); a = arr(data); self.lib.lm_hash(C.c_uint(rate), C.c_ubyte(ds), ptr(a), C.c_size_t(len(data)), ptr(o), C.c_size_t(n)); return o[:n].tobytes()
    # offsets inside a signature
    def fields(self, sm):
        cnt = sm[-1]; ml = len(sm) - self.fixed - cnt * self.S
        o = {}; at = ml
        o["msg"] = (0, ml); o["salt"] = (at, at + self.D); at += self.D
        o["actions"] = (at, at + self.W * self.mono_bytes); at += self.W * self.mono_bytes
        o["digest"] = (at, at + self.D); at += self.D
        o["seeds"] = (at, at + cnt * self.S); at += cnt * self.S
        o["count"] = (at, at + 1); return o

INFO = "N K kp T W S maxseeds pk sk sig maxbytes crypto_max bytes0 bytes5 rref mono L nodes D priv Q state sizeof_sig sizeof_pk sizeof_sk bytesmax".split()
CANARY = 0xC7
class Impl:
    """one implementation and parameter set, release build"""
    def __init__(self, impl, s, style=None):
        self.impl, self.s = impl, s
        self.so = vbuild.build_so(impl, s, style); self.lib = C.CDLL(self.so); L = self.lib
        self.missing = vbuild.missing_groups(self.so)
        self.info = {n: L.vs_info(i) for i, n in enumerate(INFO)}
        self.pk_bytes, self.sk_bytes, self.sig_bytes = self.info["pk"], self.info["sk"], self.info["sig"]
        for n in ("vs_seed", "vs_randombytes", "vs_state_get", "vs_state_set", "vs_dirty_stack"): getattr(L, n).restype = None
    def has(self, group): return group not in self.missing
    def seed(self, b): a = arr(b); self.lib.vs_seed(ptr(a), C.c_uint(len(b)))
    def randombytes(self, n): o = buf(n); self.lib.vs_randombytes(ptr(o), C.c_ulonglong(n)); return o[:n].tobytes()
    def state(self): o = buf(self.info["state"]); self.lib.vs_state_get(ptr(o)); return o.tobytes()
    def set_state(self, b): a = arr(b); self.lib.vs_state_set(ptr(a))
    def keygen(self, fill=0):
        pk, sk = buf(self.pk_bytes + 64, CANARY), buf(self.sk_bytes + 64, CANARY)
        pk[32:32 + self.pk_bytes] = fill; sk[32:32 + self.sk_bytes] = fill
        self.rc = self.lib.vs_keypair(C.c_void_p(pk.ctypes.data + 32), C.c_void_p(sk.ctypes.data + 32))
        self.canary_ok = bool((pk[:32] == CANARY).all() and (pk[32 + self.pk_bytes:] == CANARY).all() and
                              (sk[:32] == CANARY).all() and (sk[32 + self.sk_bytes:] == CANARY).all())
        return pk[32:32 + self.pk_bytes].tobytes(), sk[32:32 + self.sk_bytes].tobytes()
    def on_stack(self, stack, op, a, n, inp, ln, b):
        """one operation on the given painted stack (huge.Huge-like .p/.n or numpy array): (result, bytes of stack used, heap calls, heap bytes, heap blocks live)"""
        stack[:] = 0xA5; h = (C.c_uint64 * 3)(); self.lib.vs_on_stack.argtypes = [C.c_void_p, C.c_size_t, C.c_int] + [C.c_void_p] * 3 + [C.c_ulonglong] + [C.c_void_p] * 2
        rc = self.lib.vs_on_stack(stack.ctypes.data, len(stack), op, a, n, inp, ln, b, h)
        used = np.flatnonzero(stack.view(np.uint64) != 0xA5A5A5A5A5A5A5A5); low = int(used[0]) * 8 if len(used) else len(stack)
        return rc, len(stack) - low, int(h[0]), int(h[1]), C.c_int64(h[2]).value
    def sign(self, m, sk, fill=0, off=32):
        ml = len(m); cap = ml + self.sig_bytes
        sm = buf(cap + 64 + off, CANARY); sm[off:off + cap] = fill
        ma, sa = arr(m), arr(sk); n = C.c_ulonglong(0xDEADBEEFDEADBEEF)
        self.rc = self.lib.vs_sign(C.c_void_p(sm.ctypes.data + off), C.byref(n), ptr(ma), C.c_ulonglong(ml), ptr(sa))
        self.canary_ok = bool((sm[:off] == CANARY).all() and (sm[off + cap:] == CANARY).all())
        self.inputs_ok = (ma[:ml].tobytes() == m) and (sa.tobytes() == sk)
        self.smlen = n.value
        self.tail = sm[off + min(n.value, cap):off + cap].tobytes()
        return sm[off:off + min(n.value, cap)].tobytes()
    def open(self, sm, pk, fill=0, off=32, moff=32):
        """returns (rc, message or None)"""
        sl = len(sm); sa = buf(sl + 64 + off, CANARY); sa[off:off + sl] = np.frombuffer(sm, np.uint8)
        pa = buf(len(pk) + 64, CANARY); pa[32:32 + len(pk)] = np.frombuffer(pk, np.uint8)
        m = buf(sl + 64 + moff, CANARY); m[moff:moff + sl] = fill
        n = C.c_ulonglong(0)
        self.rc = self.lib.vs_open(C.c_void_p(m.ctypes.data + moff), C.byref(n), C.c_void_p(sa.ctypes.data + off), C.c_ulonglong(sl), C.c_void_p(pa.ctypes.data + 32))
        self.canary_ok = bool((m[:moff] == CANARY).all() and (m[moff + sl:] == CANARY).all())
        self.inputs_ok = sa[off:off + sl].tobytes() == sm and pa[32:32 + len(pk)].tobytes() == pk
        self.mlen = n.value
        ok_len = n.value <= sl
        self.beyond_ok = bool(not ok_len or (m[moff + n.value:moff + sl] == fill).all())
        return self.rc, (m[moff:moff + n.value].tobytes() if ok_len else None)
    def force(self, x):
        """drive a chosen challenge through the real signer/verifier; None switches off"""
        if x is None: self.lib.vs_force(None)
        else:
            a = np.ascontiguousarray(x, np.uint8); self.lib.vs_force(ptr(a))
    def can_force(self): return "vs_force" not in self.missing
    def force_calls(self): return self.lib.vs_force_calls()
    def last_challenge(self, which=0):
        x, d = buf(self.info["T"]), buf(self.info["D"]); self.lib.vs_last(which, ptr(x), ptr(d)); return x, d.tobytes()
    def fresh(self):
        """another instance of the same build with its own static storage; close() it"""
        import shutil, tempfile
        d = tempfile.mkdtemp(prefix="vf-"); p = os.path.join(d, "l.so"); shutil.copy(self.so, p)
        n = object.__new__(Impl); n.__dict__.update(self.__dict__); n.lib = C.CDLL(p); shutil.rmtree(d)
        for f in ("vs_seed", "vs_randombytes", "vs_state_get", "vs_state_set", "vs_dirty_stack"): getattr(n.lib, f).restype = None
        return n
    def close(self):
        import _ctypes
        _ctypes.dlclose(self.lib._handle); self.lib = None
