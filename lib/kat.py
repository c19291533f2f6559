"""The KAT programs' sources, their DRBG as a library, and the expected contents of the files."""
import os, glob
import ctypes as C
import numpy as np
import vbuild, honest
from vimpl import Model, arr, buf, ptr
R = vbuild.REPO
COPIES = {"reference": ("ref", "Reference_Implementation/lib/nist", "Reference_Implementation/lib/nist"),
          "optimised": ("avx2", "Optimized_Implementation/avx2/lib/nist", "Optimized_Implementation/avx2/lib/nist"),
          "utilities ref": ("ref", "Utilities/KAT_Generation/lib", "Utilities/KAT_Generation/include"),
          "utilities avx2": ("avx2", "Utilities/KAT_Generation/lib", "Utilities/KAT_Generation/include")}
def paths(copy):
    i, c, h = COPIES[copy]; return i, os.path.join(R, c), os.path.join(R, h)
def deps(copy):
    i, c, h = paths(copy); return vbuild.tree_hash(sorted(set(glob.glob(os.path.join(c, "*.[ch]")) + glob.glob(os.path.join(h, "*.h")))))
def exe(copy, s, variant="rel"):
    i, c, h = paths(copy)
    src = sorted(f for f in glob.glob(os.path.join(c, "*.c")))
    if not src: raise vbuild.BuildError("no KAT sources in " + c)
    return vbuild.build_exe("kat", i, s, variant, [], extra_flags=["-I", h, "-DVK_DEPS=1" + deps(copy)[:8].translate(str.maketrans("abcdef", "123456"))], libs=["-lcrypto"], extra_src=src, pre=["-include", "openssl/evp.h", "-include", "openssl/conf.h", "-include", "openssl/err.h"])
def drbg(copy):
    i, c, h = paths(copy); sh = [os.path.join(vbuild.SHIM, x) for x in ("vk_drbg.c", "vk_drbg_ctr.c")]; src = [f for f in sorted(glob.glob(os.path.join(c, "*.c"))) if "main(" not in open(f).read()]
    def build(d):
        have = []
        for f in src + sh:
            o = os.path.join(d, f"{len(have)}-{os.path.basename(f)}.o"); r = vbuild.run(["gcc", "-O2", "-w", "-fPIC", "-std=gnu11", "-Werror=implicit-function-declaration", "-I", h, "-I", os.path.join(vbuild.impl_dir(i), "include")] + vbuild.setdefs("1_BALANCED") + ["-c", f, "-o", o])
            if r.returncode and f not in sh: raise vbuild.BuildError(f"{f}: {r.stderr[-1500:]}")
            if r.returncode == 0: have.append((f, o))
        objs = [o for f, o in have]
        while True:
            r = vbuild.run(["gcc", "-shared", "-Wl,-Bsymbolic", "-Wl,--no-undefined", "-o", os.path.join(d, "lib.so")] + objs + ["-lcrypto"])
            if r.returncode == 0 or not any("vk_" in o for o in objs): break
            objs.pop()      # a shim that does not fit this tree is left out
        if r.returncode: raise vbuild.BuildError(r.stderr[-1500:])
    return os.path.join(vbuild.keyed("drbg", [copy, deps(copy), vbuild.tree_hash(sh), "v2"], build), "lib.so")
def model():
    src = os.path.join(vbuild.VERIF, "model", "aes_model.c")
    def build(d):
        r = vbuild.run(["gcc", "-O3", "-fPIC", "-shared", "-o", os.path.join(d, "aes.so"), src])
        if r.returncode: raise vbuild.BuildError(r.stderr)
    L = C.CDLL(os.path.join(vbuild.keyed("aes", [vbuild.tree_hash([src])], build), "aes.so"))
    for n in "ma_aes256 ma_drbg_init ma_drbg_bytes ma_expand".split(): getattr(L, n).restype = None
    o = buf(16); k, p = arr(bytes(range(32))), arr(bytes.fromhex("00112233445566778899aabbccddeeff")); L.ma_aes256(ptr(k), ptr(p), ptr(o))
    assert o.tobytes().hex() == "8ea2b7ca516745bfeafc49904b496089", "the AES model is wrong"      # FIPS 197 C.3
    return L
class Drbg:
    def __init__(self, entropy, pers=None):
        self.L = model(); self.d = buf(48); e, p = arr(entropy), None if pers is None else arr(pers); self.L.ma_drbg_init(ptr(self.d), ptr(e), None if p is None else ptr(p))
    def bytes(self, n): o = buf(n); self.L.ma_drbg_bytes(ptr(self.d), ptr(o), C.c_uint64(n)); return o[:n].tobytes()
def inputs():
    d = Drbg(bytes(range(48))); out = []
    for i in range(100): sd = d.bytes(48); out.append((sd, d.bytes(33 * (i + 1))))
    return out
def entry(s, i, sd, m):
    M = Model(s); c = M.rng(sd); pk, sk = M.keygen(c); return pk, sk, M.sign(c, m, sk)
def expected(s, n):
    """the first n entries of the response file as the specification gives them"""
    return honest.cached(f"kat{n}", s, "1", lambda: [(sd, m) + entry(s, i, sd, m) for i, (sd, m) in enumerate(inputs()[:n])])
def need(s): return 100 if "~" in s or s[0] == "1" else {"3": 8, "5": 3}[s[0]]
