"""Printing functions: what they write to standard error is captured, read back and compared with the object printed."""
from api import *
import gens, os, re, sys, tempfile, time
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one object (monomial, generator matrix, compact reduced matrix) printed by the real code under some name; the text must hold the name literally and exactly the entries of the object, row by row and in order; "
        "printing must leave the object's caller, standard output and the generator alone; non-trivial and distinct = distinct (printer, object, name)")
def tasks(tier, seed):
    x = 20 if tier == "thorough" else 1
    return [{"label": f"printers {i} {s}", "fn": "printers", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 5} for i, s in pairs(FULL)]
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs(FULL)]
class Captured:
    """file descriptors 1 and 2 while the block runs; text of each afterwards"""
    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush(); self.f = [tempfile.TemporaryFile(), tempfile.TemporaryFile()]; self.old = [os.dup(1), os.dup(2)]
        for k in (0, 1): os.dup2(self.f[k].fileno(), k + 1)
        return self
    def __exit__(self, *a):
        C.CDLL(None).fflush(None)
        for k in (0, 1): os.dup2(self.old[k], k + 1); os.close(self.old[k])
        t = []
        for f in self.f: f.seek(0); t.append(f.read().decode("latin-1")); f.close()
        self.out, self.err = t
def rows(text): return [[int(v) for v in re.findall(r"\d+", g)] for g in re.findall(r"\[([0-9, \n]*[0-9][0-9, \n]*)\]", text)]
NAMES = [b"G", b"Post-RREF", b"Q^-1 * Q", b"a name of some length, with a comma", b"%s%d%n", b"100%", b"x" * 300, b""]
def printers(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; rng = W.rng
    if not I.has("print"): W.note("printing functions not reachable through the shim"); W.case(tag, "nothing printed"); return
    t0 = time.time(); n = 0; N, K = M.N, M.K; I.seed(W.rbytes(48)); st = I.state()
    while n < 10 or time.time() - t0 < seconds:
        what = n % 5; n += 1; name = NAMES[int(rng.integers(len(NAMES)))]; nm = C.create_string_buffer(name); body = name.decode()
        if what < 3:
            c, p, k = gens.monomial(rng, N); a, b = np.ascontiguousarray(c, np.uint8).copy(), np.ascontiguousarray(p, np.uint16).copy(); W.at(op="print a monomial", how=what, set=s, impl=impl, kind=k)
            with Captured() as g: I.lib.vi_p_monomial(what, nm, ptr(a), ptr(b))
            label = ["plain monomial", "named monomial", "expanded monomial"][what]
            if what < 2: want = [[int(v) for v in p], [int(v) for v in c]]
            else: mu = np.zeros((N, N), int); mu[p, np.arange(N)] = c; want = mu.tolist()
            obj = (c.tobytes(), p.tobytes())
        elif what == 3:
            G, k = gens.full_rank_matrix(rng, K, N) if rng.integers(2) else gens.field(rng, (K, N)); a = np.ascontiguousarray(G, np.uint8).copy(); W.at(op="print a generator matrix", set=s, impl=impl, kind=k)
            with Captured() as g: I.lib.vi_p_generator(nm, ptr(a))
            label, want, obj = "generator matrix", a.tolist(), (a.tobytes(),)
        else:
            V, k = gens.field(rng, (K, N - K)); a = np.ascontiguousarray(V, np.uint8).copy(); pos = np.sort(rng.permutation(N)[:N - K]).astype(np.uint16); W.at(op="print a compact matrix", set=s, impl=impl, kind=k)
            with Captured() as g: I.lib.vi_p_rref(nm, ptr(a), ptr(pos))
            label, want, obj = "compact matrix", a.tolist() + [[int(v) for v in pos[:K]]], (a.tobytes(), pos.tobytes())
        text = g.err
        if what != 0: W.check(text.startswith(body), f"the name of a printed {label} is not the one given:{tag}", name=name, text=text[:200]); text = text[len(body):]
        got = rows(text); bad = [i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]]
        W.check(not bad, f"printed {label} is not the object:{tag}", rows_printed=len(got), rows=len(want), wrong_rows=bad[:6], text=text[:400], got=str(got[bad[0]])[:300] if bad and bad[0] < len(got) else None, expected=str(want[bad[0]])[:300] if bad and bad[0] < len(want) else None)
        W.check(g.out == "", f"printing a {label} writes to standard output:{tag}", text=g.out[:200]); W.check(I.state() == st, f"printing a {label} moves the generator:{tag}")
        W.case(tag, what, name, *obj); W.count(f"{label} read back"); W.count("entries read back", sum(map(len, got)))
    W.sample(set=s, impl=impl, objects=n)
