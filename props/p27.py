"""Benchmark statistics: mean, deviation and Welch's t of each copy against exact rational arithmetic, and the benchmark programs' reports."""
from api import *
import glob, math, os, re, subprocess, time
import ctypes as C
from fractions import Fraction as F
from vimpl import arr, buf, ptr
RULE = ("one case = one sequence of samples given to one copy of the statistics, whose mean, standard deviation, printed report and t statistic against another sequence are compared with exact rational arithmetic, "
        "or one line of a benchmark program's report; non-trivial and distinct = distinct (copy, sequence) or report line")
ASSUMPTIONS = ["'to within rounding' is taken as 64 n units in the last place of a double times the largest sample, which the exact update satisfies with room and a cancelling formula does not"]
R = vbuild.REPO
COPIES = {"reference": ("ref", "Reference_Implementation/lib/bench/less_benchmark.c"), "optimised": ("avx2", "Optimized_Implementation/avx2/lib/bench/less_benchmark.c"),
          "utilities": ("ref", "Utilities/Benchmarking/include/timing_and_stat.h"), "utilities memory": ("ref", "Utilities/MemoryBenchmarking/include/timing_and_stat.h")}
PROGRAMS = {"reference": ("ref", "Reference_Implementation/lib/bench/less_benchmark.c", None), "optimised": ("avx2", "Optimized_Implementation/avx2/lib/bench/less_benchmark.c", None),
            "utilities ref": ("ref", "Utilities/Benchmarking/lib/less_benchmark.c", "Utilities/Benchmarking/include"), "utilities avx2": ("avx2", "Utilities/Benchmarking/lib/less_benchmark.c", "Utilities/Benchmarking/include")}
def tasks(tier, seed):
    th = tier == "thorough"; out = []
    for c in COPIES: out.append({"label": f"statistics {c}", "fn": "statistics", "args": {"copy": c, "seconds": 240 if th else 8}, "est": 10}); out.append({"label": f"long {c}", "fn": "long", "args": {"copy": c, "n": (1 << 32) + 10 if th else (1 << 31) + 1000}, "est": 15})
    for c in PROGRAMS:
        for b in FULL if th else ["1_SHORT_SIG", FULL[3 + (seed + list(PROGRAMS).index(c)) % 4]]: out.append({"label": f"program {c} {b}", "fn": "program", "args": {"copy": c, "s": vbuild.scaled(b, 14, 4)}, "est": 6})
    return out
def builds(tier, t): return [lambda c=c: lib(c) for c in COPIES] + [lambda c=c, s=s: exe(c, s) for c, s in sorted({(a["args"]["copy"], a["args"]["s"]) for a in t if a["fn"] == "program"})]
def lib(copy):
    """None if the copy's statistics do not have the interface the shim needs"""
    i, f = COPIES[copy]; f = os.path.join(R, f); sh = os.path.join(vbuild.SHIM, "vk_stat.c"); inc = os.path.dirname(f); hs = glob.glob(os.path.join(inc, "*.h"))
    def build(d):
        flags = ["gcc", "-O3", "-w", "-march=native", "-fPIC", "-std=gnu11", "-Werror=implicit-function-declaration", "-I", os.path.join(vbuild.impl_dir(i), "include"), "-I", inc] + vbuild.ARCH[i] + vbuild.setdefs("1_BALANCED"); objs = []
        for k, (src, more) in enumerate([(sh, [f'-DVW_FILE="{f}"'])] + [(x, []) for x in vbuild.sources(i)]):
            o = os.path.join(d, f"{k}.o"); objs.append(o); r = vbuild.run(flags + more + ["-c", src, "-o", o])
            if r.returncode and k: raise vbuild.BuildError(f"{src}: {r.stderr[-1500:]}")
            if r.returncode: open(os.path.join(d, "misfit"), "w").write(r.stderr[-3000:]); return
        r = vbuild.run(["gcc", "-shared", "-Wl,-Bsymbolic", "-Wl,--no-undefined", "-o", os.path.join(d, "lib.so")] + objs + ["-lm"])
        for o in objs: os.unlink(o)
        if r.returncode: open(os.path.join(d, "misfit"), "w").write(r.stderr[-3000:])
    d = vbuild.keyed("stat", [copy, vbuild.impl_hash(i), vbuild.tree_hash([f, sh] + hs), "v1"], build); so = os.path.join(d, "lib.so")
    return so if os.path.exists(so) else None
def exe(copy, s):
    i, f, inc = PROGRAMS[copy]; f = os.path.join(R, f); inc = os.path.join(R, inc) if inc else None
    tag = vbuild.tree_hash([f] + (glob.glob(os.path.join(inc, "*.h")) if inc else []))[:8].translate(str.maketrans("abcdef", "123456"))
    return vbuild.build_exe("bench", i, s, "rel", [], extra_flags=(["-I", inc] if inc else []) + [f"-DVK_DEPS=1{tag}"], extra_src=[f])
U = F(1, 1 << 53)
def exact(xs):
    n = len(xs); ints = [F(float(x)) for x in xs]; m = sum(ints) / n; return n, m, sum((x - m) ** 2 for x in ints) / (n - 1), max(abs(x) for x in ints)
def root(v):
    """sqrt of a rational to 80 bits or more"""
    if v == 0: return F(0)
    e = 200 + max(0, (v.denominator.bit_length() - v.numerator.bit_length())); return F(math.isqrt((v.numerator << (2 * e)) // v.denominator), 1 << e)
def sequences(rng):
    while True:
        k = int(rng.integers(9)); n = int([2, 2, 3, 4, 5, 7, 10, 24, 100, 256][int(rng.integers(10))]); sc = 2.0 ** int(rng.integers(-40, 60))
        if k == 0: x = np.full(n, sc * rng.random())
        elif k == 1: x = sc * (2.0 ** int(rng.integers(20, 50)) + rng.integers(0, 4, n))          # a large offset, a tiny spread
        elif k == 2: x = sc * rng.standard_normal(n)
        elif k == 3: x = np.where(rng.random(n) < .5, sc, -sc) * rng.random()
        elif k == 4: x = sc * rng.integers(0, 1 << 30, n) / 1000.0                                # cycle counts as the programs feed them
        elif k == 5: x = sc * np.exp(rng.normal(0, 8, n))
        elif k == 6: x = np.sort(sc * rng.random(n))[::1 if rng.integers(2) else -1]
        elif k == 7: x = np.zeros(n); x[int(rng.integers(n))] = sc                              # one outlier
        else: x = -sc * (1 + 2.0 ** -30 * rng.integers(0, 3, n))
        yield k, np.ascontiguousarray(x, np.float64)
def load(W, copy):
    so = lib(copy)
    if so is None: W.note(f"the statistics of the {copy} copy do not fit the shim: only the programs' reports were judged"); return None
    L = C.CDLL(so); L.vw_t.restype = C.c_double; return L
def two(f, k): o = np.zeros(2); f(k, ptr(o)); return (float(o[0]), float(o[1]))
def val(p): return F(p[0]) + F(p[1])
def finite(p): return all(math.isfinite(v) for v in p)
def statistics(W, copy, seconds):
    L = load(W, copy)
    if not L: return
    t0 = time.time(); it = sequences(W.rng); held = {}; cnt = 0
    while cnt < 60 or time.time() - t0 < seconds:
        k, x = next(it); slot = int(W.rng.integers(4)); L.vw_init(slot); parts = np.sort(W.rng.integers(0, len(x) + 1, int(W.rng.integers(0, 3)))); at = 0; W.at(op="update", copy=copy, kind=k, samples=x[:40].tolist())
        for p in list(parts) + [len(x)]: seg = np.ascontiguousarray(x[at:p]) if p > at else np.zeros(1); L.vw_update(slot, ptr(seg), C.c_long(int(p) - at)); at = int(p)
        n, m, v, X = e = exact(x); sd = root(v); tol = 64 * n * U * X; gm, gs = two(L.vw_mean, slot), two(L.vw_dev, slot); d = dict(copy=copy, kind=k, samples=x[:40].tolist(), n=n); cnt += 1; W.case(copy, x.tobytes()); W.count("sequences judged"); W.count(f"sequences of kind {k}")
        W.check(finite(gm) and abs(val(gm) - m) <= tol, f"mean is not the samples' mean:{copy}", got=gm[0], expected=float(m), **d)
        W.check(finite(gs) and abs(val(gs) - sd) <= tol, f"standard deviation is not the samples' standard deviation:{copy}", got=gs[0], expected=float(sd), **d)
        if k == 0: W.check(gs == (0.0, 0.0), f"constant samples have a deviation:{copy}", got=gs[0], **d)
        if X and finite(gm): W.high("largest error of a mean, in 2^-53 of the largest sample x1000", float(abs(val(gm) - m) / X / U) * 1000)
        if X < 10 ** 15 and cnt % 5 == 0:
            o = buf(400); l = L.vw_print(slot, ptr(o), 400); t = o[:l].tobytes().decode("ascii", "replace"); q = t.strip().split(","); ok = len(q) == 2
            try: ok = ok and abs(F(q[0]) - m) <= F(6, 1000) + tol and abs(F(q[1]) - sd) <= F(6, 1000) + tol
            except ValueError: ok = False
            W.check(ok, f"printed report is not mean and deviation:{copy}", printed=t, mean=float(m), deviation=float(sd), **d); W.count("printed reports judged")
        held[slot] = (e, sd, x)
        for o in held:
            if o == slot: continue
            (n2, m2, v2, X2), sd2, y = held[o]; s = v / n + v2 / n2; big = max(X, X2)
            a, b = L.vw_t(slot, o), L.vw_t(o, slot)
            if s == 0 or root(s) * (1 << 20) < big: continue        # nothing can be asked of a ratio of rounding errors
            t = (m - m2) / root(s); tl = 256 * (n + n2) * U * (big / root(s)) * (1 + abs(t)) * (1 + big / root(s)); W.at(op="t", copy=copy); W.count("t statistics judged"); W.case("t", copy, x.tobytes(), y.tobytes())
            W.check(math.isfinite(a) and abs(F(a) - t) <= tl, f"t statistic is not Welch's:{copy}", got=a, expected=float(t), tolerance=float(tl), first=x[:30].tolist(), second=y[:30].tolist()); W.check(math.isfinite(b) and abs(F(a) + F(b)) <= U * 8 * abs(F(a)), f"t statistic is not antisymmetric:{copy}", one=a, other=b, first=x[:30].tolist(), second=y[:30].tolist())
    W.sample(copy=copy, kind=k, samples=x[:6].tolist(), mean=gm[0], deviation=gs[0])
def long(W, copy, n):
    """sequences longer than small counters hold"""
    L = load(W, copy)
    if not L: return
    rng = W.rng
    for n_ in (70000, (1 << 24) + 5, n):
        a = float(rng.integers(1, 1 << 20)) / 8; b = a + float(rng.integers(1, 1 << 16)) / 8; W.at(op="long", copy=copy, n=n_, a=a, b=b); L.vw_init(0); L.vw_pair(0, C.c_double(a), C.c_double(b), C.c_long(n_)); na, nb = (n_ + 1) // 2, n_ // 2
        m = (na * F(a) + nb * F(b)) / n_; v = (na * (F(a) - m) ** 2 + nb * (F(b) - m) ** 2) / (n_ - 1); gm, gs = two(L.vw_mean, 0), two(L.vw_dev, 0); tol = F(b) * F(1, 1 << 20)
        W.check(finite(gm) and abs(val(gm) - m) <= tol, f"mean of a long sequence is wrong:{copy}", got=gm[0], expected=float(m), n=n_); W.check(finite(gs) and abs(val(gs) - root(v)) <= tol, f"deviation of a long sequence is wrong:{copy}", got=gs[0], expected=float(root(v)), n=n_); W.case(copy, n_, a, b); W.count("long sequences judged"); W.high("longest sequence", n_)
def program(W, copy, s):
    """every figure a benchmark program prints is a finite, non-negative mean and deviation, and the timed calls work"""
    W.at(op="program", copy=copy, set=s); p = subprocess.run([exe(copy, s)], capture_output=True, text=True, timeout=300, stdin=subprocess.DEVNULL); t = p.stdout + p.stderr; W.check(p.returncode == 0, f"benchmark program fails:{copy}", code=p.returncode, set=s, output=t[-600:])
    W.check("not functional" not in t and "functional" in t, f"benchmark program finds the scheme not functional:{copy}", set=s, output=t[-600:])
    fig = re.findall(r"(?<![\w.])(-?[\d.]+|-?nan|-?inf),(-?[\d.]+|-?nan|-?inf)(?![\w.])", p.stdout, re.I); W.check(len(fig) >= 4, f"benchmark program does not report its figures:{copy}", set=s, output=t[-600:])
    for a, b in fig:
        W.case(copy, s, a, b); W.count("reported figures judged")
        W.check(math.isfinite(float(a)) and math.isfinite(float(b)) and float(a) > 0 and float(b) >= 0, f"benchmark program reports an impossible figure:{copy}", mean=a, deviation=b, set=s)
    # deviation over mean is at most sqrt(n) for non-negative samples
    n = re.search(r"average of (\d+) runs", t); n = int(n.group(1)) if n else None
    if n:
        for a, b in fig: W.check(float(b) <= float(a) * math.sqrt(n) * 1.01 + .02, f"benchmark program reports a deviation its samples cannot have:{copy}", mean=a, deviation=b, runs=n, set=s)
    W.sample(copy=copy, set=s, figures=fig[:4], runs=n)
