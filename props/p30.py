"""Benchmark programs and the memory report: every operation the programs execute is recorded with its result, and the report script reads generated massif files whose peaks are known."""
from api import *
import ast, collections, glob, os, re, shutil, subprocess, tempfile, time
from props.p27 import PROGRAMS
RULE = ("one case = one operation executed by a benchmark program (recorded with its keys and result), or one (massif file, reported figure) pair compared with the largest stack written to that file; "
        "non-trivial and distinct = distinct (program, build, operation) or file contents")
R = vbuild.REPO; MEM = os.path.join(R, "Utilities/MemoryBenchmarking")
BENCH = {k: v for k, v in PROGRAMS.items()}
for i in vbuild.IMPLS:
    for p in ("keygen", "sign", "verify", "benchmark"): BENCH[f"memory {p} {i}"] = (i, f"Utilities/MemoryBenchmarking/lib/less_{p}.c", "Utilities/MemoryBenchmarking/include")
METHODS = ("keygen", "sign", "verify")
def tasks(tier, seed):
    th = tier == "thorough"; out = []
    for c in BENCH: out += [{"label": f"program {c} {s}", "fn": "program", "args": {"name": c, "s": s}, "est": 5} for s in progsets(c, tier)]
    out += [{"label": f"report {k}", "fn": "report", "args": {"n": 400 if th else 25, "refused": k % 2 == 1}, "est": 4} for k in range(8 if th else 4)]
    out += [{"label": f"table {k}", "fn": "table", "args": {"n": 150 if th else 12}, "est": 3} for k in range(4 if th else 1)]
    return out + [{"label": f"massif {m} {i}", "fn": "massif", "args": {"impl": i, "m": m}, "est": 5 if i == "avx2" else 35} for i in (vbuild.IMPLS if th else ["avx2"]) for m in METHODS]
def progsets(c, tier):
    if tier == "thorough": return [vbuild.scaled(b, 14, 4) for b in FULL] + (["1_SHORT_SIG"] if "avx2" in c or c == "optimised" else [])
    j = list(BENCH).index(c); return [vbuild.scaled(FULL[j % 3], 14, 4)] + ([vbuild.scaled(FULL[3 + j % 4], 6, 2)] if c not in PROGRAMS else [])
def builds(tier, t): return [lambda c=c, s=s: exe(c, s) for c in BENCH for s in progsets(c, tier)] + [lambda i=i, m=m: plain(i, m) for i in (vbuild.IMPLS if tier == "thorough" else ["avx2"]) for m in METHODS]
def extra(name):
    i, f, inc = BENCH[name]; f = os.path.join(R, f); inc = os.path.join(R, inc) if inc else None
    tag = vbuild.tree_hash([f] + (glob.glob(os.path.join(inc, "*.h")) if inc else []))[:8].translate(str.maketrans("abcdef", "123456")); return i, f, (["-I", inc] if inc else []) + [f"-DVK_DEPS=1{tag}"]
def exe(name, s):
    """None if the recorder does not fit this tree's internal interface"""
    i, f, fl = extra(name)
    try: return vbuild.build_exe("recorded", i, s, "rel", ["h_bench.c"], extra_flags=fl, extra_src=[f], wrap=["LESS_keygen", "LESS_sign", "LESS_verify"])
    except vbuild.BuildError as e:
        if "h_bench" in str(e): return None
        raise
def plain(impl, m):
    i, f, fl = extra(f"memory {m} {impl}"); return vbuild.build_exe("massif", i, vbuild.scaled("1_SHORT_SIG", 14, 4), "plain0", [], extra_flags=fl + ["-O2"], extra_src=[f])

def program(W, name, s):
    e = exe(name, s); kind = name.split()[1] if name.startswith("memory") else "benchmark"
    if e is None: W.note("the operations of the benchmark programs cannot be recorded in this build of the tree"); return
    with tempfile.TemporaryDirectory() as d:
        log = os.path.join(d, "log"); W.at(op="program", program=name, set=s)
        p = subprocess.run([e], capture_output=True, text=True, timeout=400, stdin=subprocess.DEVNULL, env=dict(os.environ, VB_LOG=log), cwd=d); t = [l.split() for l in open(log)] if os.path.exists(log) else []
    W.check(p.returncode == 0, f"benchmark program fails:{name}", set=s, code=p.returncode, output=(p.stdout + p.stderr)[-500:])
    n = collections.Counter(x[0] for x in t); W.check(t and t[0][0] == "keygen", f"benchmark program works without a generated key:{name}", set=s, operations=dict(n), first=t[:3])
    want = {"keygen": METHODS[:1], "sign": METHODS[1:2], "verify": METHODS[2:], "benchmark": METHODS}[kind]
    for op in want: W.check(n[op] >= 2, f"benchmark program does not repeat the operation it measures:{name}", set=s, operation=op, operations=dict(n))
    for op in METHODS:
        if op not in want: W.check(n[op] <= 1, f"benchmark program measures one operation and executes another repeatedly:{name}", set=s, operation=op, operations=dict(n))
    if len(want) == 1 and want[0] != "verify": W.check(n["verify"] == 0, f"benchmark program measures one operation and executes another:{name}", set=s, operations=dict(n))
    if kind == "keygen": W.check(n["sign"] == 0, f"benchmark program measures one operation and executes another:{name}", set=s, operations=dict(n))
    sk = pk = None; keys = set()
    for j, x in enumerate(t):
        W.case(name, s, j, x[0]); W.count(f"recorded operations: {x[0]}")
        if x[0] == "keygen": sk, pk = x[1:3]; W.check(sk not in keys, f"benchmark program generates the same key again:{name}", set=s, operation=j); keys.add(sk)
        elif x[0] == "sign": W.check(x[1] == sk, f"benchmark program signs with a key it did not generate:{name}", set=s, operation=j)
        else: W.check(x[1] == pk and x[3] == "1", f"benchmark program measures the verification of something that is not a valid signature:{name}", set=s, operation=j, result=x[3], own_key=x[1] == pk)
    fig = re.findall(r"(?<![\w.])([\d.]+),([\d.]+)(?![\w.])", p.stdout); W.check(len(fig) >= len(want), f"benchmark program does not report what it measured:{name}", set=s, output=p.stdout[-400:])
    if kind == "benchmark":
        M = Model(s); out = p.stdout + p.stderr
        for what, pat, v in (("private key size", r"Private key: (\d+)", M.sk_bytes), ("public key size", r"Public key:? (\d+)", M.pk_bytes), ("signature size", r"Signature: (\d+)", M.sig_max), ("rounds", r"vector: (\d+) rounds", M.T), ("weight", r"rounds, weight (\d+)", M.W), ("n", r"n= (\d+)", M.N), ("k", r"k= (\d+)", M.K), ("key pairs", r"num. keypairs = (\d+)", M.kp)):
            g = re.search(pat, out)
            if g: W.check(int(g.group(1)) == v, f"benchmark program prints a wrong {what}:{name}", set=s, printed=g.group(1), actual=v); W.count("printed parameters compared")
    W.sample(program=name, set=s, operations=dict(n))

FIELDS = ("desc", "cmd", "time_unit")
def tree(rng, depth, total):
    n = int(rng.integers(0, 4)) if depth < 4 else 0; pad = " " * depth; kind = int(rng.integers(4))
    what = ("(heap allocation functions) malloc/new/new[], --alloc-fns, etc." if depth == 0 else f"0x{int(rng.integers(1 << 40)):X}: f{int(rng.integers(100))} (file{int(rng.integers(9))}.c:{int(rng.integers(1, 999))})" if kind == 0 else f"0x{int(rng.integers(1 << 40)):X}: main (in /usr/lib/x.so)" if kind == 1
            else f"in {int(rng.integers(2, 20))} places, all below massif's threshold (1.00%)" if kind == 2 else f"0x{int(rng.integers(1 << 40)):X}: ???")
    if kind == 2 and depth: n = 0
    return [f"{pad}n{n}: {total} {what}"] + [l for _ in range(n) for l in tree(rng, depth + 1, int(rng.integers(0, total + 1)))]
def massif_file(rng, big):
    """contents of a massif file, and the largest stack in it; heap and extra figures are larger or smaller than the stack's"""
    n = int(rng.integers(1, 60)); lines = [f"desc: --stacks=yes --massif-out-file=x", "cmd: ./build/bin/x y", "time_unit: " + ("i", "ms", "B")[int(rng.integers(3))]]; top = 0; t = 0; ids = 0; peak = int(rng.integers(n + 1)); kind = int(rng.integers(6))
    stacks = rng.integers(0, 1 << int(rng.integers(1, 40 if big else 22)), n)
    if kind == 0: stacks = np.sort(stacks)
    if kind == 1: stacks = np.sort(stacks)[::-1]
    if kind == 2: stacks[:] = stacks[0]
    if kind == 3: stacks[rng.random(n) < .8] = 0
    for k in range(n):
        if rng.random() < .9: lines.append("#-----------")
        lines.append(f"snapshot={ids}"); ids += 1
        if rng.random() < .9: lines.append("#-----------")
        t += int(rng.integers(0, 1 << 30)); heap = int(rng.integers(0, 1 << int(rng.integers(1, 40)))); lines += [f"time={t}", f"mem_heap_B={heap}", f"mem_heap_extra_B={int(rng.integers(0, 1 << 20))}", f"mem_stacks_B={int(stacks[k])}"]
        if k == peak: lines += ["heap_tree=peak"] + tree(rng, 0, heap)
        elif rng.random() < .3: lines += ["heap_tree=detailed"] + tree(rng, 0, heap)
        else: lines.append("heap_tree=empty")
    return lines, int(stacks.max())
def run_report(d):
    p = subprocess.run(["python3", "-B", "-W", "ignore", "bench.py"], cwd=d, capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL); v = None
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            try: v = ast.literal_eval(l)
            except (ValueError, SyntaxError): pass
    return p, v
def scratch(d):
    shutil.copy(os.path.join(MEM, "bench.py"), d); os.mkdir(os.path.join(d, "build"))
    with open(os.path.join(d, "bench.sh"), "w") as f: f.write("#!/bin/sh\nexit 0\n")      # the script's own build step is not wanted here
    os.chmod(os.path.join(d, "bench.sh"), 0o755)
def report(W, n, refused):
    """the report over a directory of generated massif files; truncated files must not be reported"""
    rng = W.rng
    for _ in range(n):
        with tempfile.TemporaryDirectory() as d:
            scratch(d); want = {}; names = [(s, m) for s in FULL for m in METHODS]; some = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]; cut = None
            for j, (s, m) in enumerate(some):
                lines, top = massif_file(rng, j % 2); want[s, m] = top; body = "\n".join(lines) + "\n"
                if refused and j == 0:
                    at = [k for k, l in enumerate(lines) if l.startswith("snapshot=")]; k = at[int(rng.integers(len(at)))]; cut = lines[:k + int(rng.integers(1, 5))]
                    while cut[-1].startswith("#"): cut.pop()
                    body = "\n".join(cut) + "\n"
                with open(os.path.join(d, "build", f"LESS_memory_{s}_{m}.massif"), "w") as f: f.write(body)
            W.at(op="report", files=len(some), truncated=refused); p, v = run_report(d)
        if refused: W.check(p.returncode != 0 and v is None, "a truncated massif file is reported instead of being refused", file="\n".join(cut[-12:]), reported=str(v)); W.case("cut", "\n".join(cut)); W.count("truncated files refused"); continue
        W.check(p.returncode == 0 and isinstance(v, dict), "the memory report fails on well-formed massif files", code=p.returncode, output=(p.stdout + p.stderr)[-700:])
        if not isinstance(v, dict): continue
        for s, m in names:
            c, kind = s.split("_", 1); got = v.get(int(c), {}).get(kind, {}).get(m); W.check(got == want.get((s, m), 0), "the memory report is not the largest stack of the operation's massif file", set=s, operation=m, reported=got, largest=want.get((s, m), 0), files=len(some)); W.case(s, m, want.get((s, m), 0)); W.count("reported figures compared")
ROWS = ("Key generation", "Signature", "Verification")
def table(W, n):
    """the table over programs whose reports are known; one that stops early must not inherit its predecessor's figures"""
    rng = W.rng; sh = os.path.join(R, "Utilities/Benchmarking/bench.sh")
    if not os.path.exists(sh): W.note("the script that tabulates benchmark reports is not there"); return
    num = lambda: f"{rng.random() * 10 ** rng.integers(0, 10):.2f}"
    for _ in range(n):
        with tempfile.TemporaryDirectory() as d:
            shutil.copy(sh, d); b = os.path.join(d, "build", "bin"); os.makedirs(b); want = {}; W.at(op="table")
            for s in [FULL[i] for i in sorted(rng.permutation(len(FULL))[:int(rng.integers(1, len(FULL) + 1))])]:
                v = [num() for _ in ROWS]; k = int(rng.integers(3)) if rng.random() < .25 else 3; sp = (" ", " ", "")
                lines = ["LESS reference implementation benchmarking tool", f"Gaussian elimination kCycles (avg,stddev):{num()},{num()}", f"Code parameters: n= {int(rng.integers(1, 999))}, k= 126, q=127", "Computing number of clock cycles as the average of 8 runs", f"Signature: {int(rng.integers(9999))}B, 8.4", "Timings (kcycles):"]
                lines += [f"{r} kCycles (avg,stddev):{sp[j]}{v[j]},{num()}" for j, r in enumerate(ROWS[:k])] + (["Keygen-Sign-Verify: functional"] if k == 3 else []); name = f"LESS_benchmark_cat_{s}"; want[name] = v[:k] + ["0"] * (3 - k)
                with open(os.path.join(b, name), "w") as f: f.write("#!/bin/sh\ncat <<'X'\n" + "\n".join(lines) + f"\nX\nexit {0 if k == 3 else 1}\n")
                os.chmod(os.path.join(b, name), 0o755)
            p = subprocess.run(["bash", "bench.sh"], cwd=d, capture_output=True, text=True, timeout=120, stdin=subprocess.DEVNULL); got = {}
        for l in p.stdout.splitlines():
            c = [x.strip() for x in l.split("|")]; got[os.path.basename(c[0])] = c[1:]
        for name, w in want.items():
            W.check(got.get(name) is not None and [float(x or 0) for x in got[name]] == [float(x) for x in w], "the benchmark table gives other figures than the program reported", program=name, table=got.get(name), reported=w, output=p.stdout[-600:]); W.case("table", name, *w); W.count("table rows compared"); W.count("table rows of programs that stop early", int("0" in w))
def massif(W, impl, m):
    """a real measurement: the program under massif, the report, and the stack the operation was seen to use natively"""
    s = "1_SHORT_SIG"; e = plain(impl, m)
    with tempfile.TemporaryDirectory() as d:
        scratch(d); f = os.path.join(d, "build", f"LESS_memory_{s}_{m}.massif"); W.at(op="massif", program=m, impl=impl)
        p = subprocess.run(["valgrind", "--tool=massif", "--detailed-freq=1", "--max-snapshots=1000", "--stacks=yes", "--main-stacksize=100000000", "--max-stackframe=184121216", f"--massif-out-file={f}", e], capture_output=True, text=True, timeout=400, stdin=subprocess.DEVNULL)
        if p.returncode or not os.path.exists(f) or "illegal instruction" in p.stderr.lower() or "unrecognised instruction" in p.stderr.lower(): W.note(f"massif did not run the {impl} program of {m}"); W.count("massif runs left out"); return
        tops = [int(x) for x in re.findall(r"^mem_stacks_B=(\d+)$", open(f).read(), re.M)]; p, v = run_report(d)
    W.check(p.returncode == 0 and v is not None, "the memory report fails on a massif file", output=(p.stdout + p.stderr)[-700:]); got = (v or {}).get(1, {}).get("SHORT_SIG", {}).get(m)
    W.check(got == max(tops), "the memory report is not the largest stack of the operation's massif file", program=m, impl=impl, reported=got, largest=max(tops)); W.case("massif", impl, m); W.count("massif measurements"); W.sample(impl=impl, program=m, snapshots=len(tops), reported=got)
