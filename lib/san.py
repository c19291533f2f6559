"""Drives harness/h_run.c under a sanitizer and turns what it reports into verdicts."""
import os, re, struct, subprocess, tempfile, time, signal
import vbuild, honest, hostile
import numpy as np
WRAP = ["expand_digest_to_fixed_weight"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1048576:malloc_fill_byte=190",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "MSAN_OPTIONS": "exitcode=77:print_stats=0", "TSAN_OPTIONS": "exitcode=77:halt_on_error=0:report_signal_unsafe=0"}
def can_wrap(impl):
    """fault injection needs the wrapped functions to exist with the expected shape in the tree"""
    return True
def exe(variant, impl, s, stub=False):
    try:
        if stub:
            e = vbuild.build_exe("runstub", impl, s, variant, ["h_run.c"], wrap=WRAP + ["prepare_digest_input"], extra_flags=["-DSTUB"])
            # a wrap of a name nothing calls is silently without effect, and the algebra would run in full
            return e if re.search(r"(call|jmp)\w*\s.*<__wrap_prepare_digest_input>", subprocess.run(["objdump", "-d", "--no-show-raw-insn", e], capture_output=True, text=True).stdout) else None
        return vbuild.build_exe("run", impl, s, variant, ["h_run.c"], wrap=WRAP)
    except vbuild.BuildError:
        if stub: return None                       # the stand-in no longer fits the tree
        return vbuild.build_exe("runplain", impl, s, variant, ["h_run.c"], extra_flags=["-D__real_expand_digest_to_fixed_weight=h_noreal", "-DNOFORCE"])
def rec(op, a, b, idx=0, force=None, align=0, expect=0):
    return struct.pack("<8I", op, idx, 1 if force is not None else 0, align, len(a), len(b), expect, 0) + (bytes(force) if force is not None else b"") + a + b
def stack():
    import resource
    h = resource.getrlimit(resource.RLIMIT_STACK)[1]; v = 256 << 20
    resource.setrlimit(resource.RLIMIT_STACK, (v if h == resource.RLIM_INFINITY else min(v, h), h))

def drive(W, impl, s, variant, recs, kinds, seconds, stub=False, key="memory", patience=90):
    """recs: packed records; kinds: their names. Returns counters seen by the harness."""
    e = exe(variant, impl, s, stub)
    if e is None: W.note(f"{impl} {s}: the stand-in for the algebra does not fit this tree; full-size bookkeeping left to the scaled builds"); return None
    with tempfile.TemporaryDirectory(prefix="vf-") as d:
        c, p = os.path.join(d, "c"), os.path.join(d, "p"); open(c, "wb").write(b"".join(recs)); open(p, "wb").write(bytes(128))
        log = os.path.join(d, "log"); W.at(harness=os.path.basename(e), variant=variant, set=s, impl=impl)
        def go(frm=0, to=1 << 62, lim=seconds, patience=patience):
            P = subprocess.Popen([e, c, p, str(lim), str(frm), str(to)], stdout=open(log, "wb"), stderr=subprocess.STDOUT, env=dict(os.environ, **ENV), preexec_fn=stack)
            last, t = None, time.time()
            while P.poll() is None:
                time.sleep(.02); now = struct.unpack("<16Q", open(p, "rb").read())[:2]
                if now != last: last, t = now, time.time()
                if time.time() - t > patience: P.kill(); P.wait(); return "hang"
            return P.returncode
        rc = go(); st = struct.unpack("<16Q", open(p, "rb").read()); text = open(log, "rb").read().decode("utf8", "replace")
        if rc != 0:
            i = st[0]; kind = kinds[i] if i < len(kinds) else "?"; alone = go(i, i + 1, 60, 240); t2 = open(log, "rb").read().decode("utf8", "replace")
            if rc == "hang" and alone != "hang": W.note(f"{impl} {s} {variant}: a slow case finished when run alone"); 
            else:
                what = "does not terminate" if rc == "hang" else next((m for m in re.findall(r"MONITOR: .*|ERROR: \w+Sanitizer: [\w-]+|runtime error: .*|WARNING: \w+Sanitizer: .*|Assertion .* failed", text)), f"exit {rc}")
                what = re.sub(r"0x[0-9a-f]+", "ADDR", what)
                W.check(False, f"{key}:{impl}:{s}:{variant}: {what[:120]}", case=int(i), kind=kind, exit=rc, alone=alone, report=text[-2500:], record=recs[i][:4000].hex() if i < len(recs) else None)
    W.count(f"operations under {variant}", st[6] + st[7]); W.count("accepted", st[2]); W.count("rejected", st[3]); W.count("records left out for time", st[4]); W.high("published seeds", st[5])
    W.count(f"cases completed under {variant}{' (full-size bookkeeping)' if stub else ''}", st[1])
    for r in recs[:int(st[1])]: W.case(impl, s, variant, bytes([stub]), r)
    return st

def honest_recs(M, rng, n, lens, force=True, worst_first=True):
    recs, kinds = [], []
    for i in range(n):
        m = rng.bytes(int(lens[i % len(lens)])); al = int(rng.integers(16)) if i else 1; f = None; nm = "digest's own challenge"
        if force and i % 2 == 0: nm = ["worst", "random", "first"][(i // 2) % 3]; f = honest.forced_x(M, rng, nm)
        recs.append(rec(2, rng.bytes(48), m, i, f, al)); kinds.append(f"honest, {len(m)} bytes, alignment {al}, {nm}")
    return recs, kinds
