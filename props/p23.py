"""KAT files and their generator: the DRBG and seed expander against an own AES-256 implementation, and every field of the files the KAT programs write."""
from api import *
import kat, os, shutil, subprocess, tempfile, time
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one request to the DRBG or the seed expander (any seed, personalisation, size, history and counter value) compared with an own AES-256-CTR-DRBG, or one field of one entry of a .req or .rsp file "
        "written by a KAT program (every copy, both implementations, all sets at reduced rounds and full size), compared with the value the specification gives; non-trivial and distinct = distinct (state, request) or (program, field)")
ASSUMPTIONS = ["full-size KAT programs of categories 3 and 5 are observed for their first entries only; all 100 entries are observed at reduced rounds and for category 1 (AVX2)"]
SMALL = [vbuild.scaled(b, 6, 2) for b in FULL]
def tasks(tier, seed):
    th = tier == "thorough"; x = 30 if th else 1; out = []
    for c in ("reference", "optimised", "utilities ref"): out.append({"label": f"generator {c}", "fn": "generator", "args": {"copy": c, "seconds": 4 * x}, "est": 5}); out.append({"label": f"expander {c}", "fn": "expander", "args": {"copy": c, "seconds": 4 * x}, "est": 5})
    for c in kat.COPIES:
        for s in SMALL: out.append({"label": f"program {c} {s}", "fn": "program", "args": {"copy": c, "s": s, "twice": th or c == list(kat.COPIES)[(seed + SMALL.index(s)) % 4]}, "est": 100 * (2 * cost(kat.COPIES[c][0], s) + .01)})
    out.append({"label": "collector script", "fn": "collector", "args": {}, "est": 5})
    for c in ("optimised", "reference") if not th else kat.COPIES:
        for s in FULL:
            n = kat.need(s); u = 100 * 2.3 * cost(kat.COPIES[c][0], s)
            if th or u < 40: out.append({"label": f"program {c} {s}", "fn": "program", "args": {"copy": c, "s": s, "twice": False}, "est": u, "timeout": 8000})
            elif cost(kat.COPIES[c][0], s) < 5: out.append({"label": f"program {c} {s} beginning", "fn": "program", "args": {"copy": c, "s": s, "twice": False, "stop": 20 if c == "optimised" else 10}, "est": 20})
    return out
def builds(tier, t):
    th = [vbuild.build_model] + [lambda c=c: kat.drbg(c) for c in ("reference", "optimised", "utilities ref")]
    seen = sorted({(a["args"]["copy"], a["args"]["s"]) for a in t if a["fn"] == "program"}); th += [lambda c=c, s=s: kat.exe(c, s) for c, s in seen]
    return th + [lambda s=s: kat.expected(s, kat.need(s)) for s in sorted({s for c, s in seen}, key=lambda s: (-int(s[0]), len(s)))]
CAN = 0xC7
def pick(rng, l): return l[int(rng.integers(len(l)))]
def generator(W, copy, seconds):
    L = C.CDLL(kat.drbg(copy)); A = kat.model(); rng = W.rng; t0 = time.time(); n = 0
    if not hasattr(L, "vk_init"): W.note("the DRBG's interface does not fit this tree: judged through the KAT files only"); return
    while n < 40 or time.time() - t0 < seconds:
        e = W.rbytes(48) if rng.integers(6) else bytes([int(rng.integers(256))]) * 48; p = [None, W.rbytes(48), bytes(48), e][int(rng.integers(4))]; ea = arr(e); pa = None if p is None else arr(p); strength = int(rng.choice([256, 128, 0]))
        d = kat.Drbg(e, p); W.at(op="init", copy=copy, entropy=e.hex(), pers=p.hex() if p else None); L.vk_init(ptr(ea), None if p is None else ptr(pa), strength); W.check(ea.tobytes() == e and (p is None or pa.tobytes() == p), f"DRBG initialisation modifies its inputs:{copy}")
        hist = []
        for k in range(int(rng.integers(1, 12))):
            if rng.integers(4) == 0:            # a state about to carry over some or all counter bytes
                K = W.rbytes(32); z = int(rng.integers(0, 17)); V = bytes(rng.integers(0, 256, 16 - z, dtype=np.uint8)) + b"\xff" * z; V = V[:15] + bytes([(V[15] - int(rng.integers(0, 40))) % 256]); ka, va = arr(K), arr(V); L.vk_set(ptr(ka), ptr(va)); d.d[:] = np.frombuffer(K + V, np.uint8); hist.append(("state", K.hex(), V.hex()))
            q = int(rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 48, int(rng.integers(0, 200)), int(rng.integers(0, 5000)), 3300, 65536 if rng.integers(20) == 0 else 7])); al = int(rng.integers(16)); o = buf(q + 80, CAN); hist.append(q)
            W.at(op="bytes", copy=copy, entropy=e.hex(), requests=hist); r = L.vk_bytes(C.c_void_p(o.ctypes.data + al), C.c_ulonglong(q)); want = d.bytes(q); x = dict(entropy=e, personalisation=p, history=hist)
            W.check(o[al:al + q].tobytes() == want, f"DRBG output differs from the AES-256-CTR DRBG:{copy}", got=o[al:al + q].tobytes(), expected=want, **x); W.check(r == 0, f"DRBG reports failure:{copy}", code=r, **x)
            W.check((o[:al] == CAN).all() and (o[al + q:] == CAN).all(), f"DRBG writes beyond the request:{copy}", **x); W.case("drbg", copy, want, q, e); W.count("DRBG requests compared"); n += 1
    W.sample(copy=copy, entropy=e.hex(), requests=[str(h)[:60] for h in hist][:8])
def expander(W, copy, seconds):
    L = C.CDLL(kat.drbg(copy)); A = kat.model(); rng = W.rng; t0 = time.time(); n = 0
    if not hasattr(L, "vk_x"): W.note("the seed expander's interface does not fit this tree: left out"); return
    sz = L.vk_xsize()
    while n < 40 or time.time() - t0 < seconds:
        sd, dv = W.rbytes(32), W.rbytes(8); mx = pick(rng, [0, 1, 2, 16, 17, 255, 256, 65535, 65536, 1 << 24, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 64) - 1, int(rng.integers(0, 400)), int(rng.integers(0, 1 << 32))])
        c = buf(sz + 32, CAN); s_, d_ = arr(sd), arr(dv); W.at(op="expander init", copy=copy, maxlen=mx); r = L.vk_xinit(ptr(c), ptr(s_), ptr(d_), C.c_ulong(mx)); x = dict(seed=sd, diversifier=dv, maxlen=mx)
        W.check(r == (-1 if mx >= 1 << 32 else 0), f"seed expander's length limit decides wrongly:{copy}", code=r, **x); W.check((c[sz:] == CAN).all(), f"seed expander writes beyond its state:{copy}", **x); W.case("xinit", copy, sd, mx); W.count("expander initialisations"); n += 1
        if mx >= 1 << 32: continue
        ctr = 0
        if rng.integers(3) == 0 and hasattr(L, "vk_xctr"): ctr = int(rng.choice([0xff, 0xfe, 0xfffe, 0xffffff, 0xfffffff0, 0xffffffff, int(rng.integers(0, 1 << 32))])); L.vk_xctr(ptr(c), C.c_uint(ctr))
        left, at, hist = mx, 0, []; stream = buf(24000); A.ma_expand(ptr(s_), ptr(d_), C.c_uint64(mx), C.c_uint32(ctr), ptr(stream), C.c_uint64(24000)); stream = stream.tobytes()
        for k in range(int(rng.integers(1, 14))):
            q = pick(rng, [0, 1, 15, 16, 17, 32, int(rng.integers(0, 40)), int(rng.integers(0, 300)), left, max(left - 1, 0), left + 1, 1 << 33])
            if q < left and q > 1500: continue
            null = rng.integers(12) == 0; o = buf(min(q, 4000) + 80, CAN); al = int(rng.integers(16)); hist.append(("null", q) if null else q); W.at(op="expand", copy=copy, maxlen=mx, requests=hist)
            r = L.vk_x(ptr(c), None if null else C.c_void_p(o.ctypes.data + al), C.c_ulong(q)); W.count("expander requests"); W.case("x", copy, sd, at, q, bool(null), mx)
            if null: W.check(r == -2, f"seed expander accepts a null buffer:{copy}", code=r, requests=hist, **x); continue
            if q >= left: W.check(r == -3 and (o == CAN).all(), f"seed expander accepts an over-long request:{copy}", code=r, left=left, requests=hist, **x); W.count("over-long requests refused"); continue
            W.check(r == 0, f"seed expander refuses a proper request:{copy}", code=r, left=left, requests=hist, **x); W.check(o[al:al + q].tobytes() == stream[at:at + q], f"seed expander differs from AES-256 in counter mode:{copy}", at=at, requests=hist, counter=ctr, got=o[al:al + q].tobytes(), expected=stream[at:at + q], **x)
            W.check((o[:al] == CAN).all() and (o[al + q:] == CAN).all(), f"seed expander writes beyond the request:{copy}", requests=hist, **x); at += q; left -= q
            if at > 20000: break
    W.sample(copy=copy, maxlen=mx, requests=[str(h) for h in hist][:10])
def parse(W, text, who, whole):
    """entries of a file, and whether it has exactly the prescribed lines"""
    out, cur = [], None
    lines = text.split("\n")
    if not whole: lines = lines[:-1]            # the last one may be cut
    for l in lines:
        if not l.strip() or l.startswith("#"): continue
        k, eq, v = l.partition("="); k, v = k.strip(), v.strip(); W.check(eq == "=", f"a line of {who} is not a field", line=l[:80])
        if k == "count": cur = {}; out.append(cur)
        W.check(cur is not None and k not in cur, f"a field of {who} is out of place", line=l[:80]); cur[k] = v
    return out
FIELDS = ["count", "seed", "mlen", "msg", "pk", "sk", "smlen", "sm"]
def program(W, copy, s, twice, stop=None):
    M = Model(s); e = kat.exe(copy, s); ins = kat.inputs(); want = kat.expected(s, kat.need(s)); tag = f"{copy}:{s}"; names = [f"PQCsignKAT_{M.sk_bytes}.req", f"PQCsignKAT_{M.sk_bytes}.rsp"]
    runs = []
    with tempfile.TemporaryDirectory(prefix="vf-") as d:
        for r in range(2 if twice else 1):
            if r:                                # leftovers of an earlier, longer run must not show
                for f in os.listdir(d): open(os.path.join(d, f), "ab").write(b"\nleft over\n" * 5000)
            W.at(op="KAT program", copy=copy, set=s, run=r)
            P = subprocess.Popen([e], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={"PATH": "/usr/bin:/bin", "MALLOC_PERTURB_": str(1 + 100 * r)}); cut = False
            try: out, _ = P.communicate(timeout=stop or 7000)
            except subprocess.TimeoutExpired: cut = stop is not None; P.kill(); out, _ = P.communicate()
            W.check(cut or P.returncode == 0, f"KAT program fails:{tag}", status=P.returncode, output=out[-600:].decode("utf8", "replace"))
            files = {f: open(os.path.join(d, f), "rb").read().decode("latin1") for f in sorted(os.listdir(d))}; runs.append((files, cut))
            req = [f for f in files if f.endswith(".req")]; rsp = [f for f in files if f.endswith(".rsp")]; W.check(len(req) == 1 and len(rsp) == 1, f"KAT program does not write one request and one response file:{tag}", files=list(files))
            q = parse(W, files[req[0]], f"{tag} .req", True); W.check(len(q) == 100, f"request file has not 100 entries:{tag}", entries=len(q))
            for i, (x, (sd, m)) in enumerate(zip(q, ins)):
                exp = {"count": str(i), "seed": sd.hex().upper(), "mlen": str(len(m)), "msg": m.hex().upper(), "pk": "", "sk": "", "smlen": "", "sm": ""}
                for k in FIELDS: W.check(x.get(k) == exp[k], f"field of the request file differs:{tag}", field=k, entry=i, got=str(x.get(k))[:200], expected=exp[k][:200]); W.case(tag, "req", i, k)
            W.count("request entries compared", len(q))
            p = parse(W, files[rsp[0]], f"{tag} .rsp", not cut); p = p[:-1] if cut else p; W.check(cut or len(p) == 100, f"response file has not 100 entries:{tag}", entries=len(p)); W.check(len(p) <= 100, f"response file has more than 100 entries:{tag}", entries=len(p))
            for i, (x, (sd, m, pk, sk, sm)) in enumerate(zip(p, want)):
                exp = {"count": str(i), "seed": sd.hex().upper(), "mlen": str(len(m)), "msg": m.hex().upper(), "pk": pk.hex().upper(), "sk": sk.hex().upper(), "smlen": str(len(sm)), "sm": sm.hex().upper()}
                for k in FIELDS: W.check(x.get(k) == exp[k], f"field of the response file differs:{tag}", field=k, entry=i, got=str(x.get(k))[:200], expected=exp[k][:200]); W.case(tag, "rsp", i, k)
            W.count("response entries compared", min(len(p), len(want))); W.count("KAT program runs")
    if len(runs) == 2 and not any(c for f, c in runs): W.check(runs[0][0] == runs[1][0], f"KAT files differ between two runs:{tag}"); W.count("repeated runs identical")
    W.sample(copy=copy, set=s, response_entries=len(p), complete=not cut)
def collector(W):
    """gen_all_kat.sh, on programs that write known files: each of them must end up in KAT/, whole and nowhere else"""
    src = os.path.join(vbuild.REPO, "Utilities", "KAT_Generation", "gen_all_kat.sh")
    if not os.path.exists(src): W.note("no gen_all_kat.sh in this tree: left out"); return
    rng = W.rng; seen = {}
    for s in FULL: n = Model(s).pk_bytes; W.check(seen.setdefault(n, s) == s, "two parameter sets write KAT files of one name", sets=(seen[n], s), size=n)
    for r in range(40 if W.thorough else 6):
        with tempfile.TemporaryDirectory(prefix="vf-") as d:
            w = os.path.join(d, "Utilities", "KAT_Generation"); b = os.path.join(w, "build", "bin"); k = os.path.join(d, "KAT"); os.makedirs(b); os.makedirs(k); shutil.copy(src, os.path.join(w, "gen_all_kat.sh")); exp = {}; sizes = sorted(seen); m = int(rng.integers(1, len(sizes) + 1)); progs = [sizes[int(i)] for i in rng.permutation(len(sizes))[:m]]
            for n in progs:
                f = os.path.join(b, f"LESS_nist_kat_{seen[n]}"); body = {e: W.rbytes(int(rng.integers(1, 40))).hex() for e in ("req", "rsp")}
                open(f, "w").write("#!/bin/sh\n" + "".join(f"printf '%s' {v} > PQCsignKAT_{n}.{e}\n" for e, v in body.items())); os.chmod(f, 0o755); exp.update({f"PQCsignKAT_{n}.{e}": v for e, v in body.items()})
            old = {f"PQCsignKAT_{sizes[0]}.rsp": "an earlier run"} if rng.integers(2) else {}
            for f, v in old.items(): open(os.path.join(k, f), "w").write(v)
            W.at(op="gen_all_kat.sh", programs=progs); P = subprocess.run(["bash", "gen_all_kat.sh"], cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env={"PATH": "/usr/bin:/bin"})
            got = {f: open(os.path.join(k, f)).read() for f in sorted(os.listdir(k))}; x = dict(programs=progs, output=P.stdout[-500:].decode("utf8", "replace"))
            W.check(P.returncode == 0, "collecting the KAT files fails", status=P.returncode, **x); W.check(got == {**old, **exp}, "collected KAT files are not the ones the programs wrote", got=got, expected={**old, **exp}, **x)
            W.check(sorted(os.listdir(w)) == ["build", "gen_all_kat.sh"] and sorted(os.listdir(d)) == ["KAT", "Utilities"], "KAT files are left behind", files=sorted(os.listdir(w)) + sorted(os.listdir(d)), **x)
            W.count("files collected", len(exp)); [W.case("collect", f, v) for f, v in exp.items()]
