"""Builds everything a check needs from /repo's current working tree.

Each artefact is keyed by a hash of the sources, the shim and the flags, so an
unchanged tree is not rebuilt and any change to a source file is."""
import glob, hashlib, os, subprocess, sys, fcntl, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SETS = ["1_BALANCED", "1_INTERMEDIATE", "1_SHORT_SIG", "3_BALANCED", "3_SHORT_SIG", "5_BALANCED", "5_SHORT_SIG"]
IMPLS = ["ref", "avx2"]
ROOT = {"ref": "Reference_Implementation", "avx2": "Optimized_Implementation/avx2", "neon": "Optimized_Implementation/neon"}
NPROC = min(8, os.cpu_count() or 1)

class BuildError(Exception):
    pass

def impl_dir(impl): return os.path.join(REPO, ROOT[impl])
def sources(impl):
    s = sorted(glob.glob(os.path.join(impl_dir(impl), "lib", "*.c")))
    if not s: raise BuildError("no sources in " + impl_dir(impl))
    return s
def asm_sources(impl): return sorted(glob.glob(os.path.join(impl_dir(impl), "lib", "*.s")))

_cache = {}
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isdir(p):
            for f in sorted(glob.glob(os.path.join(p, "**", "*"), recursive=True)):
                if os.path.isfile(f):
                    h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        else:
            h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()

def impl_hash(impl):
    k = ("impl", impl)
    if k not in _cache:
        _cache[k] = tree_hash([os.path.join(impl_dir(impl), "include")] + sources(impl) + asm_sources(impl) + ([NEON] if impl == "neon" else []))
    return _cache[k]

def cpu_id():
    if "cpu" not in _cache:
        r = subprocess.run("gcc --version; gcc -march=native -Q --help=target 2>/dev/null", shell=True, capture_output=True)
        _cache["cpu"] = hashlib.sha256(r.stdout).hexdigest()
    return _cache["cpu"]

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=600, **kw)

class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def keyed(kind, parts, build):
    """returns the directory of an artefact, calling build(tmpdir) if it does not exist"""
    key = hashlib.sha256("\0".join([kind, cpu_id()] + [str(p) for p in parts]).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, f"{kind}-{key}")
    if os.path.isdir(d): return d
    with Lock(os.path.join(BUILD, f".{kind}-{key}.lock")):
        if os.path.isdir(d): return d
        tmp = tempfile.mkdtemp(prefix=f".tmp-{kind}-", dir=BUILD)
        try:
            build(tmp)
            os.rename(tmp, d)
        finally:
            if os.path.isdir(tmp): shutil.rmtree(tmp, ignore_errors=True)
    return d

def base_set(s): return s.split("~")[0]
def scaled(s, T=45, W=7): return f"{base_set(s)}~{T}.{W}"
def scale_of(s):
    """None, or (T, W, maxseeds) of a scaled parameter set such as 5_BALANCED~45.7"""
    if "~" not in s: return None
    import cover
    T, W = map(int, s.split("~")[1].split("."))
    return T, W, cover.worst(T, W)[0]
def setdefs(s):
    c, opt = base_set(s).split("_", 1)
    d = [f"-DCATEGORY_{c}=1", f"-D{opt}=1"]
    sc = scale_of(s)
    if sc: d += [f"-DVS_T={sc[0]}", f"-DVS_W={sc[1]}", f"-DVS_MAXSEEDS={sc[2]}", "-include", os.path.join(VERIF, "shim", "vs_scale.h")]
    return d

REL = ["-O3", "-mprefer-vector-width=512", "-DNDEBUG", "-march=native", "-ftree-vectorize", "-funroll-loops", "-fomit-frame-pointer", "-w"]
SAN = {
    # one sanitizer family per build; assertions enabled (no NDEBUG)
    "asan": (["clang", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fsanitize=bounds,alignment,shift,signed-integer-overflow,vla-bound,null,object-size", "-w"]),
    "msan": (["clang", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=1",
              "-fno-sanitize-recover=all", "-w"]),
    "tsan": (["clang", "-O1", "-g", "-fsanitize=thread", "-w"]),
    "gasan": (["gcc", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w"]),
    "plain0": (["gcc", "-O1", "-g", "-fno-omit-frame-pointer", "-w"]),
}
NEON = os.path.join(VERIF, "shim", "neon")          # the intrinsics, for a machine without them
ARCH = {"ref": [], "avx2": ["-mavx2", "-mavx"], "neon": ["-I", NEON, "-flax-vector-conversions"]}

def compile_many(jobs):
    """jobs = [(cmd, tag)]; returns {tag: (rc, err)}"""
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(lambda j: run(j[0]), jobs))
    return {j[1]: (r.returncode, r.stderr) for j, r in zip(jobs, rs)}

SHIM = os.path.join(VERIF, "shim")
GROUPS = ["hash", "codes", "monomial", "tree", "chal", "field", "misc", "clone", "rnd", "print"]

WRAPS = {"vs_force.c": ["expand_digest_to_fixed_weight"], "vs_stream.c": ["shake128_inc_squeeze", "shake256_inc_squeeze", "shake128_inc_finalize", "shake256_inc_finalize"],
         "vs_stack.c": ["malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign"]}
def shim_sources(impl):
    return ["vs_api.c", "vs_force.c", "vs_stream.c", "vs_stack.c"] + [f"vi_{g}.c" for g in GROUPS] + (["vi_field_opt.c"] if impl != "ref" else [])

# other ways of compiling the same sources (compiler and flags; no style: the release flags)
STYLES = {
    "gcc -O0, assertions": ["gcc", "-O0"],
    "gcc -O1": ["gcc", "-O1", "-DNDEBUG"],
    "gcc -Os": ["gcc", "-Os", "-DNDEBUG"],
    "gcc -O2, assertions": ["gcc", "-O2"],
    "gcc -O3, this processor, unsigned char": ["gcc", "-O3", "-march=native", "-funsigned-char", "-DNDEBUG"],
    "gcc -O3, link-time optimisation": ["gcc", "-O3", "-flto", "-DNDEBUG"],
    "clang -O0, assertions": ["clang", "-O0"],
    "clang -O2": ["clang", "-O2", "-DNDEBUG"],
    "clang -O3, this processor": ["clang", "-O3", "-march=native", "-DNDEBUG"],
    "gcc -O2, variables pre-filled": ["gcc", "-O2", "-march=native", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"],
}
STYLE = None
def build_so(impl, s, style=None):
    """shared library of the implementation under test plus the shim (release flags, or one of STYLES)"""
    style = style or STYLE
    cc, rel = (STYLES[style][0], STYLES[style][1:] + ["-w"]) if style else ("gcc", REL)
    flags = rel + ARCH[impl] + ["-fPIC", "-std=gnu11", "-I", os.path.join(impl_dir(impl), "include")] + setdefs(s)
    shims = shim_sources(impl)
    def build(d):
        jobs = []
        for f in sources(impl):
            jobs.append(([cc] + flags + ["-c", f, "-o", os.path.join(d, "L_" + os.path.basename(f) + ".o")], ("L", f)))
        for f in shims:
            jobs.append(([cc] + flags + ["-Werror=implicit-function-declaration", "-c", os.path.join(SHIM, f), "-o", os.path.join(d, f + ".o")], ("S", f)))
        res = compile_many(jobs)
        missing = []
        for (kind, f), (rc, err) in res.items():
            if rc == 0: continue
            if kind == "L" or f in ("vs_api.c",):
                raise BuildError(f"{impl} {s}: {f}: {err[-2000:]}")
            missing.append(f)
        L = [os.path.join(d, "L_" + os.path.basename(f) + ".o") for f in sources(impl)]
        out = os.path.join(d, "lib.so")
        def link(sh, extra=[]):
            wraps = [f"-Wl,--wrap={w}" for x in sh for w in WRAPS.get(x, [])]
            return run([cc] + (["-O3", "-flto"] if "-flto" in rel else []) + ["-shared", "-Wl,-Bsymbolic"] + wraps + ["-Wl,--no-undefined",
                        "-o", out] + L + extra + [os.path.join(d, x + ".o") for x in sh] + ["-lm"])
        have = [x for x in shims if x not in missing]
        r = link(have)
        if r.returncode:
            good = ["vs_api.c"]
            asm = []
            for x in [x for x in have if x != "vs_api.c"]:
                if link(good + [x]).returncode == 0: good.append(x)
            r = link(good)
            if r.returncode and asm_sources(impl):
                r = run(["gcc", "-fPIC"] + ["-c", asm_sources(impl)[0], "-o", os.path.join(d, "asm.o")])
                asm = [os.path.join(d, "asm.o")]; r = link(have, asm); good = have
            if r.returncode: raise BuildError(f"link {impl} {s}: {r.stderr[-2000:]}")
            missing += [x for x in have if x not in good]
        with open(os.path.join(d, "missing"), "w") as f: f.write("\n".join(missing))
        for o in glob.glob(os.path.join(d, "*.o")): os.unlink(o)
    d = keyed("so", [impl, s, impl_hash(impl), tree_hash([os.path.join(SHIM, x) for x in shims + ["vs_scale.h"]]), cc, " ".join(flags), "v5"], build)
    return os.path.join(d, "lib.so")

def missing_groups(so):
    """shims left out of this build"""
    t = open(os.path.join(os.path.dirname(so), "missing")).read().split()
    return [x.replace("vi_", "").replace(".c", "") for x in t]

def build_model():
    src = [os.path.join(VERIF, "model", x) for x in ("less_model.c", "less_model.h")]
    def build(d):
        r = run(["gcc", "-O3", "-march=native", "-fPIC", "-shared", "-o", os.path.join(d, "model.so"), src[0]])
        if r.returncode: raise BuildError(r.stderr)
    return os.path.join(keyed("model", [tree_hash(src)], build), "model.so")

def build_exe(name, impl, s, variant, harness, extra_flags=(), libs=(), link_asm=False, extra_src=(), wrap=(), need_model=False, pre=()):
    """executable = implementation sources + harness, all compiled with one sanitizer family.
    harness: list of files under /verif/harness"""
    base = SAN[variant] if variant in SAN else ["gcc"] + REL
    hs = [os.path.join(VERIF, "harness", h) for h in harness] + list(extra_src)
    flags = base + ARCH[impl] + ["-std=gnu11", "-I", os.path.join(impl_dir(impl), "include"), "-I", os.path.join(VERIF, "model")] + list(pre) + setdefs(s) + list(extra_flags)
    model = [os.path.join(VERIF, "model", "less_model.c")] if need_model else []
    def build(d):
        jobs = []; objs = []
        for i, f in enumerate(sources(impl) + hs + model):
            o = os.path.join(d, f"{i}.o"); objs.append(o)
            fl = flags
            if f in model: fl = [x for x in flags]
            jobs.append((fl + ["-c", f, "-o", o], f))
        res = compile_many(jobs)
        for f, (rc, err) in res.items():
            if rc: raise BuildError(f"{name} {impl} {s} {variant}: {f}: {err[-2000:]}")
        r = run(base + objs + [f"-Wl,--wrap={w}" for w in wrap] + ["-o", os.path.join(d, "exe"), "-lm"] + list(libs))
        if r.returncode: raise BuildError(f"link {name} {impl} {s} {variant}: {r.stderr[-2000:]}")
        for o in objs: os.unlink(o)
    incs = [os.path.join(VERIF, "model", "less_model.h"), os.path.join(VERIF, "model", "less_model.c")]
    incs += glob.glob(os.path.join(VERIF, "harness", "*.h"))
    d = keyed("exe-" + name, [impl, s, variant, impl_hash(impl), tree_hash(hs + incs), " ".join(flags), " ".join(wrap), " ".join(libs)], build)
    return os.path.join(d, "exe")

def parallel(fns):
    """run build thunks in parallel; raises the first BuildError"""
    with ThreadPoolExecutor(NPROC) as ex:
        return [f.result() for f in [ex.submit(fn) for fn in fns]]
