"""Builds of harness/h_ct.c; parts that do not fit the tree are left out."""
import os, subprocess
import vbuild
FLAGS = {"shipped": ["gcc", "-O3", "-mprefer-vector-width=512", "-DNDEBUG", "-ftree-vectorize", "-funroll-loops", "-fomit-frame-pointer"],
         "gcc1": ["gcc", "-O1", "-fno-builtin"], "clang1": ["clang", "-O1", "-fno-builtin"], "calls": ["gcc", "-O1", "-finstrument-functions", "-DINSTRUMENT"]}
for k, v in FLAGS.items(): vbuild.SAN["ct-" + k] = v + ["-g", "-w", "-march=haswell"]     # valgrind knows no AVX-512
def exe(impl, s, kind):
    """(path, parts left out)"""
    for out in ([], ["-DNOCOLUMN"], ["-DNOMEMCMP"], ["-DNOCOLUMN", "-DNOMEMCMP"], ["-DNOCOLUMN", "-DNOMEMCMP", "-DNOFORCE"]):
        try: return vbuild.build_exe("ct", impl, s, "ct-" + kind, ["h_ct.c"], wrap=[] if "-DNOFORCE" in out else ["expand_digest_to_fixed_weight"], extra_flags=out + ["-Werror=implicit-function-declaration"]), [x[4:] for x in out]
        except vbuild.BuildError as e: err = e
    raise err
def run(e, args, d, vg=True, timeout=600):
    cmd = (["valgrind", "-q", "--error-limit=no", "--num-callers=6", "--main-stacksize=134217728", f"--log-file={d}/vg"] if vg else []) + [e] + args
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    log = open(os.path.join(d, "vg")).read() if vg and os.path.exists(os.path.join(d, "vg")) else ""
    return r, log
