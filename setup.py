#!/usr/bin/env python3-vt
"""Prebuilds what the checks share (all of it is also built on demand)."""
import glob, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [os.path.join(V, "lib"), V]
import vbuild, honest, hostile
from concurrent.futures import ProcessPoolExecutor
def corp(s): t = time.time(); honest.get(s); a = time.time(); n = len(hostile.get(s)); return s, n, round(a - t, 1), round(time.time() - a, 1)
if __name__ == "__main__":
    os.makedirs(vbuild.BUILD, exist_ok=True); vbuild.build_model()
    small = [vbuild.scaled(s, 14, 4) for s in vbuild.SETS]
    sets = sorted(vbuild.SETS + [vbuild.scaled(s) for s in vbuild.SETS] + small, key=lambda s: (-int(s[0]), "~" in s))
    with ProcessPoolExecutor(vbuild.NPROC) as ex:
        for r in ex.map(corp, sets): print("corpus", *r, flush=True)
    for p in sorted(glob.glob(os.path.join(V, "props", "p[0-9]*.py"))):
        t = time.time(); name = os.path.basename(p)[:-3].upper()
        r = subprocess.run([sys.executable, os.path.join(V, "check.py"), name, "--tier", "quick", "--build-only"], capture_output=True, text=True)
        print("built", name, r.returncode, round(time.time() - t, 1), r.stdout[-300:], flush=True)   # a failure here is reported by the check itself
