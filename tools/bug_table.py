#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the notes below"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {
 "stuck-generator": "missed at first; `patterned output` (chosen generator bytes) was added",
 "tree-input-length": "missed at first; `every byte` (each byte of small signatures) was added",
 "wide-unpack": "missed at first (a release build drops the read); builds without optimisation were added",
 "avx2-message-pieces": "missed at first; `round lengths` was added",
}
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f)); also = m.get("also", [])
    rows.append(f"| {i} | {m['property']} | {m['needs'].rstrip('.')} | {m['property']}{'; ' + FIRST_MISSED[i] if i in FIRST_MISSED else ''} |")
text = "\n".join(["## Planted bugs (`seeded/`)", "", "Each was confirmed with `tools/plant.py` (applies, builds, stable tests pass, demonstration tells the trees apart); \"caught by\" names the quick check that",
 "reported it on the patched tree.", "", "| bug | breaks | needs | caught by |", "|---|---|---|---|"] + rows) + "\n"
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
s = re.sub(r"## Planted bugs \(`seeded/`\)\n.*?(?=\n## |\Z)", lambda _: text, s, flags=re.S) if "## Planted bugs (`seeded/`)" in s else s.rstrip() + "\n\n" + text
open(p, "w").write(s)
