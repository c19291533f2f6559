#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("round-trip monitor over stress workloads with pinned extremal challenges", "every honest execution tried opened to its message; extremal challenges are driven by intercepting the challenge expansion"),
 "P02": ("lock-step differential monitor of both implementations", "identical outputs and decisions on all inputs tried, hostile ones and single components included"),
 "P03": ("conformance oracle: executable specification model compared with observed outputs", "outputs equal the independent model's on all inputs tried; trusts the model"),
 "P04": ("canary and layout monitor over operations", "no write outside the documented bounds and exact layout on all operations tried"),
 "P05": ("tampering workload with rejection monitor", "every alteration tried was rejected with -1; digest collisions are assumed not to occur"),
 "P06": ("decision oracle (model of the verification equation) over hostile inputs", "decision equal to the equation's on every hostile input tried, accepting forgeries under pinned challenges included"),
 "P07": ("ASan+UBSan and MSan over hostile inputs in exact-size buffers, progress watchdog", "no sanitizer report, stray write or hang on the hostile inputs tried; small parameter scales carry most of the volume"),
 "P08": ("ASan+UBSan with assertions over honest executions, allocation balance", "no report on the honest executions tried"),
 "P09": ("MSan, and replay over differently poisoned memory", "no use of uninitialised memory observed; results independent of prior memory contents on all runs tried"),
 "P10": ("history monitor: each result compared with a fresh instance", "no dependence on history and no generator use by opening in the random histories tried"),
 "P11": ("disclosure monitor: outputs searched for hidden tree nodes and key material", "no hidden node or key byte run of 8 found in any output tried"),
 "P12": ("trace oracle over recorded challenge expansions plus frequency tests", "expansions equal the specified ones; frequency tests speak only below p=1e-12"),
 "P13": ("online oracle on seed-tree publication and rebuilding", "minimal covers and exact rebuilding on the hidden sets tried, structured and extremal ones included"),
 "P14": ("online oracle on seed expansion plus frequency tests", "expansions equal the specified sampling on the seeds tried; frequency tests speak only below p=1e-12"),
 "P15": ("algebraic-law monitor on observed products and compositions", "laws held on all tuples tried"),
 "P16": ("result oracle on row reduction (rank, shape, row space)", "unique RREF on all matrices tried, every rank-deficiency and pivot pattern class included"),
 "P17": ("metamorphic monitor on the canonical block, and its specified form", "invariance and normal form on all codes tried"),
 "P18": ("round-trip and layout monitor with guard pages", "lossless and exact layout on all matrices tried"),
 "P19": ("round-trip, layout and validation monitor with guard pages", "lossless and exact on all actions tried"),
 "P20": ("reference-implementation oracle over exhaustive splits and interleavings", "equal to FIPS 202 (hashlib) for all lengths and two-piece splits within three blocks and all random patterns tried"),
 "P21": ("exhaustive operand sweep with arithmetic oracle, sampler oracle with canaries", "field operations exhaustive over the operands; samplers on the counts and streams tried"),
 "P22": ("generator ledger: offline checker over recorded draws", "draws, order and use as specified in all sequences tried"),
 "P23": ("own AES-CTR-DRBG oracle and field-by-field checker of KAT files", "DRBG and KAT files equal to independently computed values on all runs tried"),
 "P24": ("valgrind secret-poisoning and executed-instruction traces", "no secret-dependent branch or address observed; identical instruction traces on all inputs tried"),
 "P25": ("ThreadSanitizer stress with result comparison", "no race report and results equal to solo runs in the interleavings that occurred"),
 "P26": ("observed sizes and worst-case covers against tables and the script's output", "tables, sizes and bounds agree; script bound sound for all (rounds, weight) tried"),
 "P27": ("exact rational arithmetic oracle over sample sequences", "statistics faithful on all sequences tried"),
 "P28": ("conformance monitor over differently compiled builds", "results equal the model's in every way of compiling and on every input tried"),
 "P29": ("painted-stack, heap-request and resident-memory monitor", "stack constant and within the documented figures, no heap kept, no growth on all operations tried"),
 "P30": ("recorder of the operations benchmark programs execute, oracle on generated massif files", "programs executed what they name; report equal to the known peaks on all files tried"),
 "P31": ("conformance monitor and sanitizers over the NEON sources on emulated intrinsics", "results equal the model's and no sanitizer report on every input tried; intrinsics are emulated, an Arm compiler's code is not observed"),
 "P32": ("read-back monitor on captured standard error", "printed text read back equal to the object on every object and name tried"),
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [p for p in props if os.path.exists(os.path.join(V, "props", p.lower() + ".py"))]
m = {"version": 1, "setup_cmd": "python3-vt setup.py", "hooks": {"guard": "none", "enable": "no hooks in /repo: shims under /verif/shim and the linker's --wrap observe the unmodified sources", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick", "thorough_cmd": f"python3-vt check.py {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                 "technique": "runtime monitoring: " + T[p][0], "level": "exploration", "level_note": T[p][1] + ". Exploration only: it says nothing about executions that were not run."} for p in have],
     "not_applicable": [{"property": p, "reason": "its check is still being built"} for p in props if p not in have],
     "notes": "see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
