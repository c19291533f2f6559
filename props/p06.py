"""Decision conformance: hostile inputs of every kind, each decision compared with the verification equation evaluated by the independent model."""
from api import *
from hostile import flip
import comp, gens
RULE = ("one case = one (signed message, public key) presented to the real verifier, its decision and recovered message compared with the model's evaluation of the verification equation; "
        "includes forgeries valid under a pinned challenge, so acceptance is exercised on non-honest inputs; non-trivial and distinct = distinct inputs")
def tasks(tier, seed):
    th = tier == "thorough"; out = []; x = 15 if th else 1
    for i, s in pairs():
        u = cost(i, s); sec = 6 * x if "~" in s else (6 * x if u < 3 else u * 1.1 if u < 10 or th else 0)
        out.append({"label": f"decisions {i} {s}", "fn": "decisions", "args": {"impl": i, "s": s, "seconds": sec}, "est": sec + 3})
        if "~" in s: out.append({"label": f"mutations {i} {s}", "fn": "mutations", "args": {"impl": i, "s": s, "seconds": 4 * x}, "est": 5 + model_cost(s)})
    return out + comp_tasks(["ActionValid", "UnpackAction", "UnpackRref", "Apply", "Prepare", "Rref", "Challenge", "Tree"], 3, fn="comps")
def builds(tier, t): return [vbuild.build_model] + [lambda i=i, s=s: vbuild.build_so(i, s) for i, s in pairs()]
def comps(W, **a): run_comp(W, oracle=True, **a)

def decisions(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); pin = None; slow = cost(impl, s) > 10
    for c in affordable(W, hostile.get(s), impl, s, seconds):
        if c["force"] is not None:
            if pin is None: pin = I.can_force() if slow else forcing(W, I, M)
            if not pin: continue
        rc, m = check_decision(W, I, c); W.count("decisions compared"); W.count("accepted", rc == 0)
        if c["code"] == 0: W.sample(kind=c["kind"], set=s, impl=impl, rc=rc)

def mutations(W, impl, s, seconds):
    """structure-aware random mutations, labelled by the model as they are made"""
    import time
    I, M = Impl(impl, s), Model(s); t0 = time.time(); its = [(k, e) for k in honest.get(s) for e in k["msgs"]]; rng = W.rng; n = 0; mx = (1 << M.pos_bits) - 1
    while time.time() - t0 < seconds:
        k, e = its[n % len(its)]; n += 1; sm, pk = bytearray(e["sm"]), bytearray(k["pk"]); f = M.fields(e["sm"]); kinds = []
        for _ in range(int(rng.integers(1, 4))):
            op = int(rng.integers(11)); kinds.append(op)
            if op == 0: i = int(rng.integers(8 * len(sm))); sm[i >> 3] ^= 1 << (i & 7)
            elif op == 1: sm = bytearray(flip(bytes(sm), 8 * len(sm) - 1 - int(rng.integers(8))))
            elif op == 2: sm = sm[:int(rng.integers(len(sm)))] or bytearray(b"\0")
            elif op == 3: sm[-1] = int(rng.integers(M.maxseeds + 2)) & 255
            elif op == 4 and len(sm) == len(e["sm"]):
                i = int(rng.integers(M.W)); a = f["actions"][0] + i * M.mono_bytes; P, C = M.unpack_action(bytes(sm[a:a + M.mono_bytes])); j, l = rng.choice(M.K, 2, replace=False); v = int(rng.integers(6))
                if v == 0: P[j] = P[l]
                elif v == 1: P[j] = min(mx, int(rng.integers(M.N - 2, mx + 1)))
                elif v == 2: C[j] = int(rng.choice([0, 127]))
                elif v == 3: C = (C.astype(int) * int(rng.integers(1, 127)) % 127).astype(np.uint8)
                elif v == 4: q = rng.permutation(M.K); P, C = P[q].copy(), C[q].copy()
                else: P[j], P[l] = P[l], P[j]
                sm[a:a + M.mono_bytes] = M.pack_action(P, C)
            elif op == 5: i = int(rng.integers(8 * len(pk))); pk[i >> 3] ^= 1 << (i & 7)
            elif op == 6: i = 8 * M.S + int(rng.integers(M.kp - 1)) * 8 * M.rref_bytes + int(rng.integers(M.N)); pk[i >> 3] ^= 1 << (i & 7)
            elif op == 7: o = M.S + int(rng.integers(M.kp - 1)) * M.rref_bytes + (M.N + 7) // 8; ent = int(rng.integers(M.K * (M.N - M.K))); b = bytes(pk); [b := hostile.setbit(b, 8 * o + 7 * ent + t, 1) for t in range(7)]; pk = bytearray(b)
            elif op == 8: sm = sm[:0] + bytearray(rng.bytes(int(rng.integers(1, 20)))) + sm
            elif op == 9: sm[-1:] = bytearray(rng.bytes(M.S)) + bytearray([(sm[-1] + 1) & 255])
            else: pk = bytearray(its[int(rng.integers(len(its)))][0]["pk"])
        sm, pk = bytes(sm), bytes(pk); code, ml = M.open(sm, pk)
        check_decision(W, I, {"kind": f"mutation {kinds}", "sm": sm, "pk": pk, "force": None, "code": code, "mlen": ml}); W.count("mutations labelled and compared")
