"""Group laws observed on the real product, inverse, identity and composition, together with their action on generator matrices."""
from api import *
from api import operations
import comp, gens, time
import ctypes as C
from vimpl import arr, buf, ptr
RULE = ("one case = one tuple of monomial matrices (and a code or an information-set action) put through the real routines, the algebraic law checked on the results and the results compared with the model; "
        "non-trivial and distinct = distinct tuple")
COMPS = ["Mmul", "Minv", "Compose", "Gmul", "Apply"]
def tasks(tier, seed):
    th = tier == "thorough"; x = 20 if th else 1
    out = [{"label": f"laws {i} {s}", "fn": "laws", "args": {"impl": i, "s": s, "seconds": 8 * x}, "est": 9} for i, s in pairs(FULL)]
    return out + comp_tasks(COMPS, 4, fn="against_model") + api_tasks(.7)
def builds(tier, t): return scaled_builds()
def against_model(W, s, names, seconds): run_comp(W, s, names, seconds)
def laws(W, impl, s, seconds):
    I, M = Impl(impl, s), Model(s); tag = f"{impl}:{s}"; N, K = M.N, M.K; L = I.lib; rng = W.rng
    if not I.has("monomial"): W.note("monomial algebra not reachable through the shim; decided from whole operations only"); return
    def out(n=N): return buf(n, 0xEE), np.full(n, 0xEEEE, np.uint16)
    def mul(a, b): r = out(); ka, kb = [v.copy() for v in a], [v.copy() for v in b]; L.vi_mmul(ptr(r[0]), ptr(r[1]), ptr(a[0]), ptr(a[1]), ptr(b[0]), ptr(b[1])); W.check(eq(a, ka) and eq(b, kb), f"product modifies an operand:{tag}"); return r
    def inv(a): r = out(); L.vi_minv(ptr(r[0]), ptr(r[1]), ptr(a[0]), ptr(a[1])); return r
    def eq(a, b): return (a[0] == b[0]).all() and (a[1] == b[1]).all()
    def gmul(G, a): o = np.zeros_like(G); L.vi_gmul(ptr(o), ptr(G), ptr(a[0]), ptr(a[1])); return o
    def compose(a, p, c): r = out(K); L.vi_compose(ptr(r[0]), ptr(r[1]), ptr(a[0]), ptr(a[1]), ptr(c), ptr(p)); return r[1], r[0]
    def apply(G, p, c): o = np.zeros_like(G); L.vi_apply(ptr(o), ptr(G), ptr(p), ptr(c)); return o
    ident = out(); L.vi_mid(ptr(ident[0]), ptr(ident[1])); W.check((ident[0] == 1).all() and (ident[1] == np.arange(N)).all(), f"identity matrix:{tag}", coefficients=ident[0][:8], positions=ident[1][:8])
    n = 0; t0 = time.time(); codes = I.has("codes")
    while n < 30 or time.time() - t0 < seconds:
        (a, na), (b, nb), (c, nc) = [((q[0], q[1]), q[2]) for q in (gens.monomial(rng, N) for _ in range(3))]; k = f"{na} * {nb} * {nc}"; W.at(op="laws", set=s, impl=impl, kind=k, case=n)
        d = dict(kinds=k, case=n, a=[str(v.tolist()) for v in a][:1], seed=W.seed)
        ab, bc = mul(a, b), mul(b, c); W.check(eq(mul(ab, c), mul(a, bc)), f"product is not associative:{tag}", **d)
        W.check(eq(mul(a, ident), a) and eq(mul(ident, a), a), f"identity is not neutral:{tag}", **d)
        ia = inv(a); W.check(eq(mul(a, ia), ident), f"inverse from the right:{tag}", **d); W.check(eq(mul(ia, a), ident), f"inverse from the left:{tag}", **d); W.check(eq(inv(ia), a), f"inverse of the inverse:{tag}", **d)
        W.check(eq(inv(ab), mul(inv(b), ia)), f"inverse of a product:{tag}", **d)
        W.check((ab[0] >= 1).all() and (ab[0] <= 126).all() and (ia[0] >= 1).all() and (ia[0] <= 126).all(), f"coefficients leave the field's units:{tag}", **d)
        W.count("law sets on monomials"); W.case("laws", tag, *[v.tobytes() for q in (a, b, c) for v in q]); n += 1
        if codes and n % 4 == 0:
            # the product is the composition of the actions on any matrix
            G, ng = gens.field(rng, (K, N)); G = np.ascontiguousarray(G); keep = G.tobytes()
            W.check((gmul(gmul(G, a), b) == gmul(G, ab)).all(), f"acting with the product differs from acting twice:{tag}", code=ng, **d)
            W.check((gmul(gmul(G, a), ia) == G).all(), f"acting with the inverse does not undo the action:{tag}", code=ng, **d); W.check((gmul(G, ident) == G).all(), f"acting with the identity:{tag}", code=ng, **d)
            W.check(G.tobytes() == keep, f"the action modifies its input:{tag}", code=ng); W.count("actions on matrices")
        p, co, na_ = gens.action(rng, K, N); p2, c2 = compose(ident, p, co); W.check((p2 == p).all() and (c2 == co).all(), f"composing with the identity changes an action:{tag}", action=na_, **d)
        # composing twice is composing with the product, on the side the product is defined on
        p1, c1 = compose(b, p, co); p12, c12 = compose(a, p1, c1); q1, e1 = compose(ab, p, co); W.check((p12 == q1).all() and (c12 == e1).all(), f"composition is not an action of the group:{tag}", action=na_, **d)
        W.check(len(np.unique(q1)) == K and int(q1.max()) < N and (e1 >= 1).all() and (e1 <= 126).all(), f"composition leaves the valid actions:{tag}", action=na_, **d); W.count("compositions")
        if codes and n % 6 == 0:
            # acting with the composed action = information-set columns of the code after the full product, the rest up to order and scale
            G, _, ng = gens.true_rref(rng, K, N); G = np.ascontiguousarray(G); GA = gmul(G, a); r, c_p = compose(a, p, co); A = apply(G, r, c_p); B = apply(GA, p, co)
            W.check((A[:, :K] == B[:, :K]).all(), f"composed action selects other columns than the product:{tag}", code=ng, action=na_, **d)
            W.check(same_up_to_scale(A[:, K:], B[:, K:]), f"remaining columns differ by more than order and scale:{tag}", code=ng, action=na_, **d); W.count("composed actions applied to codes"); W.case("codes", tag, G.tobytes(), a[1].tobytes(), p.tobytes())
    W.sample(set=s, impl=impl, tuples=n)
def norm_cols(V):
    inv = np.array([pow(i, 125, 127) for i in range(127)]); out = V.astype(int).copy()
    first = (V != 0).argmax(0); lead = V[first, np.arange(V.shape[1])]; out = (out * inv[lead]) % 127
    return comp.sort_cols(out.astype(np.uint8))
def same_up_to_scale(A, B): return (norm_cols(A) == norm_cols(B)).all()
