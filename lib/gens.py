"""Input generators shared by the property modules: every choice comes from the given rng."""
import numpy as np

def field(rng, shape, kind=None):
    kind = kind if kind is not None else int(rng.integers(9))
    if kind == 0: return rng.integers(0, 127, shape).astype(np.uint8), "uniform"
    if kind == 1: return rng.integers(0, 2, shape).astype(np.uint8), "0/1"
    if kind == 2: return np.full(shape, 126, np.uint8), "all 126"
    if kind == 3: return (rng.integers(0, 127, shape) * (rng.random(shape) < 0.05)).astype(np.uint8), "sparse"
    if kind == 4: return rng.choice(np.array([0, 1, 2, 63, 64, 125, 126], np.uint8), shape), "extremes"
    if kind == 5: return np.full(shape, int(rng.integers(0, 127)), np.uint8), "constant"
    if kind == 6: return rng.integers(120, 127, shape).astype(np.uint8), "large"
    if kind == 7: return (rng.integers(0, 127, shape) * (rng.random(shape) < 0.5)).astype(np.uint8), "half zero"
    return rng.integers(1, 127, shape).astype(np.uint8), "nonzero"

def perm(rng, n, kind=None):
    kind = kind if kind is not None else int(rng.integers(7))
    p = np.arange(n, dtype=np.uint16)
    if kind <= 1: return rng.permutation(n).astype(np.uint16), "random"
    if kind == 2: return p, "identity"
    if kind == 3: return p[::-1].copy(), "reverse"
    if kind == 4: return np.roll(p, int(rng.integers(1, n))).astype(np.uint16), "rotation"
    if kind == 5:
        i, j = rng.choice(n, 2, replace=False); p[i], p[j] = p[j], p[i]; return p, "transposition"
    b = int(rng.choice([2, 4, 8, 16, 32]))
    for s in range(0, n, b): p[s:s + b] = p[s:s + b][rng.permutation(len(p[s:s + b]))]
    return p, "block"

def coefs(rng, n, kind=None):
    kind = kind if kind is not None else int(rng.integers(5))
    if kind <= 1: return rng.integers(1, 127, n).astype(np.uint8), "random"
    if kind == 2: return np.ones(n, np.uint8), "ones"
    if kind == 3: return np.full(n, 126, np.uint8), "126"
    return rng.choice(np.array([1, 2, 63, 64, 125, 126], np.uint8), n), "extremes"

def monomial(rng, n):
    c, a = coefs(rng, n); p, b = perm(rng, n); return c, p, f"{a}/{b}"

def action(rng, K, N):
    k = int(rng.integers(5))
    if k <= 1: p = rng.choice(N, K, replace=False)
    elif k == 2: p = np.arange(K)
    elif k == 3: p = np.arange(N - K, N)
    else: p = np.arange(N)[rng.permutation(N)[:K]]; p.sort()
    c, a = coefs(rng, K)
    return p.astype(np.uint16), c, f"{a}/{k}"

def pivots(rng, K, N, kind=None):
    kind = kind if kind is not None else int(rng.integers(6))
    f = np.zeros(N, np.uint8)
    if kind == 0: f[:K] = 1; n = "first"
    elif kind == 1: f[N - K:] = 1; n = "last"
    elif kind == 2: f[0:2 * K:2] = 1; n = "even"
    elif kind == 3: f[rng.choice(N, K, replace=False)] = 1; n = "random"
    elif kind == 4:     # generic: systematic but for a few columns
        f[:K] = 1; d = int(rng.integers(1, 4)); f[rng.choice(K, d, replace=False)] = 0; f[K:K + d] = 1; n = "near-systematic"
    else: f[1::2] = 1; n = "odd"
    assert f.sum() == K
    return f, n

def rref(rng, K, N, piv=None):
    """a matrix in RREF shape (pivot columns are unit vectors; entries left of a row's pivot are NOT forced to zero
    unless strict): returns (G, piv, name)"""
    if piv is None: piv, pn = pivots(rng, K, N)
    else: pn = "given"
    G = np.zeros((K, N), np.uint8)
    B, bn = field(rng, (K, N - K))
    k = int(rng.integers(5)); B = B.copy()
    if k == 1:      # repeated columns
        for _ in range(int(rng.integers(1, 20))): i, j = rng.integers(0, N - K, 2); B[:, i] = B[:, j]
        bn += "+dup"
    elif k == 2:    # scaled repeats (equal after normalisation)
        for _ in range(int(rng.integers(1, 20))): i, j = rng.integers(0, N - K, 2); B[:, i] = (B[:, j].astype(int) * int(rng.integers(1, 127)) % 127)
        bn += "+scaled dup"
    elif k == 3:    # zero columns and columns differing only in the last entries
        B[:, rng.integers(0, N - K, 3)] = 0
        i, j = rng.integers(0, N - K, 2); B[:, i] = B[:, j]; B[K - 1, i] = (int(B[K - 1, j]) + 1) % 127
        bn += "+zero/near ties"
    elif k == 4:
        r = rng.integers(0, K, 4); B[r] = 0; bn += "+zero rows"
    G[:, piv == 0] = B
    G[:, np.flatnonzero(piv)] = np.eye(K, dtype=np.uint8)
    return G, piv, f"{pn} {bn}"

def true_rref(rng, K, N, piv=None):
    """genuine RREF: zero to the left of each row's pivot"""
    G, piv, n = rref(rng, K, N, piv)
    cols = np.flatnonzero(piv)
    mask = np.arange(N)[None, :] > cols[:, None]
    keep = mask | (np.arange(N)[None, :] == cols[:, None])
    return (G * keep).astype(np.uint8), piv, n

def mulmod(A, B):
    return ((A.astype(np.float64) @ B.astype(np.float64)) % 127).astype(np.uint8)

def invertible(rng, n):
    """random invertible matrix as a product of unit triangulars, a permutation and a diagonal"""
    L = np.tril(rng.integers(0, 127, (n, n)), -1) + np.eye(n, dtype=int)
    U = np.triu(rng.integers(0, 127, (n, n)), 1) + np.diag(rng.integers(1, 127, n))
    M = mulmod(L % 127, U % 127)
    return M[rng.permutation(n)]

def matrix(rng, K, N):
    """K x N matrices for row reduction, many of them degenerate: returns (G, name)"""
    k = int(rng.integers(14))
    if k == 0: return field(rng, (K, N), 0)[0], "uniform"
    if k == 1:
        G, n = field(rng, (K, N)); return G.copy(), "field " + n
    if k == 2:                                # full-rank, chosen pivots, scrambled rows
        G, p, n = true_rref(rng, K, N); return mulmod(invertible(rng, K), G), "scrambled rref " + n
    if k == 3:                                # already in RREF shape
        G, p, n = true_rref(rng, K, N); return G, "rref " + n
    if k == 4:                                # rows of an RREF permuted: swaps at every step
        G, p, n = true_rref(rng, K, N); return G[rng.permutation(K)], "row-permuted rref"
    if k == 5:                                # rank K-1: one row a combination of others
        G = field(rng, (K, N), 0)[0]; i = int(rng.integers(K)); o = [r for r in range(K) if r != i]
        c = rng.integers(0, 127, (1, K - 1)); G[i] = mulmod(c, G[o]); return G, "dependent row"
    if k == 6:
        G = field(rng, (K, N), 0)[0]; i, j = rng.choice(K, 2, replace=False); G[i] = G[j]; return G, "repeated row"
    if k == 7:
        G = field(rng, (K, N), 0)[0]; G[int(rng.integers(K))] = 0; return G, "zero row"
    if k == 8:                                # leading zero columns: pivots far to the right
        G = field(rng, (K, N), 0)[0]; z = int(rng.integers(1, N - K + 1)); G[:, :z] = 0; return G, "leading zero columns"
    if k == 9:                                # zero columns anywhere
        G = field(rng, (K, N), 0)[0]; G[:, rng.choice(N, int(rng.integers(1, N - K + 1)), replace=False)] = 0; return G, "zero columns"
    if k == 10:                               # upper triangular: rank depends on the diagonal
        G = np.zeros((K, N), np.uint8); G[:, :K] = np.triu(rng.integers(0, 127, (K, K))); G[:, K:] = field(rng, (K, N - K))[0]
        np.fill_diagonal(G[:, :K], rng.integers(1, 127, K)); return G, "upper triangular"
    if k == 11:                               # anti-diagonal
        G = np.zeros((K, N), np.uint8); G[np.arange(K), N - 1 - np.arange(K)] = rng.integers(1, 127, K); return G, "antidiagonal"
    if k == 12:                               # pivots only in the last columns of the last row
        G, p, n = true_rref(rng, K, N, pivots(rng, K, N, 3)[0]); G = G.copy(); c = np.flatnonzero(p)
        return mulmod(np.triu(rng.integers(0, 127, (K, K)), 1) % 127 + np.diag(rng.integers(1, 127, K)), G), "triangular scramble"
    r = int(rng.integers(1, K)); A = rng.integers(0, 127, (K, r)); B = rng.integers(0, 127, (r, N))
    return mulmod(A, B), f"low rank"

def full_rank_matrix(rng, K, N):
    G, p, n = true_rref(rng, K, N)
    return mulmod(invertible(rng, K), G), n

def hidden_sets(rng, T, W, n):
    """leaf sets of weight W, structured and random"""
    for i in range(n):
        k = i % 9; h = np.zeros(T, np.uint8)
        if k == 0: h[rng.choice(T, W, replace=False)] = 1; nm = "random"
        elif k == 1: h[:W] = 1; nm = "first"
        elif k == 2: h[T - W:] = 1; nm = "last"
        elif k == 3: h[np.unique((np.arange(W) * T) // W)] = 1; nm = "spread"
        elif k == 4:
            s = int(rng.integers(0, T - W + 1)); h[s:s + W] = 1; nm = "run"
        elif k == 5: h[0:2 * W:2] = 1; nm = "even"
        elif k == 6:
            s = int(rng.integers(0, T - 2 * W + 1)); h[s:s + 2 * W:2] = 1; nm = "alternate"
        elif k == 7:
            b = 1 << int(rng.integers(1, 6)); idx = rng.permutation(np.arange(0, T, b))[:W]; h[idx] = 1; nm = "aligned"
        else:
            h[0] = h[T - 1] = 1; h[rng.choice(np.arange(1, T - 1), W - 2, replace=False)] = 1; nm = "both ends"
        short = W - int(h.sum())
        if short > 0: h[rng.choice(np.flatnonzero(h == 0), short, replace=False)] = 1
        yield h, nm

def pattern(rng, n, known=()):
    """n bytes as no generator delivers them in a lifetime"""
    r = int(rng.integers(9)); b = bytes(rng.integers(0, 256, n, dtype=np.uint8)); v = [0, 255, 1, 0x80, int(rng.integers(256))][int(rng.integers(5))]; k = [1, 2, 4, 8, 16, n // 2, n - 1, n][int(rng.integers(8))]; k = min(k, n)
    if r == 0: return bytes([v]) * n
    if r == 1: return bytes([v]) * k + b[k:]
    if r == 2: return b[:n - k] + bytes([v]) * k
    if r == 3: return (b[:k] * (n // k + 1))[:n]
    if r == 4: return bytes(range(n))
    if r == 5: j = int(rng.integers(n)); return b[:j] + bytes([v]) * min(8, n - j) + b[j + 8:]
    if r == 6: return bytes(n - 1) + bytes([v])
    if r == 7 and known: a = known[int(rng.integers(len(known)))]; return (a * (n // len(a) + 1))[:n]
    return b[:n // 2] * 2 if n % 2 == 0 else b
def seed_bytes(rng, n, known=()): return pattern(rng, n, known) if rng.integers(3) == 0 else rng.bytes(n)
def relative(rng, b):
    """bytes sharing a long prefix or suffix with b, or the same bytes in another order"""
    k = int(rng.integers(7)); n = len(b); h = n // 2; x = bytearray(b)
    if k == 0: x[n - 1] ^= 1 << int(rng.integers(8))
    elif k == 1: x[0] ^= 1 << int(rng.integers(8))
    elif k == 2: x[int(rng.integers(n))] ^= 1 << int(rng.integers(8))
    elif k == 3: x[h:] = rng.bytes(n - h)
    elif k == 4: x[:h] = rng.bytes(h)
    elif k == 5: x = x[h:] + x[:h]
    else: x = x[::-1]
    return bytes(x)
