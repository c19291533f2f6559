"""Worst-case hidden sets for the seed tree (dynamic programming with reconstruction)."""
import functools
import numpy as np

def bits(v): return max(1, int(v).bit_length())

def worst(T, W, rng=None):
    """returns (number of published nodes, list of W hidden leaves attaining it)"""
    h = bits(T)
    L = 1 << h
    NEG = -10**6
    @functools.lru_cache(None)
    def f(height, used):
        """best[w] = most nodes published inside a subtree with `used` real leaves given w>=1 hidden ones"""
        n = 1 << height
        if height == 0:
            a = np.full(2, NEG); a[0] = 1
            if used: a[1] = 0
            return a
        lu = min(used, n // 2); ru = used - lu
        A, B = f(height - 1, lu), f(height - 1, ru)
        m = min(used, W)
        out = np.full(m + 1, NEG)
        for i in range(len(A)):
            for j in range(len(B)):
                if i + j <= m and A[i] + B[j] > out[i + j]: out[i + j] = A[i] + B[j]
        out[0] = 1
        return out
    def build(height, used, w, base, acc):
        if w == 0: return
        if height == 0: acc.append(base); return
        n = 1 << height
        lu = min(used, n // 2); ru = used - lu
        A, B = f(height - 1, lu), f(height - 1, ru)
        best = f(height, used)[w]
        opts = [i for i in range(len(A)) if 0 <= w - i < len(B) and A[i] + B[w - i] == best]
        i = opts[0] if rng is None else opts[int(rng.integers(len(opts)))]
        build(height - 1, lu, i, base, acc); build(height - 1, ru, w - i, base + n // 2, acc)
    tot = int(f(h, T)[W]); acc = []
    build(h, T, W, 0, acc)
    f.cache_clear()
    return tot, acc

def challenge(T, kp, hidden, rng):
    x = np.zeros(T, np.uint8)
    for i in hidden: x[i] = 1 if kp == 2 else int(rng.integers(1, kp))
    return x
