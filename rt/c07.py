import numpy as np
from common import need


def curve(rng, n, k):
    if k == 0:
        return rng.integers(-3, 4, (n, 2)).astype(float)
    if k == 1:
        return np.cumsum(rng.standard_normal((n, 2)), axis=0)
    t = np.linspace(0, 2 * np.pi, n)
    return np.c_[rng.uniform(.5, 3) * np.cos(t), rng.uniform(.5, 3) * np.sin(t)] + rng.uniform(-.5, .5, 2)


def gen(rng, i):
    k = int(rng.integers(0, 3))
    n, m = int(rng.integers(1, 14)), int(rng.integers(1, 14))
    if i % 7 == 0:
        m = n
    if i % 40 == 5:
        n, m = int(rng.integers(280, 330)), int(rng.integers(1, 40))
    if i % 40 == 25:
        n, m = int(rng.integers(301, 420)), int(rng.integers(301, 420))
    if i % 160 == 45:
        n, m = int(rng.integers(301, 1300)), int(rng.integers(700, 1300))
    if i % 160 == 85:
        n, m = int(rng.choice([299, 300, 301])), int(rng.choice([299, 300, 301]))
    if i % 160 == 125:
        n, m = 3, int(rng.integers(1100, 2500))
    P, Q = curve(rng, n, k), curve(rng, m, k)
    if i % 7 == 0 and rng.random() < .5:
        Q = P.copy()
    if i % 11 == 0:
        Q = P[::-1].copy()
    return {"P": P, "Q": Q}


def ref(P, Q):
    p, q = P, Q
    c = 2
    while len(p) > 300 and len(q) > 300:
        p, q = p[::c], q[::c]
        c += 1
    d = np.sqrt(((p[:, None] - q[None]) ** 2).sum(-1))
    # the least over all couplings of the largest distance: reachability at each threshold is
    # monotone, so compute by dynamic programming column by column
    M = np.full((len(p) + 1, len(q) + 1), np.inf)
    M[0, 0] = -np.inf
    for i in range(1, len(p) + 1):
        row, up = M[i], M[i - 1]
        for j in range(1, len(q) + 1):
            b = min(up[j], up[j - 1], row[j - 1])
            row[j] = b if b > d[i - 1, j - 1] else d[i - 1, j - 1]
    return M[-1, -1]


def length(P):
    return float(np.sqrt((np.diff(P, axis=0) ** 2).sum(1)).sum())


def check(case):
    f = need("trackeddy.geometry", "frdist")
    g = need("trackeddy.geometry", "compute_similarity")
    P, Q = case["P"], case["Q"]
    keep = P.copy(), Q.copy()
    r = ref(P, Q)
    a = float(f(P, Q))
    if not abs(a - r) <= 1e-9 * (1 + r):
        return "frdist = %r, discrete Frechet distance %r" % (a, r)
    b = float(f(Q, P))
    if not abs(b - a) <= 1e-9 * (1 + r):
        return "frdist is not symmetric: %r %r" % (a, b)
    la, lb = length(P), length(Q)
    if la > 0 and lb > 0:
        s = float(g(P, Q))
        w = max(0.0, 1 - np.sqrt(2) * r / np.sqrt(la * lb))
        if not (0 <= s <= 1) or abs(s - w) > 5.1e-5 or abs(round(s, 4) - s) > 1e-12:
            return "similarity %r, expected %r rounded to four decimals" % (s, w)
        if np.array_equal(P, Q) and len(P) <= 300 and s != 1:
            return "similarity of identical curves is %r" % s
    if not (np.array_equal(keep[0], P) and np.array_equal(keep[1], Q)):
        return "the curves were modified"
    return None, {"pairs": 1}
