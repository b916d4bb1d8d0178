import numpy as np
from common import need


def gen(rng, i):
    ny, nx = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    X, Y = np.meshgrid(np.sort(rng.uniform(-20, 20, nx)), np.sort(rng.uniform(-20, 20, ny)))
    if rng.random() < .4:
        X = X + rng.uniform(-.5, .5, X.shape)
        Y = Y + rng.uniform(-.5, .5, Y.shape)
    x0, y0 = rng.uniform(-20, 20, 2)
    if rng.random() < .5:
        j, k = rng.integers(0, ny), rng.integers(0, nx)
        x0, y0 = X[j, k], Y[j, k]
    sx, sy = rng.choice([-1, 1], 2) * 10 ** rng.uniform(-1, 1.5, 2)
    if rng.random() < .2:       # nearly round
        sy = sx * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-7, -1))
    t = float(rng.choice([0, np.pi / 2, np.pi / 4, rng.uniform(-7, 7)]))
    return {"X": X, "Y": Y, "amp": float(rng.choice([0, -1, 1, rng.uniform(-3, 3)])), "p": [float(x0), float(y0), float(sx), float(sy), t]}


def check(case):
    f = need("trackeddy.geometry", "gaussian")
    X, Y, A, (x0, y0, sx, sy, t) = case["X"], case["Y"], case["amp"], case["p"]
    keep = X.copy(), Y.copy()
    g = np.asarray(f((X, Y, A), x0, y0, sx, sy, t))
    if not (np.array_equal(keep[0], X) and np.array_equal(keep[1], Y)):
        return "coordinates modified"
    if g.shape != (X.size,):
        return "shape %r for %r nodes" % (g.shape, X.shape)
    dx, dy = (X - x0).ravel(), (Y - y0).ravel()
    u, v = dx * np.cos(t) + dy * np.sin(t), dy * np.cos(t) - dx * np.sin(t)
    ex = u ** 2 / (2 * sx ** 2) + v ** 2 / (2 * sy ** 2)
    big = (dx ** 2 + dy ** 2) / (2 * min(sx ** 2, sy ** 2))
    r = A * np.exp(-ex)
    tol = np.minimum(abs(A), abs(A) * (1e-12 * (1 + big)) * np.exp(-ex + np.minimum(1e-12 * big, 1))) + 1e-300
    if (np.abs(g - r) > tol).any():
        k = int(np.argmax(np.abs(g - r)))
        return "surface at (%r, %r) is %r, expected %r" % (X.ravel()[k], Y.ravel()[k], g[k], r[k])
    if (np.abs(g) > abs(A) * (1 + 1e-9)).any() or (g * A < 0).any():
        return "surface exceeds its amplitude or changes sign"
    return None, {"nodes": X.size}
