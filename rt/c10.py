import numpy as np
from common import need


def gen(rng, i):
    p = float(rng.choice([rng.uniform(-90, 90), rng.integers(-90, 91), rng.uniform(-5, 5), 0.0]))
    return {"p": p, "q": float(abs(p) + rng.uniform(.01, 10))}


def check(case):
    f = need("trackeddy.physics", "approx_RD_lat")
    p, q = case["p"], case["q"]
    g = float(f(p))
    r = 200 * np.exp(-0.01125 * p * p) + 60 * np.exp(-0.0005625 * p * p)
    if not abs(g - r) <= 1e-9 * r:
        return "radius at %r is %r, expected %r" % (p, g, r)
    if float(f(-p)) != g or not (0 < g <= 260 + 1e-9) or not float(f(q)) < g:
        return "radius at %r: %r, at %r: %r, at %r: %r" % (p, g, -p, f(-p), q, f(q))
    a = np.array([p, q])
    if np.abs(np.asarray(f(a)) - [g, float(f(q))]).max() > 1e-9:
        return "array of latitudes gives other values"
    return None, {"latitudes": 1}
