import numpy as np
from common import need


def gen(rng, i):
    a = float(rng.choice([1, -1])) * float(10 ** rng.uniform(-6, 6))
    b = a * float(rng.choice([0, 1, -1, rng.uniform(-1, 1), rng.uniform(.99, 1)]))
    if i % 3 == 0:
        a, b = float(rng.integers(1, 20)), 0.0
        b = float(rng.integers(-int(a), int(a) + 1))
        a *= float(rng.choice([1, -1]))
    return {"a": a, "b": b, "arr": bool(rng.random() < .5)}


def check(case):
    f = need("trackeddy.geometry", "eccentricity")
    a, b = case["a"], case["b"]
    got = f(np.float64(a), np.float64(b)) if case["arr"] else f(a, b)
    got = float(got)
    ref = np.sqrt(max(0.0, 1 - (b / a) ** 2))
    if not (0 <= got <= 1):
        return "eccentricity(%r, %r) = %r" % (a, b, got)
    if abs(got - ref) > 1e-7 + 1e-9 * ref or abs(got ** 2 - ref ** 2) > 1e-12:
        return "eccentricity(%r, %r) = %r, expected %r" % (a, b, got, ref)
    if abs(a) == abs(b) and got != 0:
        return "eccentricity of a circle is %r" % got
    return None, {"pairs": 1}
