import numpy as np
from common import need

R = 6378.137


def gen(rng, i):
    n = int(rng.choice([2, 3, 4, 5, 10, 50]))
    k = i % 6
    if k == 0:
        p = np.c_[rng.uniform(-180, 360, n), rng.uniform(-90, 90, n)]
    elif k == 1:                                     # around the reference point
        t = np.linspace(0, 2 * np.pi, n + 1)
        p = np.c_[rng.uniform(.5, 8) * np.cos(t), rng.uniform(.5, 8) * np.sin(t)] + rng.uniform(-.3, .3, 2)
    elif k == 2:                                     # across the reference meridian plane
        t = np.linspace(0, 2 * np.pi, n + 1)
        p = np.c_[rng.uniform(.5, 8) * np.cos(t) + rng.choice([0, 90, 180, -90, 359]), rng.uniform(.5, 8) * np.sin(t) + rng.uniform(-60, 60)]
    elif k == 3:
        p = rng.integers(-9, 10, (n, 2)) * 10.0
    elif k == 4:
        t = np.linspace(0, 2 * np.pi, n + 1)
        p = np.c_[rng.uniform(.1, 3) * np.cos(t) + rng.uniform(-180, 180), rng.uniform(.1, 3) * np.sin(t) + rng.uniform(-85, 85)]
    else:
        p = np.cumsum(rng.standard_normal((n, 2)) * 2, axis=0) + rng.uniform(-40, 40, 2)
    if rng.random() < .5:
        p = p[::-1]
    return {"p": np.ascontiguousarray(p)}


def terms(p):
    lo, la = np.deg2rad(p[:, 0]), np.deg2rad(p[:, 1])
    x, y, z = np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)
    colat = np.arctan2(np.hypot(y, z), x)
    az = np.arctan2(y, z)
    r = np.hypot(y, z)
    d = np.diff(az)
    w = (d + np.pi) % (2 * np.pi) - np.pi
    m = (colat[1:] + colat[:-1]) / 2
    return m, w, r


def check(case):
    f = need("trackeddy.geometry", "area_latlon_polygon")
    p = case["p"]
    keep = p.copy()
    got = np.asarray(f(p))
    if not np.array_equal(keep, p):
        return "the contour was modified"
    if got.shape != ():
        return "not a scalar: %r" % (got,)
    m, w, r = terms(p)
    # a segment that turns by (nearly) half a turn, or an end (nearly) at the
    # reference point: which side rounding takes is not determined
    if (np.abs(np.abs(w) - np.pi) < 1e-7).any() or ((r < 1e-9)).any():
        return None, {"skipped": 1}
    ref = abs(np.sum((1 - np.cos(m)) * w)) * R ** 2
    # points almost at the reference point have an ill-conditioned azimuth
    tol = 1e-6 * (1 + ref) + R ** 2 * np.sum(1e-14 / np.minimum(r[1:], r[:-1]) * (1 - np.cos(m))) + 1e-5
    if not np.isfinite(got) or got < 0:
        return "area %r is negative or not finite (expected %r)" % (float(got), ref)
    if abs(got - ref) > tol:
        return "area %r, expected %r" % (float(got), ref)
    back = float(f(np.ascontiguousarray(p[::-1])))
    if abs(back - got) > tol:
        return "area %r but %r in the other direction" % (float(got), back)
    return None, {"areas": 1}
