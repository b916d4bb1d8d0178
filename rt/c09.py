import types
import numpy as np
from common import need, Inapplicable, gaussians


def gen(rng, i):
    ny, nx = int(rng.integers(5, 12)), int(rng.integers(5, 12))
    dx = float(rng.choice([.1, .5, 1.0])) * float(rng.choice([1, 1, -1]))
    dy = float(rng.choice([.1, .4, 1.0])) * float(rng.choice([1, 1, -1]))
    x = float(rng.choice([0, -40, 30, -dx * 3])) + dx * np.arange(nx)
    y = float(rng.choice([0, -40, 30, -dy * 3])) + dy * np.arange(ny)
    if rng.random() < .3:
        x = x + abs(dx) * .3 * rng.random(nx)
    X, Y = np.meshgrid(x, y)
    j, k = int(rng.integers(1, ny - 1)), int(rng.integers(1, nx - 1))
    xo, yo = float(X[j, k]), float(Y[j, k])
    amp = float(rng.choice([-1, 1])) * float(rng.uniform(.3, 2))
    a = abs(dx) * float(rng.uniform(1, 3))
    b = a * float(rng.uniform(.3, 1))
    th = float(rng.choice([0.0, rng.uniform(-1.5, 1.5), -.7, np.pi / 2]))
    if i % 10 == 3:
        b = 0.0
    if i % 50 == 7:
        a = b = 0.0
    z = gaussians(X, Y, [(amp, xo, yo, a * rng.uniform(.8, 1.2) + .1, b * rng.uniform(.8, 1.2) + .1, th)])
    z = z + .01 * rng.standard_normal(z.shape)
    if rng.random() < .5:
        z[rng.random(z.shape) < .2] = np.nan
        z[j, k] = amp
    return {"X": X, "Y": Y, "z": z, "max": (amp, yo, xo), "ell": (a, b, th)}


def check(case):
    geo = __import__("trackeddy.geometry", fromlist=["x"])
    FS = need("trackeddy.geometry", "Fit_Surface")
    gaussian = need("trackeddy.geometry", "gaussian")
    X, Y, z = case["X"], case["Y"], case["z"]
    eddy = types.SimpleNamespace(eddy_maxima=np.array(case["max"]).reshape(3, 1) if case["max"][0] > 0 else np.array(case["max"]),
                                 ellipse_params=np.array(case["ell"]), level=np.array(.1))
    if np.ndim(eddy.eddy_maxima) == 2:
        eddy.eddy_maxima = eddy.eddy_maxima
    amp, yo, xo = case["max"]
    a, b, th = case["ell"]
    dx, dy = abs(np.mean(np.diff(X, axis=1))), abs(np.mean(np.diff(Y, axis=0)))
    lo, hi = [xo - dx, yo - dy], [xo + dx, yo + dy]
    for v in (a, b, th):
        w = .7 * abs(v) if v != 0 else 1e-4
        lo.append(v - w); hi.append(v + w)
    lo, hi = np.array(lo), np.array(hi)
    F = FS(eddy, z, X, Y)
    seen = {}
    real = getattr(geo, "least_squares", None)
    if real is not None:
        def spy(fun, x0, *aa, **kw):
            seen["x0"] = np.array(x0, float).copy()
            if "bounds" in kw:
                seen["bounds"] = [np.array(q, float).copy() for q in kw["bounds"]]
            args = kw.get("args", ())
            seen["res"] = [(q, float(np.ravel(fun(q, *args))[0])) for q in (np.array(x0, float),) ]
            return real(fun, x0, *aa, **kw)
        geo.least_squares = spy
    try:
        keep = z.copy(), X.copy(), Y.copy()
        try:
            surf, p = F._fitting()
        except ValueError as e:
            if a == 0 or b == 0:
                # a zero width has no finite residual; only acceptance of the start is promised
                if "infeasible" in str(e) or "bound" in str(e).lower():
                    return "the optimiser rejected the starting point: %s" % e
                surf = None
            else:
                return "the fit failed: %r" % e
    finally:
        if real is not None:
            geo.least_squares = real
    tol = 1e-9 * (1 + np.abs(lo) + np.abs(hi))
    if "bounds" in seen:
        L, U = seen["bounds"]
        if L.shape != (5,) or (np.abs(L - lo) > tol).any() or (np.abs(U - hi) > tol).any():
            return "bounds %r %r, expected %r %r" % (L, U, lo, hi)
        if not ((seen["x0"] >= L).all() and (seen["x0"] <= U).all()):
            return "the starting point %r is outside the bounds" % seen["x0"]
        if np.abs(seen["x0"] - [xo, yo, a, b, th]).max() > 1e-9:
            return "starting point %r, expected %r" % (seen["x0"], [xo, yo, a, b, th])
        q, r = seen["res"][0]
        if a and b:
            d = np.abs(z - np.asarray(gaussian((X, Y, amp), *q)).reshape(z.shape))
            want = np.nanstd(d) * np.nanmean(d)
            if not abs(r - want) <= 1e-9 * (1 + want):
                return "the quantity minimised is %r, expected %r" % (r, want)
    if surf is None:
        return None, {"zero_width": 1}
    p = np.asarray(p, float)
    if p.shape != (5,) or (p < lo - tol).any() or (p > hi + tol).any():
        return "parameters %r outside %r %r" % (p, lo, hi)
    surf = np.asarray(surf)
    if surf.shape != X.shape:
        return "surface of shape %r on a grid %r" % (surf.shape, X.shape)
    if np.all(np.isfinite(surf)) or (p[2] and p[3]):
        want = gaussians(X, Y, [(amp, p[0], p[1], p[2], p[3], p[4])])
        if np.abs(surf - want).max() > 1e-8 * abs(amp):
            return "the surface is not the Gaussian of the parameters %r" % p
    for u, v in zip(keep, (z, X, Y)):
        if not np.array_equal(u, v, equal_nan=True):
            return "the inputs were modified"
    return None, {"fits": 1}
