import numpy as np
from common import need


def gen(rng, i):
    k = i % 6
    n = int(rng.integers(5, 60))
    t = np.sort(rng.uniform(0, 2 * np.pi, n)) if rng.random() < .5 else np.linspace(0, 2 * np.pi, n)
    a = float(rng.uniform(.3, 5))
    b = a * float(rng.choice([1.0, .9, .6, .3, 1.3]))
    th = float(rng.uniform(-np.pi, np.pi))
    if k == 0:
        th = 0.0
    if k == 1:                                     # exactly symmetric lattice points
        s = [(3, 4), (4, 3), (-3, 4), (-4, 3), (3, -4), (4, -3), (-3, -4), (-4, -3), (5, 0), (-5, 0), (0, 5), (0, -5)]
        p = np.array(s, float) * [float(rng.choice([1, 2, .5])), float(rng.choice([1, 2, .5]))]
        p = p + rng.integers(-8, 8, 2)
        return {"p": p, "shift": rng.integers(-16, 16, 2).astype(float)}
    x, y = a * np.cos(t), b * np.sin(t)
    p = np.c_[x * np.cos(th) - y * np.sin(th), x * np.sin(th) + y * np.cos(th)]
    if k >= 3:
        p = p + rng.standard_normal(p.shape) * .03 * a
    if k == 5:                                     # grid-like points: many repeated coordinates
        p = np.round(p * 8) / 8
    p = p + (rng.uniform(-30, 30, 2) if k != 2 else 0)
    return {"p": p, "shift": rng.uniform(-20, 20, 2)}


def check(case):
    f = need("trackeddy.geometry", "fit_ellipse")
    p = np.asarray(case["p"])
    x, y = p[:, 0].copy(), p[:, 1].copy()
    m = p.mean(axis=0)
    q = p - m
    D = np.c_[q[:, 0] ** 2, q[:, 0] * q[:, 1], q[:, 1] ** 2, q[:, 0], q[:, 1]]
    s = np.abs(q).max()
    if s == 0:
        return None, {"skipped": 1}
    Dn = D / [s * s, s * s, s * s, s, s]
    if np.linalg.matrix_rank(Dn) < 5 or np.linalg.cond(Dn) > 300:
        return None, {"skipped": 1}
    co = np.linalg.lstsq(Dn, np.ones(len(p)), rcond=None)[0]
    A, B, C, d, e = co                             # in units of s
    F = 1 + 0
    if not (A > 1e-3 and C > 1e-3 and 4 * A * C - B * B > 1e-2 * A * C):
        return None, {"skipped": 1}
    ratio = min(abs(B / A), abs(B / C))
    curve, params = f(x, y)
    if not (np.array_equal(x, p[:, 0]) and np.array_equal(y, p[:, 1])):
        return "the points were modified"
    curve = np.asarray(curve)
    if curve.shape != p.shape:
        return "the curve has shape %r for %d points" % (curve.shape, len(p))
    if len(params) != 3 or not np.all(np.isfinite(np.asarray(params, float))):
        return "parameters %r" % (params,)
    maj, mi, ang = map(float, params)
    if not (maj >= mi >= 0):
        return "semi-axes %r %r" % (maj, mi)
    if abs(ratio - 1e-3) < 1e-6:
        return None, {"skipped": 1}
    rel = (curve - m) / s
    Bu = B if ratio > 1e-3 else 0.0
    val = A * rel[:, 0] ** 2 + Bu * rel[:, 0] * rel[:, 1] + C * rel[:, 1] ** 2 + d * rel[:, 0] + e * rel[:, 1]
    scale = 1 + A + C + abs(d) + abs(e)
    if np.abs(val - 1).max() > 1e-6 * scale * (1 + (np.abs(m).max() / s) ** 1):
        return "fitted points are off the least-squares conic by %g (coefficients %r)" % (np.abs(val - 1).max(), list(co))
    # extent: the semi-axes are those of that conic
    M = np.array([[A, Bu / 2], [Bu / 2, C]])
    c0 = -0.5 * np.linalg.solve(M, [d, e])
    K = 1 + c0 @ M @ c0
    ax = np.sort(np.sqrt(K / np.linalg.eigvalsh(M)) * s)[::-1]
    if not np.allclose([maj, mi], ax, rtol=1e-5):
        return "semi-axes %r, conic has %r" % ((maj, mi), ax)
    # the curve is the whole ellipse, closed
    if len(p) >= 5 and np.abs(curve[0] - curve[-1]).max() > 1e-6 * s:
        return "the fitted curve is not closed"
    if abs(B) > 1e-6:
        want = np.arctan((C - A - np.sqrt((A - C) ** 2 + B ** 2)) / B)
        if abs(np.tan(want)) < 1e3 or True:
            dlt = abs(ang - want)
            if min(dlt, abs(dlt - np.pi)) > 1e-5 / abs(B) * 1e-2 + 1e-6 or (dlt > 1 and abs(abs(want) - np.pi / 2) > 1e-3):
                return "angle %r, expected %r" % (ang, want)
    elif not (min(abs(ang), abs(abs(ang) - np.pi / 2)) < 1e-3 or abs(A - C) < 1e-4):
        return "angle %r for an axis-aligned ellipse" % ang
    # exactly axis-aligned: 0 or 90 degrees
    if len(p) == 12 and abs(B) < 1e-13 and abs(A - C) > 1e-3:
        want = 0.0 if A < C else np.pi / 2
        if min(abs(ang - want), abs(ang + want)) > 1e-6:
            return "angle %r of an ellipse with axes along x and y, expected %r" % (ang, want)
    sh = case["shift"]
    c2, p2 = f(x + sh[0], y + sh[1])
    if abs(ratio - 1e-3) > 1e-5:
        # (with a == c the rounding decides where the curve starts)
        if abs(A - C) > 1e-7 and np.abs(np.asarray(c2) - (curve + sh)).max() > 1e-5 * (s + np.abs(sh).max() + np.abs(m).max()):
            return "fitting translated points does not translate the curve (by %r)" % (sh,)
        if not np.allclose(p2[:2], params[:2], rtol=1e-5):
            return "semi-axes change under translation: %r %r" % (params, p2)
        if abs(B) > 1e-4 and min(abs(float(p2[2]) - ang), abs(abs(float(p2[2]) - ang) - np.pi)) > 1e-4:
            return "angle changes under translation: %r %r" % (params, p2)
    return None, {"ellipses": 1}
