import numpy as np
from contour_common import gen, contours, crossings


def check(case):
    segs = contours(case)
    E = crossings(case["X"], case["Y"], case["z"], case["level"])
    P = np.array([e[:2] for e in E]).reshape(-1, 2)
    tol = 1e-9 * (max(np.abs(case["X"]).max(), np.abs(case["Y"]).max()))
    V = np.vstack(segs) if segs else np.zeros((0, 2))
    ends = np.array([s[0] for s in segs if np.abs(s[0] - s[-1]).max() <= tol and len(s) > 1]).reshape(-1, 2)
    near = lambda A, p: int((np.abs(A - p).max(axis=1) <= tol).sum()) if len(A) else 0
    for v in V:
        if near(P, v) == 0:
            return "vertex %r is not the crossing of an edge" % (tuple(v),)
    for p, e in zip(P, E):
        extra = near(V, p) - near(P, p)
        if extra < 0:
            return "crossed edge %s at row %d column %d has no vertex of its own" % (e[2:])
        if extra > near(ends, p):
            return "crossed edge %s at row %d column %d has more than one vertex" % (e[2:])
        # a closed contour without repeated points must be closed by exactly one repetition
        if near(P, p) == 1 and extra != near(ends, p) and near(ends, p) == 1 and near(V, p) != 2:
            return "closing vertex at %r inconsistent" % (tuple(p),)
    return None, {"crossings": len(E)}
