import numpy as np
from contour_common import gen, contours, crossings, cells


def check(case):
    segs = contours(case)
    z = case["z"]
    ny, nx = z.shape
    E = crossings(case["X"], case["Y"], z, case["level"])
    P = np.array([e[:2] for e in E]).reshape(-1, 2)
    scale = max(np.abs(case["X"]).max(), np.abs(case["Y"]).max())
    tol = 1e-9 * scale
    cs = [cells(e, z.shape) for e in E]
    border = [(e[2] == "h" and e[3] in (0, ny - 1)) or (e[2] == "v" and e[4] in (0, nx - 1)) for e in E]
    nv = 0
    for n, s in enumerate(segs):
        if s.ndim != 2 or s.shape[1] != 2 or len(s) == 0:
            return "contour %d is not a list of points: shape %r" % (n, s.shape)
        prev = None
        cands = []
        for k, v in enumerate(s):
            nv += 1
            c = list(np.where(np.abs(P - v).max(axis=1) <= tol)[0]) if len(P) else []
            if not c:
                return "vertex %d of contour %d %r is not the interpolated crossing of any crossed grid edge" % (k, n, tuple(v))
            cands.append(c)
            if prev is not None:
                c = [b for b in c if any(cs[a] & cs[b] for a in prev)]
                if not c:
                    return "vertices %d and %d of contour %d do not lie on edges of a common cell" % (k - 1, k, n)
            prev = c
        closed = np.abs(s[0] - s[-1]).max() <= tol and len(s) > 2
        if not closed:
            for k in (0, -1):
                if not any(border[a] for a in cands[k]):
                    return "contour %d is open but an end %r is not on the boundary" % (n, tuple(s[k]))
    return None, {"vertices": nv, "contours": len(segs)}
