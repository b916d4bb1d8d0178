import numpy as np
from common import need
import tables as T


def gen(rng, i):
    c = (float(rng.choice([0, 40, -60])), float(rng.choice([0, 100, 179.9, -180])))
    npr, nn = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    pp = T.cloud(rng, npr, c, 1.5)
    prev = [T.eddy(rng, p) for p in pp]
    new = []
    for _ in range(nn):
        k = int(rng.integers(0, 4))
        if k == 0:
            q = T.cloud(rng, 1, c, 2)[0]
        elif k == 1 and new:
            q = np.array(T.pos(new[int(rng.integers(0, len(new)))]))        # coincident with another new eddy
        elif k == 2:
            q = pp[int(rng.integers(0, npr))]                               # coincident with a predecessor
        else:
            q = pp[int(rng.integers(0, npr))] + .3 * rng.standard_normal(2)
        if c[1] in (179.9, -180.0) and rng.random() < .5:
            q = q + [0, rng.choice([-360, 360])]
        new.append(T.eddy(rng, q, radius=float(rng.choice([5, 30, 80, 200, 400]))))
    for e in new:                        # radii next to the distance that decides
        if rng.random() < .4:
            d = min(T.gc(T.pos(e), p) for p in pp)
            if d > 1e-3:
                e["v"]["radius_eddy"] = d * (1 + float(rng.choice([-1, 1])) * 10.0 ** float(rng.uniform(-6, -1.5)))
    kind = int(rng.integers(0, 3))
    ids = list(range(npr)) if kind == 0 else sorted(rng.choice(50, npr, replace=False).tolist())
    return {"prev": prev, "new": new, "ids": ids, "times": kind == 2, "nid": int(rng.choice([0, 0, 7]))}


def check(case):
    f = need("trackeddy.utils", "_detect_nearest")
    prev, new, ids = case["prev"], case["new"], case["ids"]
    nids = list(range(case["nid"], case["nid"] + len(new)))
    try:
        want = T.match(prev, new)
    except T.Ambiguous:
        return None, {"ambiguous": 1}
    tp = T.table(prev, ids, time=3 if case["times"] else None)
    tn = T.table(new, nids, time=4 if case["times"] else None)
    k1, k2 = tp.copy(), tn.copy()
    index, nearest = f(tp, tn)
    if not (tp.equals(k1) and tn.equals(k2)):
        return "the tables were modified"
    nearest = sorted(int(q) for q in np.ravel(nearest))
    if nearest != sorted(want):
        return "new eddies %r are matched, expected %r" % (nearest, sorted(want))
    for i, p in want.items():
        got = int(np.ravel(index[i])[0])
        if got != ids[p]:
            return "new eddy %d is matched to identifier %r, expected %r" % (i, got, ids[p])
    return None, {"matches": len(want), "tables": 1}
