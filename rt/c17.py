import numpy as np
from common import need, dataset
import tables as T


def gen(rng, i):
    base = T.cloud(rng, int(rng.integers(1, 7)), (float(rng.choice([0, 30])), float(rng.choice([0, 179.9]))), 2.0)
    levels = []
    for _ in range(int(rng.integers(2, 6))):
        es = []
        for b in base:
            if rng.random() < .65:
                es.append(T.eddy(rng, b + .05 * rng.standard_normal(2), radius=float(rng.choice([60, 100, 15]))))
        for _ in range(int(rng.integers(0, 3))):
            es.append(T.eddy(rng, T.cloud(rng, 1, base[0], 6)[0], radius=float(rng.choice([5, 60]))))
        if rng.random() < .12:
            es = []
        levels.append([es[k] for k in rng.permutation(len(es))])
    return {"levels": levels}


def reference(levels):
    joint = []
    st = {"replaced": 0, "dropped": 0, "added": 0}
    for new in levels:
        if not new:
            continue
        if not joint:
            joint = list(new)
            continue
        m = T.match(joint, new)
        nxt = list(joint)
        for i, e in enumerate(new):
            if i in m:
                p = joint[m[i]]["v"]
                if e["v"]["contour_ellipse_error"] < p["contour_ellipse_error"] and \
                        e["v"]["contour_gaussian_error"] < p["contour_gaussian_error"]:
                    nxt[m[i]] = e
                    st["replaced"] += 1
                else:
                    st["dropped"] += 1
            else:
                nxt.append(e)
                st["added"] += 1
        joint = nxt
    return joint, st


def compare(t, joint):
    if not joint:
        return None if t.empty else "eddies out of nothing: %d rows" % len(t)
    if t.empty:
        return "the result is empty, expected %d eddies" % len(joint)
    ids = t.index.get_level_values("identifier").to_numpy()
    key = list(zip(ids, t.index.get_level_values("index").to_numpy()))
    if key != sorted(key):
        return "rows are not sorted by identifier and vertex index: %r" % key
    if sorted(set(int(q) for q in ids)) != list(range(len(joint))):
        return "identifiers are %r, expected 0..%d" % (sorted(set(ids.tolist())), len(joint) - 1)
    for k, e in enumerate(joint):
        r = T.same_rows(t[ids == k], e, "eddy %d" % k)
        if r:
            return r
    return None


def check(case):
    TE = need("trackeddy.trackeddy", "TrackEddy")
    need("trackeddy.trackeddy", "TrackEddy", "_detect_snapshot"); need("trackeddy.trackeddy", "TrackEddy", "_detect_one_level")
    try:
        want, st = reference(case["levels"])
    except T.Ambiguous:
        return None, {"ambiguous": 1}
    te = TE(dataset(np.zeros((4, 5)), np.arange(5.), np.arange(4.)), "ssh")
    te.filter = None
    lv = np.arange(1, len(case["levels"]) + 1) * .5
    tabs = dict(zip(lv.tolist(), case["levels"]))
    te._detect_one_level = lambda level: (T.table(tabs[float(level)]), [])
    got = te._detect_snapshot(0, np.r_[lv[:1], [0.0], lv[1:]])
    r = compare(got, want)
    if r:
        return r + " (levels with %r eddies)" % [len(q) for q in case["levels"]]
    return None, st
