import importlib, sys
import numpy as np
from common import need, dataset, random_axes, random_field, blobs


def gen(rng, i):
    items = []
    for _ in range(int(rng.integers(2, 6))):
        lon, lat = random_axes(rng)
        X, Y = np.meshgrid(lon, lat)
        k = int(rng.integers(0, 4))
        z = random_field(rng, X, Y, n=int(rng.integers(1, 8)), noise=float(rng.choice([0, 0, .02])))
        if rng.random() < .7:
            z = blobs(rng, X, Y)
        crit = dict(ellipse_fit=float(rng.choice([.85, 1.0])), eccentricity=float(rng.choice([.85, .97])),
                    gaussian_fit=.5, max_area=float(rng.choice([20.0, 20.0, .01])))
        level = float(rng.choice([-1, 1])) * float(rng.uniform(.1, .5))
        if k == 0:
            level = 50.0                      # no contours
        items.append((lon, lat, z, crit, level))
    if i % 50 == 7:                           # hundreds of contours in one search
        n = int(rng.integers(30, 60))
        lon, lat = 100 + np.arange(2.0 * n) * .5, -np.linspace(40, 5, 2 * n)
        X, Y = np.meshgrid(np.arange(2 * n), np.arange(2 * n))
        w = int(rng.choice([2, 6]))           # chequered, or round bumps
        z = np.sin(np.pi * (X + .5) / w) * np.sin(np.pi * (Y + .5) / w)
        items.append((lon, lat, z, dict(ellipse_fit=.85, eccentricity=.97, gaussian_fit=.5, max_area=20.0 if w == 6 else .01), .4))
        return {"items": items, "order": [len(items) - 1, 0], "shared": False}
    order = [int(rng.integers(0, len(items))) for _ in range(int(rng.integers(2, 7)))]
    return {"items": items, "order": order, "shared": bool(rng.random() < .3)}


def search(TE, item, te=None):
    lon, lat, z, crit, level = item
    ds = dataset(z, lon, lat)
    te = TE(ds, "ssh")
    te.identification_criteria = dict(crit)
    te.skip_gaussian_fit = True
    te.data2track = ds["ssh"]
    E, D = te._detect_one_level(level)
    return E, D


def same(a, b):
    if hasattr(a, "columns") != hasattr(b, "columns"):
        return False
    if not hasattr(a, "columns"):
        return len(a) == len(b)
    if a.empty or b.empty:
        return a.empty == b.empty
    if list(a.columns) != list(b.columns) or len(a) != len(b) or list(a.index) != list(b.index):
        return False
    for c in a.columns:
        u, v = a[c].values, b[c].values
        if not all((str(p) == str(q)) for p, q in zip(u, v)):
            return False
    return True


def fresh():
    """The package as freshly imported (its own module state)."""
    old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "trackeddy" or k.startswith("trackeddy.")}
    try:
        m = importlib.import_module("trackeddy.trackeddy")
        return m.TrackEddy
    finally:
        for k in list(sys.modules):
            if (k == "trackeddy" or k.startswith("trackeddy.")) and k in old:
                del sys.modules[k]
        sys.modules.update(old)


def check(case):
    TE = need("trackeddy.trackeddy", "TrackEddy")
    need("trackeddy.trackeddy", "TrackEddy", "_detect_one_level")
    alone = {}
    for k in sorted(set(case["order"])):
        alone[k] = search(fresh(), case["items"][k])
    st = {"searches": 0, "accepting": 0, "discarding": 0}
    for n, k in enumerate(case["order"]):
        E, D = search(TE, case["items"][k])
        st["searches"] += 1
        if not E.empty:
            ids = [int(q) for q in E.index.get_level_values(0)]
            u = list(dict.fromkeys(ids))
            st["accepting"] += 1
            if u != list(range(len(u))):
                return "search %d: accepted eddies numbered %r" % (n, u)
        if hasattr(D, "columns"):
            st["discarding"] += 1
            if [int(q) for q in D.index] != list(range(len(D))):
                return "search %d: discarded contours numbered %r" % (n, list(D.index))
        if not same(E, alone[k][0]) or not same(D, alone[k][1]):
            return "search %d of %r gives other results than the same search alone: accepted %s/%s rows, discarded %s/%s" % (
                n, case["order"], len(E), len(alone[k][0]), len(D), len(alone[k][1]))
    return None, st
