import types
import numpy as np
from common import need, dataset


def gen(rng, i):
    nx, ny = int(rng.integers(6, 45)), int(rng.integers(6, 45))
    lon0 = float(rng.choice([0, -5, 100, -.5, 300, -60])); lat0 = float(rng.choice([0, -5, 40, -.5, -70]))
    dx = float(rng.choice([.05, .25, 1, 2])); dy = float(rng.choice([.05, .25, 1, 1.5]))
    lon = lon0 + dx * np.arange(nx)
    lat = lat0 + dy * np.arange(ny)
    if rng.random() < .2:
        lon = lon0 + np.cumsum(dx * rng.uniform(.4, 1.6, nx))
        lat = lat0 + np.cumsum(dy * rng.uniform(.4, 1.6, ny))
    if rng.random() < .25:
        lat = lat[::-1].copy()
    if rng.random() < .1:
        lon = lon[::-1].copy()
    m = int(rng.integers(1, 12))
    kind = i % 4
    lo = np.array([rng.integers(0, ny), rng.integers(0, nx)])
    if kind == 0:
        ext = np.array([rng.integers(0, 5), rng.integers(0, 5)])
    elif kind == 1:
        ext = np.array([rng.integers(0, ny), rng.integers(0, nx)])
    elif kind == 2:
        ext = np.array([0, rng.integers(0, nx)]) if rng.random() < .5 else np.array([rng.integers(0, ny), 0])
    else:
        lo = np.array([0, 0]); ext = np.array([ny - 1, nx - 1])
    hi = np.minimum(lo + ext, [ny - 1, nx - 1])
    ind = np.c_[rng.integers(lo[0], hi[0] + 1, m), rng.integers(lo[1], hi[1] + 1, m)]
    ind = np.vstack([ind, [lo[0], hi[1]], [hi[0], lo[1]]])
    # a closed contour around a centre, for the assignment of vertices to nodes
    t = np.linspace(0, 2 * np.pi, int(rng.integers(5, 40)))
    wx, wy = np.ptp(lon), np.ptp(lat)
    rx, ry = wx * rng.uniform(.02, .5), wy * rng.uniform(.02, .5)
    cx = rng.uniform(lon.min() + rx, lon.max() - rx) if wx > 2 * rx else lon.mean()
    cy = rng.uniform(lat.min() + ry, lat.max() - ry) if wy > 2 * ry else lat.mean()
    c = np.c_[np.clip(cx + rx * np.cos(t), lon.min(), lon.max()), np.clip(cy + ry * np.sin(t), lat.min(), lat.max())]
    return {"lon": lon, "lat": lat, "ind": ind, "contour": c, "order": bool(rng.random() < .3)}


def window(ind, shape):
    lo, hi = ind.min(0), ind.max(0)
    m = max(3, int((hi - lo).max()) // 2)
    return np.maximum(lo - m, 0), np.minimum(hi + m, np.array(shape) - 1)


def check(case):
    TE = need("trackeddy.trackeddy", "TrackEddy")
    need("trackeddy.trackeddy", "TrackEddy", "_get_data_in_contour")
    lon, lat = case["lon"], case["lat"]
    ny, nx = len(lat), len(lon)
    X, Y = np.meshgrid(lon, lat)
    z = np.arange(ny * nx, dtype=float).reshape(ny, nx) + 1
    ds = dataset(z, lon, lat)
    te = TE(ds, "ssh")
    te.data2track = ds["ssh"].transpose("lon", "lat") if case["order"] else ds["ssh"]
    X0, Y0 = te.X.copy(), te.Y.copy()
    if not (np.array_equal(X0, X) and np.array_equal(Y0, Y)):
        return "TrackEddy.X/Y are not the mesh of the coordinates"
    ind = case["ind"]
    keep = ind.copy()

    def judge(ind, data, grid, x, y, what):
        b, t = window(ind, (ny, nx))
        want = z[b[0]:t[0] + 1, b[1]:t[1] + 1]
        d = data.transpose("lat", "lon").values
        if x.shape != want.shape or y.shape != want.shape or d.shape != want.shape:
            return "%s: crop of shape %r (coordinates %r), expected rows %d..%d columns %d..%d for nodes %r in a grid %r" % (
                what, d.shape, x.shape, b[0], t[0], b[1], t[1], ind.tolist(), (ny, nx))
        if not np.array_equal(d, want):
            return "%s: the field is not cropped to rows %d..%d columns %d..%d" % (what, b[0], t[0], b[1], t[1])
        if not np.array_equal(x, X[b[0]:t[0] + 1, b[1]:t[1] + 1]) or not np.array_equal(y, Y[b[0]:t[0] + 1, b[1]:t[1] + 1]):
            return "%s: coordinates are cropped differently from the field" % what
        if grid is not None and not np.array_equal(np.asarray(grid), ind - b):
            return "%s: vertex nodes in the crop are %r, expected %r" % (what, np.asarray(grid).tolist(), (ind - b).tolist())

    data, grid, x, y = te._get_data_in_contour(ind.copy())
    r = judge(ind, data, grid, x, y, "_get_data_in_contour")
    if r:
        return r
    # nearest nodes, observed through _data_in_contour
    need("trackeddy.trackeddy", "TrackEddy", "_data_in_contour")
    te.data2track = ds["ssh"]
    Eddy = need("trackeddy.eddy", "Eddy")
    c = case["contour"]
    e = Eddy(c.copy(), 1.5)
    got = {}
    inner = te._get_data_in_contour

    def spy(ind, *a, **k):
        got["ind"] = np.array(ind)
        return inner(ind, *a, **k)
    te._get_data_in_contour = spy
    data, x, y = te._data_in_contour(e)
    d2 = (c[:, 0][:, None] - lon[None]) ** 2
    def nearest(vals, axis):
        d = np.abs(vals[:, None] - axis[None])
        s = np.sort(d, axis=1)
        sure = (s[:, 1] - s[:, 0]) > 1e-9
        return d.argmin(1), sure
    nx_, sx = nearest(c[:, 0], lon)
    ny_, sy = nearest(c[:, 1], lat)
    sure = sx & sy
    want = np.c_[ny_, nx_]
    if "ind" in got:
        g = got["ind"]
        if g.shape != want.shape or not np.array_equal(g[sure], want[sure]):
            k = 0 if g.shape != want.shape else int(np.where((g != want).any(1) & sure)[0][0])
            return "vertex %d %r is assigned node %r, the closest is %r" % (k, c[k].tolist(), g[k].tolist() if g.ndim == 2 else g, want[k].tolist())
    if sure.all():
        b, t = window(want, (ny, nx))
        w = X[b[0]:t[0] + 1, b[1]:t[1] + 1]
        if x.shape != w.shape or not np.array_equal(x, w) or not np.array_equal(y, Y[b[0]:t[0] + 1, b[1]:t[1] + 1]):
            return "the crop used for the contour is not rows %d..%d columns %d..%d" % (b[0], t[0], b[1], t[1])
    return None, {"windows": 1, "contours": int(sure.all())}
