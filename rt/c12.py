import numpy as np
from scipy import ndimage
from common import need, dataset, random_field
from contour_common import field  # noqa: F401


def gen(rng, i):
    nx, ny = int(rng.integers(8, 26)), int(rng.integers(8, 26))
    lon = float(rng.choice([0, -20, 150])) + .5 * np.arange(nx)
    lat = float(rng.choice([0, -30, 20])) + .4 * np.arange(ny)
    X, Y = np.meshgrid(lon, lat)
    if i % 3 == 2:
        z = rng.integers(-3, 4, X.shape).astype(float)
        level = float(rng.choice([-1.5, .5, 1.5]))
    else:
        z = random_field(rng, X, Y, noise=.1)
        level = float(rng.choice([-1, 1])) * float(rng.uniform(.05, .6))
    if rng.random() < .3:
        z = z - float(rng.uniform(0, 1.5)) * np.sign(level)
    if rng.random() < .25:
        z[rng.random(z.shape) < .1] = np.nan
    return {"lon": lon, "lat": lat, "z": z, "level": level, "contour": i % 5 != 0,
            "loop": np.c_[rng.integers(1, ny - 1, 30), rng.integers(1, nx - 1, 30)], "seed": int(rng.integers(0, 1 << 30))}


def walk(rng, shape):
    """A closed 8-connected walk of nodes."""
    h, w = shape
    cy, cx = h / 2, w / 2
    t = np.linspace(0, 2 * np.pi, 80)
    r = 1 + .35 * np.sin(int(rng.integers(2, 5)) * t + rng.uniform(0, 6))
    p = np.c_[cy + r * rng.uniform(.15, .33) * h * np.sin(t), cx + r * rng.uniform(.15, .33) * w * np.cos(t)]
    return np.clip(np.round(p).astype(int), 0, [h - 1, w - 1])


def interior_bounds(nodes, shape):
    b = np.zeros(shape, bool)
    b[nodes[:, 0], nodes[:, 1]] = True
    out = {}
    for name, st in (("must", np.ones((3, 3))), ("may", ndimage.generate_binary_structure(2, 1))):
        lab, n = ndimage.label(~np.pad(b, 1), structure=st)
        out[name] = (lab != lab[0, 0])[1:-1, 1:-1] | b
    return out["must"], out["may"]


def judge(mask, z, sign, ext, pos, x, y, what):
    """mask: interior, z: field; pos = value at the reported position's node."""
    v = z[mask]
    v = v[np.isfinite(v)]
    if len(v) == 0:
        return None
    s = np.sign(v.mean())
    if abs(v.mean()) < 1e-12 * (1 + np.abs(v).max()):
        return None
    if float(sign) != s:
        return "%s: sign %r, the mean of the interior is %r" % (what, float(sign), v.mean())
    want = v.max() if s > 0 else v.min()
    if float(ext) != want:
        return "%s: extremum %r, expected %r (sign %r)" % (what, float(ext), want, s)
    j, k = pos
    if not mask[j, k] or z[j, k] != want:
        return "%s: the reported position holds %r, the extremum is %r (inside: %s)" % (what, z[j, k], want, bool(mask[j, k]))
    return None


def check(case):
    M = need("trackeddy.utils", "_mask_data_in_contour")
    TE = need("trackeddy.trackeddy", "TrackEddy")
    Eddy = need("trackeddy.eddy", "Eddy")
    need("trackeddy.trackeddy", "TrackEddy", "_data_in_contour")
    lon, lat, z, level = case["lon"], case["lat"], case["z"], case["level"]
    ds = dataset(z, lon, lat)
    X, Y = np.meshgrid(lon, lat)
    n = 0
    # 1. the masking step by itself, on walks and on random node sets
    rng = np.random.default_rng(case["seed"])
    for nodes in (walk(rng, z.shape), case["loop"]):
        if not np.isfinite(z[nodes[:, 0], nodes[:, 1]]).any():
            continue
        data, sign, mx, mask = M(nodes.copy(), ds["ssh"].copy(), level)
        must, may = interior_bounds(nodes, z.shape)
        mask = np.asarray(mask).astype(bool)
        if (must & ~mask).any() or (mask & ~may).any():
            return "interior of nodes %r is wrong at %r" % (nodes.tolist(), np.argwhere((must & ~mask) | (mask & ~may)).tolist())
        mx = np.asarray(mx, float).ravel()
        d = data.values
        if not np.array_equal(np.where(mask, z, np.nan), d, equal_nan=True):
            return "the masked field does not hold the field inside and missing values outside"
        r = judge(mask, z, sign, mx[0], (int(mx[1]), int(mx[2])), X, Y, "_mask_data_in_contour")
        if r:
            return r
        n += 1
    if not case["contour"]:
        return None, {"masks": n}
    # 2. contours of the field: position in coordinates
    te = TE(ds, "ssh")
    te.data2track = ds["ssh"]
    E = need("trackeddy.geometry", "extract_contours")
    segs, _ = E(te.X, te.Y, np.where(np.isfinite(z), z, 0.0), level)
    te.data2track = ds["ssh"].fillna(0.0) if not np.isfinite(z).all() else ds["ssh"]
    zz = te.data2track.values
    for c in segs:
        if len(c) < 4:
            continue
        e = Eddy(np.array(c), level)
        te._data_in_contour(e)
        jj = np.abs(c[:, 1][:, None] - lat[None]).argmin(1)
        ii = np.abs(c[:, 0][:, None] - lon[None]).argmin(1)
        mm = np.sort(np.abs(c[:, 1][:, None] - lat[None]), 1)
        m2 = np.sort(np.abs(c[:, 0][:, None] - lon[None]), 1)
        if (mm[:, 1] - mm[:, 0]).min() < 1e-9 or (m2[:, 1] - m2[:, 0]).min() < 1e-9:
            continue
        must, may = interior_bounds(np.c_[jj, ii], zz.shape)
        if not np.array_equal(must, may):
            # which of the doubtful nodes are inside: as the mask kept on the eddy says
            if e.contour_mask is None:
                continue
            # locate the window by the coordinates of its crop
            continue
        mx = np.asarray(e.eddy_maxima, float).ravel()
        j = np.where(lat == mx[1])[0]
        k = np.where(lon == mx[2])[0]
        if len(j) != 1 or len(k) != 1:
            return "the reported position (%r, %r) is not a node of the grid" % (mx[2], mx[1])
        r = judge(may, zz, e.eddy_sign, mx[0], (int(j[0]), int(k[0])), X, Y, "contour of %d vertices" % len(c))
        if r:
            return r
        n += 1
    return None, {"masks": n}
