import numpy as np
from common import need, dataset, random_axes, random_field, blobs


def gen(rng, i):
    lon, lat = random_axes(rng)
    X, Y = np.meshgrid(lon, lat)
    k = i % 6
    z = random_field(rng, X, Y, noise=float(rng.choice([0, 0, .02, .2])))
    level = float(rng.choice([-1, 1])) * float(rng.uniform(.03, .7))
    if k == 5:                           # features of the other sign than the level
        c = float(rng.choice([-1, 1])) * float(rng.uniform(.5, 2))
        z = np.full(X.shape, c)
        for _ in range(int(rng.integers(1, 4))):
            x0, y0 = rng.uniform(X.min(), X.max()), rng.uniform(Y.min(), Y.max())
            s = float(rng.uniform(.06, .16)) * min(np.ptp(X), np.ptp(Y))
            z -= c * float(rng.uniform(1.5, 3)) * np.exp(-((X - x0) ** 2 / (2 * s ** 2) + (Y - y0) ** 2 / (2 * (s * rng.uniform(.8, 1.2)) ** 2)))
        level = c * float(rng.uniform(.02, .5))
    if k == 0:
        z = blobs(rng, X, Y, noise=float(rng.choice([0, .01, .05])))
        level = float(rng.choice([-1, 1])) * float(rng.uniform(.1, .7))
    if k == 1:
        z = np.zeros(X.shape)
        for _ in range(4):
            z[rng.integers(0, len(lat)), rng.integers(0, len(lon))] = rng.choice([-1., 1.])
    if k == 2:
        z = np.round(z * 3) / 3
    if k == 3:                           # pits
        z = blobs(rng, X, Y)
        level = -float(rng.uniform(.1, .4)) if rng.random() < .5 else float(rng.uniform(.1, .4))
        land = np.abs(z) > abs(level) * float(rng.uniform(1, 1.6))
        z = np.where(land, 0.0, z - level * 1.2)
    if k == 3:
        r = np.ones(X.shape)
        for _ in range(3):
            cx, cy = rng.uniform(X.min(), X.max()), rng.uniform(Y.min(), Y.max())
            s = float(rng.uniform(.08, .2)) * min(np.ptp(X), np.ptp(Y))
            r = np.where((X - cx) ** 2 + (Y - cy) ** 2 * rng.uniform(.8, 1.2) < s * s, 0.0, r)
        z = r * float(rng.choice([-1, 1]))
        level = z.flat[0] * float(rng.uniform(.05, .6)) if z.any() else .3
    if k == 4 and rng.random() < .7:          # pits on a plateau of the other sign
        z = blobs(rng, X, Y, fill=1)
        a = float(rng.choice([-1, 1])) * float(rng.uniform(1.0, 2.5))
        z = a + z * .6
        level = a * float(rng.uniform(.6, 1.4))
    elif k == 4:
        z = z - np.sign(level) * float(rng.uniform(0, 1.2))
    crit = {"ellipse_fit": float(rng.choice([.85, .5, .97, 1.0, 2.0, 3.0])), "eccentricity": float(rng.choice([.85, .5, .7, 1.0])),
            "gaussian_fit": float(rng.choice([.8, .95, .97, 0.0])), "max_area": float(rng.choice([2 * np.pi, 2 * np.pi, 2 * np.pi, .3, .05]))}
    nan = bool(rng.random() < .12)
    if nan:
        z = z.copy(); z[rng.random(z.shape) < .02] = np.nan
    return {"lon": lon, "lat": lat, "z": z, "level": level, "crit": crit, "skip": bool(rng.random() < .4), "nan": nan}


def verdicts(te, level):
    """The criteria in order, for each contour (using the package's own measurements)."""
    g = __import__("trackeddy.geometry", fromlist=["x"])
    area, fit, ecc, sim, contours, FS = (need("trackeddy.geometry", n) for n in (
        "area_latlon_polygon", "fit_ellipse", "eccentricity", "compute_similarity", "extract_contours", "Fit_Surface"))
    Rd = need("trackeddy.physics", "approx_RD_lat")
    Eddy = need("trackeddy.eddy", "Eddy")
    C = te.identification_criteria
    out = []
    segs, _ = contours(te.X, te.Y, te.data2track.values, level)
    for c in segs:
        if np.allclose(c.mean(0), c[0], equal_nan=True):
            continue
        A = float(area(c)); r = np.sqrt(A / np.pi)
        rec = {"A": A, "first": c[0].copy(), "n": len(c), "c": c}
        out.append(rec)
        if r > C["max_area"] * float(Rd(np.nanmean(c[:, 1]))):
            rec["v"] = "area"; continue
        try:
            ell, par = fit(c[:, 0], c[:, 1])
        except np.linalg.LinAlgError:
            rec["v"] = "ellipse_area"; continue
        Ae = float(area(ell))
        if not abs(A - Ae) <= 1e-8 + .1 * C["ellipse_fit"] * abs(Ae):
            rec["v"] = "ellipse_area"; continue
        e = float(ecc(par[0], par[1]))
        if e > C["eccentricity"]:
            rec["v"] = "eccentricity"; continue
        s = float(sim(c, ell))
        rec["s"] = s
        if s > C["ellipse_fit"]:
            rec["v"] = "similarity"; continue
        ed = Eddy(c, level)
        data, x, y = te._data_in_contour(ed)
        rec["opposite"] = float(ed.eddy_sign) * level < 0
        if float(np.ravel(ed.eddy_maxima)[0]) == 0:
            rec["v"] = "eddy_is_island"; continue
        if te.skip_gaussian_fit:
            rec["v"] = "ok"; continue
        ed.ellipse_params = par
        surf, p = FS(ed, data, x, y)._fitting()
        gc, _ = contours(x, y, surf, ed.level)
        if not gc:
            rec["v"] = "gaussian_fit_failed"; continue
        gs = float(sim(c, np.vstack(gc) if len(gc) > 1 else gc[0]))
        rec["g"] = gs
        rec["v"] = "gaussian_check" if gs < C["gaussian_fit"] else "ok"
    return out


def check(case):
    TE = need("trackeddy.trackeddy", "TrackEddy")
    need("trackeddy.trackeddy", "TrackEddy", "_detect_one_level")
    need("trackeddy.trackeddy", "TrackEddy", "_data_in_contour")
    ds = dataset(case["z"], case["lon"], case["lat"])
    te = TE(ds, "ssh")
    te.identification_criteria = dict(case["crit"])
    te.skip_gaussian_fit = case["skip"]
    te.data2track = ds["ssh"]
    E, D = te._detect_one_level(case["level"])
    want = verdicts(te, case["level"])
    acc = [r for r in want if r["v"] == "ok"]
    dis = [r for r in want if r["v"] != "ok"]
    n = 0 if E.empty else len(set(E.index.get_level_values(0)))
    if n != len(acc):
        return "%d contours accepted, %d satisfy every criterion; verdicts %r" % (n, len(acc), [r["v"] for r in want])
    for k, r in enumerate(acc):
        t = E.xs(k, level=0)
        if len(t) != r["n"] or np.abs(t[["contour_path_x", "contour_path_y"]].values.astype(float) - r["c"]).max() > 0:
            return "accepted eddy %d is not the %d-th contour that satisfies every criterion" % (k, k)
    got = [] if not hasattr(D, "reason") else [(str(a), float(b)) for a, b in zip(D["reason"], D["area_eddy"])]
    if len(got) != len(dis):
        return "%d contours discarded, expected %d (%r against %r)" % (len(got), len(dis), [a for a, _ in got], [r["v"] for r in dis])
    for k, ((a, b), r) in enumerate(zip(got, dis)):
        if a != r["v"] or not (b == r["A"] or abs(b - r["A"]) <= 1e-9 * abs(r["A"]) or (b != b and r["A"] != r["A"])):
            return "discarded contour %d: reason %r area %r, expected %r area %r" % (k, a, b, r["v"], r["A"])
    st = {"contours": len(want)}
    for r in want:
        st[r["v"]] = st.get(r["v"], 0) + 1
        if r.get("opposite"):
            st["opposite sign"] = st.get("opposite sign", 0) + 1
    return None, st
