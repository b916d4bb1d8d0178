import numpy as np, pandas as pd
from common import need, dataset, random_axes, blobs

COLS = ["contour_path_x", "contour_path_y", "level", "area_eddy", "radius_eddy", "ellipse_params_a", "ellipse_params_b",
        "ellipse_params_theta", "contour_ellipse_error", "ellipse_eccen", "contour_x", "contour_y", "eddy_sign",
        "maxima", "maxima_y", "maxima_x", "contour_gaussian_error"]
G = ["gaussian_params_x", "gaussian_params_y", "gaussian_params_sigma_x", "gaussian_params_sigma_y", "gaussian_params_theta"]


def gen(rng, i):
    m = []
    for _ in range(int(rng.integers(1, 5))):
        n = int(rng.choice([2, 3, 4, 5, 7, 12, 40]))
        m.append(dict(contour=rng.standard_normal((n, 2)) * 30, level=float(rng.standard_normal()),
                      v=rng.standard_normal(30), gauss=bool(rng.random() < .6), maxshape=int(rng.integers(0, 2)),
                      measured=int(rng.integers(0, 4)), store=bool(rng.random() < .6),
                      reason=str(rng.choice(["area", "ellipse_area", "similarity", "gaussian_check"]))))
    return {"eddies": m, "e2e": i % 6 == 0, "seed": int(rng.integers(0, 1 << 30))}


def expect(d):
    v = d["v"]
    w = {"level": d["level"], "area_eddy": v[0], "radius_eddy": v[1], "ellipse_params_a": v[2], "ellipse_params_b": v[3],
         "ellipse_params_theta": v[4], "contour_ellipse_error": v[5], "ellipse_eccen": v[6], "contour_x": v[7], "contour_y": v[8],
         "eddy_sign": v[9], "maxima": v[10], "maxima_y": v[11], "maxima_x": v[12], "contour_gaussian_error": v[13]}
    if d["gauss"]:
        w.update({k: v[14 + n] for n, k in enumerate(G)})
    return w


def fill(e, d):
    v = d["v"]
    e.area_eddy, e.radius_eddy = np.array(v[0]), np.array(v[1])
    e.contour_center = v[7:9].copy()
    if d["store"] or d["measured"] > 0:
        e.ellipse_params = v[2:5].copy()
        e.ellipse = d["contour"] + 1
        e.contour_ellipse_error, e.ellipse_eccen = np.array(v[5]), np.array(v[6])
    if d["store"] or d["measured"] > 1:
        e.eddy_sign = np.array(v[9])
        e.eddy_maxima = v[10:13].reshape(3, 1).copy() if d["maxshape"] else v[10:13].copy()
    if (d["store"] and d["gauss"]) or (not d["store"] and d["measured"] > 2):
        e.gaussian_params = v[14:19].copy()
        e.gaussian = np.ones((4, 5))
    if d["store"] or d["measured"] > 2:
        e.contour_gaussian_error = np.array(v[13])


def check(case):
    Eddy = need("trackeddy.eddy", "Eddy")
    need("trackeddy.eddy", "Eddy", "store"); need("trackeddy.eddy", "Eddy", "discarded"); need("trackeddy.eddy", "Eddy", "exit")
    S = D = None
    stored, disc = [], []
    last = None
    Eddy(np.ones((3, 2)), 1.0).exit()
    for d in case["eddies"]:
        e = Eddy(d["contour"].copy(), d["level"])
        fill(e, d)
        last = e
        if d["store"]:
            S = e.store(); stored.append(d)
        else:
            D = e.discarded(d["reason"]); disc.append(d)
    last.exit()
    if stored:
        if len(S) != sum(len(d["contour"]) for d in stored):
            return "%d rows for contours of %r vertices" % (len(S), [len(d["contour"]) for d in stored])
        at = 0
        for k, d in enumerate(stored):
            t = S.iloc[at:at + len(d["contour"])]
            at += len(d["contour"])
            if not np.array_equal(t["contour_path_x"].values.astype(float), d["contour"][:, 0]) or \
                    not np.array_equal(t["contour_path_y"].values.astype(float), d["contour"][:, 1]):
                return "contour_path of eddy %d does not hold its vertices in order" % k
            if not (t["identifier"].values.astype(float) == k).all() or not (t["index"].values.astype(float) == np.arange(len(t))).all():
                return "identifier/index of eddy %d: %r %r" % (k, t["identifier"].tolist(), t["index"].tolist())
            for c, w in expect(d).items():
                if c not in t.columns:
                    return "column %s is missing" % c
                if not (t[c].values.astype(float) == w).all():
                    return "column %s of eddy %d holds %r, measured %r" % (c, k, t[c].tolist()[:3], w)
    if disc:
        if len(D) != len(disc):
            return "%d rows for %d discarded contours" % (len(D), len(disc))
        for k, d in enumerate(disc):
            r = D.iloc[k]
            v = d["v"]
            w = {"level": d["level"], "area_eddy": v[0], "radius_eddy": v[1], "contour_x": v[7], "contour_y": v[8],
                 "contour_ellipse_error": v[5] if d["measured"] > 0 else 0, "ellipse_eccen": v[6] if d["measured"] > 0 else 0,
                 "contour_gaussian_error": v[13] if d["measured"] > 2 else 0}
            if d["measured"] > 1:
                w.update({"eddy_sign": v[9], "maxima": v[10], "maxima_y": v[11], "maxima_x": v[12]})
            if str(r["reason"]) != d["reason"]:
                return "reason %r, expected %r" % (r["reason"], d["reason"])
            if D.index[k] != k:
                return "discarded contour %d has index %r" % (k, D.index[k])
            for c, x in w.items():
                if c not in D.columns or float(r[c]) != x:
                    return "discarded column %s holds %r, measured %r" % (c, r.get(c), x)
    st = {"stored": len(stored), "discarded": len(disc)}
    if case["e2e"]:
        r = e2e(case["seed"], st)
        if r:
            return r
    return None, st


def e2e(seed, st):
    """Records of a search against quantities measured again from the contour."""
    rng = np.random.default_rng(seed)
    TE = need("trackeddy.trackeddy", "TrackEddy")
    need("trackeddy.trackeddy", "TrackEddy", "_detect_one_level")
    area, fit, ecc, sim = (need("trackeddy.geometry", n) for n in ("area_latlon_polygon", "fit_ellipse", "eccentricity", "compute_similarity"))
    lon, lat = random_axes(rng)
    X, Y = np.meshgrid(lon, lat)
    z = blobs(rng, X, Y)
    ds = dataset(z, lon, lat)
    te = TE(ds, "ssh")
    te.identification_criteria.update(ellipse_fit=1.0, eccentricity=.97, gaussian_fit=0.0, max_area=20.0)
    te.data2track = ds["ssh"]
    te.skip_gaussian_fit = bool(rng.random() < .4)
    level = float(rng.choice([-1, 1])) * float(rng.uniform(.1, .4))
    E, D = te._detect_one_level(level)
    if E.empty:
        return None
    for k, t in E.groupby(level=0):
        c = t[["contour_path_x", "contour_path_y"]].values.astype(float)
        A = float(area(c))
        ell, p = fit(c[:, 0], c[:, 1])
        w = {"level": level, "area_eddy": A, "radius_eddy": np.sqrt(A / np.pi), "ellipse_params_a": p[0], "ellipse_params_b": p[1],
             "ellipse_params_theta": p[2], "contour_ellipse_error": float(sim(c, ell)), "ellipse_eccen": float(ecc(p[0], p[1])),
             "contour_x": c[:, 0].mean(), "contour_y": c[:, 1].mean()}
        for col, x in w.items():
            if not np.allclose(t[col].values.astype(float), x, rtol=1e-9, atol=1e-12):
                return "after a search column %s holds %r, measured %r" % (col, t[col].iloc[0], x)
        mx, my, m = (float(t[q].iloc[0]) for q in ("maxima_x", "maxima_y", "maxima"))
        j, i = np.where(lat == my)[0], np.where(lon == mx)[0]
        if len(j) != 1 or len(i) != 1 or z[j[0], i[0]] != m:
            return "the recorded extremum %r is not the field at its recorded position (%r, %r)" % (m, mx, my)
        if np.sign(m) * np.sign(float(t["eddy_sign"].iloc[0])) == 0:
            return "sign %r for extremum %r" % (t["eddy_sign"].iloc[0], m)
        if not te.skip_gaussian_fit:
            if not abs(float(t["gaussian_params_x"].iloc[0]) - mx) <= abs(lon[1] - lon[0]) * 1.001 or \
                    not abs(float(t["gaussian_params_y"].iloc[0]) - my) <= abs(lat[1] - lat[0]) * 1.001:
                return "gaussian_params_x/y are not next to the extremum"
            for col, x in (("sigma_x", p[0]), ("sigma_y", p[1]), ("theta", p[2])):
                if x != 0 and not abs(float(t["gaussian_params_" + col].iloc[0]) - x) <= .7001 * abs(x):
                    return "gaussian_params_%s not within its bounds" % col
        st["e2e"] = st.get("e2e", 0) + 1
    return None
