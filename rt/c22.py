import numpy as np
import xarray as xr
from common import need, random_axes, blobs


def gen(rng, i):
    lon, lat = random_axes(rng)
    if len(lon) == len(lat) and rng.random() < .9:
        lon = lon[:-1]
    if rng.random() < .15:
        lon, lat = lon[:int(rng.integers(2, 4))], lat[:int(rng.integers(2, 4))]
    return {"lon": lon, "lat": lat, "kind": i % 6, "seed": int(rng.integers(0, 1 << 30)),
            "xn": str(rng.choice(["lon", "longitude", "x", "nav_lon", "xlon_rho", "tlon", "lon_t"])), "yn": str(rng.choice(["lat", "latitude", "y", "nav_lat", "ylat_rho", "tlat", "lat_t"])),
            "tn": str(rng.choice(["time", "t", "time_counter"])),
            "order": [int(q) for q in rng.permutation(3)], "aux": int(rng.integers(0, 6)), "as_coords": bool(rng.random() < .4), "var": str(rng.choice(["ssh", "sla", "slope_latent", "along_track"]))}


def build(case, order, aux, two_d):
    rng = np.random.default_rng(case["seed"])
    lon, lat, xn, yn, tn = case["lon"], case["lat"], case["xn"], case["yn"], case["tn"]
    X, Y = np.meshgrid(lon, lat)
    z = np.stack([blobs(rng, X, Y) for _ in range(2)])
    dims = (tn, yn, xn)
    da = xr.DataArray(z, dims=dims)
    v = case["var"]
    if two_d:
        X2 = X + .1 * (Y - Y.min()) * rng.uniform(0, .3)
        Y2 = Y + .1 * (X - X.min()) * rng.uniform(0, .3)
        ds = xr.Dataset({v: da, "my_lon": ((yn, xn), X2), "my_lat": ((yn, xn), Y2)}, coords={tn: np.arange(2)})
        if case["seed"] % 2:
            ds["my_lon"] = ds["my_lon"].transpose(xn, yn)
        if case["as_coords"] or aux > 3:
            ds = ds.set_coords(["my_lon", "my_lat"])
    else:
        X2, Y2 = X, Y
        ds = xr.Dataset({v: da}, coords={xn: lon, yn: lat, tn: np.arange(2)})
        if xn == "x" or yn == "y":
            aux = min(aux, 3)
    ds[v] = ds[v].transpose(*[dims[k] for k in order])
    if aux:
        ds = ds.assign({"lon_bnds": ((xn, "nv"), np.c_[lon - 1, lon + 1]), "lat_bnds": ((yn, "nv"), np.c_[lat - 1, lat + 1])})
        if aux > 1:
            ds = ds.assign({"lonely": ((tn,), np.arange(2.)), "platform": (("n",), np.arange(3.))})
        if aux > 2:
            ds = ds.assign({"salon": ((tn, yn, xn), z * 3), "relative": (("n",), np.arange(3.))})
        if aux > 3:                      # on the horizontal grid
            ds = ds.assign({"longwave": ((yn, xn), X * 7), "latent": ((yn, xn), Y * 5)})
        if aux > 4:
            ds = ds.assign({"dlon": ((xn,), lon * 0 + 1), "dlat": ((yn,), lat * 0 + 1), "lon_0": 3.0, "lat_0": 4.0})
    return ds, X2, Y2, z


def check(case):
    TE = need("trackeddy.trackeddy", "TrackEddy")
    v = case["var"]
    if case["kind"] == 5:
        ds, X, Y, z = build(case, [0, 1, 2], 0, False)
        xn, yn = case["xn"], case["yn"]
        bad = xr.Dataset({v: ds[v].drop_vars([xn, yn]), "my_lon": ((yn, xn), X), "my_lat": ((yn,), case["lat"])})
        if case["seed"] % 2:
            bad = xr.Dataset({v: ds[v].drop_vars([xn, yn]), "my_lon": ((xn,), case["lon"]), "my_lat": ((yn, xn), Y)})
        try:
            TE(bad, v)
        except ValueError:
            return None, {"rejected": 1}
        except Exception as e:
            return "one- and two-dimensional coordinates mixed: %r instead of ValueError" % e
        return "one- and two-dimensional coordinates mixed are accepted"
    two_d = case["kind"] == 4
    ds, X, Y, z = build(case, case["order"], case["aux"], two_d)
    te = TE(ds, v)
    if te.X.shape != X.shape or te.Y.shape != Y.shape or not np.array_equal(te.X, X) or not np.array_equal(te.Y, Y):
        return "coordinates of the nodes are wrong: shapes %r %r for a field of %d rows and %d columns; X[0,:3]=%r Y[:3,0]=%r" % (
            te.X.shape, te.Y.shape, X.shape[0], X.shape[1], te.X[0, :3], te.Y[:3, 0])
    te.filter = None
    te.skip_gaussian_fit = True
    need("trackeddy.trackeddy", "TrackEddy", "_detect_snapshot")
    got = te._detect_snapshot(1, np.array([-.3, .3]))
    d = te.data2track.transpose(case["yn"], case["xn"]).values
    if tuple(te.data2track.dims) == (case["yn"], case["xn"]) and not np.array_equal(te.data2track.values, z[1]):
        return "the tracked field is not the requested snapshot"
    if not np.array_equal(d, z[1]):
        return "the tracked field is not the requested snapshot"
    ds0, _, _, _ = build(case, [0, 1, 2], 0, two_d)
    te0 = TE(ds0, v)
    te0.filter = None
    te0.skip_gaussian_fit = True
    ref = te0._detect_snapshot(1, np.array([-.3, .3]))
    if got.empty != ref.empty or len(got) != len(ref):
        return "results depend on the layout: %d rows against %d (order %r, auxiliary %d)" % (len(got), len(ref), case["order"], case["aux"])
    if not got.empty:
        for c in ("contour_path_x", "contour_path_y", "maxima_x", "maxima_y", "maxima"):
            if not np.allclose(got[c].values.astype(float), ref[c].values.astype(float), rtol=1e-12):
                return "column %s depends on the layout of the dataset" % c
        for k, t in got.groupby(level=0):
            mx, my, m = (float(t[q].iloc[0]) for q in ("maxima_x", "maxima_y", "maxima"))
            hit = (X == mx) & (Y == my)
            if hit.sum() != 1 or z[1][hit][0] != m:
                return "extremum %r is recorded at (%r, %r) which is not the position of its node" % (m, mx, my)
    return None, {"datasets": 1, "eddies": 0 if got.empty else len(got.index.levels[0])}
