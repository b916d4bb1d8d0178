import numpy as np
import xarray as xr
from common import need, dataset


def gen(rng, i):
    nt, ny, nx = int(rng.integers(1, 4)), int(rng.integers(5, 14)), int(rng.integers(5, 14))
    z = rng.standard_normal((nt, ny, nx)) + float(rng.uniform(-2, 2))
    if rng.random() < .6:
        z[rng.random(z.shape) < float(rng.choice([.05, .3]))] = np.nan
    return {"z": z, "lon": 10. + np.arange(nx), "lat": -5. + .5 * np.arange(ny), "nan": bool(rng.random() < .5),
            "filter": [None, "space", "space", "space", "none"][i % 5], "ftype": str(rng.choice(["convolution", "convolution", "meridional", "zonal"])),
            "kernel": int(rng.integers(1, 10)), "t": int(rng.integers(0, nt)), "two_d": bool(rng.random() < .25),
            "order": int(rng.integers(0, 3)), "default": bool(rng.random() < .1)}


def boxcar(f, k):
    k = k + 1 if k % 2 == 0 else k
    h = k // 2
    ny, nx = f.shape
    out = np.full(f.shape, np.nan)
    for j in range(ny):
        for i in range(nx):
            s = w = 0.0
            for b in range(-h, h + 1):
                for a in range(-h, h + 1):
                    jj, ii = j + b, i + a
                    v = f[jj, ii] if 0 <= jj < ny and 0 <= ii < nx else 0.0
                    if v == v:
                        s += v; w += 1
            out[j, i] = s / w if w else np.nan
    return out


def check(case):
    TE = need("trackeddy.trackeddy", "TrackEddy")
    need("trackeddy.trackeddy", "TrackEddy", "_detect_snapshot"); need("trackeddy.trackeddy", "TrackEddy", "_detect_one_level")
    z = case["z"] if not case["two_d"] else case["z"][case["t"]]
    ds = dataset(z, case["lon"], case["lat"])
    if case["order"] == 1 and not case["two_d"]:
        ds = ds.transpose("lat", "time", "lon")
    if case["order"] == 2:
        ds = ds.transpose(..., "lon", "lat")
    keep = ds.copy(deep=True)
    te = TE(ds, "ssh", nan_treatment=case["nan"])
    te.filter = case["filter"]
    te.S_filter_setup = {"filter_type": case["ftype"], "mode": "uniform", "kernel": case["kernel"]}
    f = case["z"][case["t"]].copy()
    if case["default"]:
        te = TE(ds, "ssh", nan_treatment=case["nan"])
        case = dict(case, filter="space", ftype="convolution", kernel=10)
    got = {}

    def spy(level):
        got["d"] = te.data2track.transpose("lat", "lon").values.copy()
        te.data2track.values[:] = -99.0          # whatever happens to the tracked field stays there
        import pandas as pd
        return pd.DataFrame({"": []}), []
    te._detect_one_level = spy
    te._detect_snapshot(case["t"], np.array([.5]))
    if not keep.identical(ds) or list(keep.variables) != list(ds.variables):
        return "the dataset of the user was modified"
    if case["nan"]:
        f = np.where(np.isnan(f), 0.0, f)
    if case["filter"] == "space":
        if case["ftype"] == "convolution":
            want = f - boxcar(f, case["kernel"])
        elif case["ftype"] == "meridional":
            want = f - np.nanmean(f, axis=1)[:, None]
        else:
            want = f - np.nanmean(f, axis=0)[None, :]
    else:
        want = f
    if "d" not in got or got["d"].shape != want.shape:
        return "no tracked field of shape %r" % (want.shape,)
    if not np.allclose(got["d"], want, rtol=1e-9, atol=1e-9, equal_nan=True):
        k = np.argwhere(~np.isclose(got["d"], want, rtol=1e-9, atol=1e-9, equal_nan=True))[0]
        return "tracked field at row %d column %d is %r, expected %r (filter %r %r kernel %d nan_treatment %r)" % (
            k[0], k[1], got["d"][tuple(k)], want[tuple(k)], case["filter"], case["ftype"], case["kernel"], case["nan"])
    return None, {"fields": 1}
