import os, shutil, tempfile
import numpy as np, pandas as pd
from common import need, dataset, gaussians
import linking, tables as T


def gen(rng, i):
    nt = int(rng.integers(1, 9))
    snaps = linking.history(rng, nt, nb=3)
    for k in range(nt):
        if rng.random() < .3:
            snaps[k] = []
    t0 = int(rng.integers(0, nt))
    tf = None if rng.random() < .4 else int(rng.integers(t0 + 1, nt + 1))
    return {"snaps": snaps, "t0": t0, "tf": tf, "ntimes": int(rng.choice([0, 2, 5])), "online": bool(rng.random() < .5),
            "fmt": str(rng.choice(["csv", "csv", "json"])), "real": i % 15 == 0, "seed": int(rng.integers(0, 1 << 30)), "nolevels": False}


def check(case):
    snaps, t0, tf = case["snaps"], case["t0"], case["tf"]
    nt = len(snaps)
    end = nt if tf is None else tf
    calls = []
    te = linking.tracker(nt, snaps, calls)
    d = tempfile.mkdtemp(prefix="te_out")
    try:
        te.out_path, te.out_format = d, case["fmt"]
        try:
            tracks, st = linking.link(snaps, t0, end, case["ntimes"])
        except T.Ambiguous:
            return None, {"ambiguous": 1}
        got = te.time_tracking(t0=t0, tf=tf, lin_levels=np.array([1.]), ntimes=case["ntimes"], online_track=case["online"])
        if calls != list(range(t0, end)):
            return "snapshots %r were analysed, expected %r" % (calls, list(range(t0, end)))
        files = sorted(os.listdir(d))
        if case["online"]:
            if files:
                return "files %r written with online linking" % files
            r = linking.compare(got, tracks)
            if r:
                return r
        else:
            want = ["identified_eddies_%05d.%s" % (t, case["fmt"]) for t in range(t0, end) if snaps[t]]
            if files != want:
                return "files %r, expected %r" % (files, want)
            for t in range(t0, end):
                if not snaps[t]:
                    continue
                p = os.path.join(d, "identified_eddies_%05d.%s" % (t, case["fmt"]))
                n = sum(e["n"] for e in snaps[t])
                tags = sorted(q for e in snaps[t] for q in [e["v"]["tag"]] * e["n"])
                if case["fmt"] == "csv":
                    f = pd.read_csv(p)
                    if len(f) != n or not (f["time"] == t).all():
                        return "file of snapshot %d: %d rows, times %r, expected %d rows" % (t, len(f), sorted(set(f["time"])), n)
                    for k, e in enumerate(snaps[t]):
                        q = f[f["identifier"] == k].sort_values("index")
                        if len(q) != e["n"] or not np.allclose(q[["contour_path_x", "contour_path_y"]].values, e["path"], rtol=1e-12) \
                                or any(not np.allclose(q[c].values, w, rtol=1e-12) for c, w in e["v"].items()):
                            return "file of snapshot %d does not hold the records of eddy %d" % (t, k)
                else:
                    import json
                    f = json.load(open(p))
                    if sorted(f["tag"].values()) != tags:
                        return "json file of snapshot %d does not hold the records" % t
    finally:
        shutil.rmtree(d)
    st["snapshots"] = end - t0
    if case["real"]:
        r = real(case["seed"])
        if r:
            return r
        st["real"] = 1
    return None, st


def real(seed):
    rng = np.random.default_rng(seed)
    TE = need("trackeddy.trackeddy", "TrackEddy")
    lon, lat = 100 + .25 * np.arange(30), -40 + .25 * np.arange(26)
    X, Y = np.meshgrid(lon, lat)
    nt = 5
    present = rng.random(nt) < .6
    z = np.zeros((nt,) + X.shape)
    for t in range(nt):
        if present[t]:
            z[t] = gaussians(X, Y, [(1.0, 103.5 + .1 * t, -37, .8, .8, 0)])
    te = TE(dataset(z, lon, lat), "ssh")
    te.filter = None
    te.skip_gaussian_fit = True
    t0 = int(rng.integers(0, 2))
    got = te.time_tracking(t0=t0, lin_levels=np.array([.3]), ntimes=5)
    times = [] if got.empty else sorted(set(int(q) for q in got.index.get_level_values("time")))
    want = [t for t in range(t0, nt) if present[t]]
    if times != want:
        return "eddies recorded at times %r, present at %r" % (times, want)
    return None
