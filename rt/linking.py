"""Reference of linking in time."""
import numpy as np
from common import need, dataset
import tables as T


def history(rng, nt, drift=.05, p=.7, nb=4):
    base = T.cloud(rng, int(rng.integers(1, nb + 1)), (float(rng.choice([0, -35])), float(rng.choice([0, 179.9]))), 3.0)
    alive = rng.random(len(base)) < .8
    snaps = []
    for t in range(nt):
        es = []
        for k, b in enumerate(base):
            if rng.random() < p * alive[k] + .15:
                es.append(T.eddy(rng, b + drift * rng.standard_normal(2), radius=float(rng.choice([60, 60, 120, 8]))))
            if rng.random() < .25:
                alive[k] = not alive[k]
        if rng.random() < .25:
            es.append(T.eddy(rng, T.cloud(rng, 1, base[0], 6)[0], radius=float(rng.choice([5, 60]))))
        if rng.random() < .15:
            es = []
        if es and rng.random() < .15:            # two eddies near one track
            es.append(T.eddy(rng, np.array(T.pos(es[0])) + .05 * rng.standard_normal(2), radius=80.))
        base = base + .03 * rng.standard_normal(base.shape)
        snaps.append([es[k] for k in rng.permutation(len(es))])
    return snaps


def link(snaps, t0, tf, ntimes):
    """tracks: list of [(time, eddy), ...]; stats"""
    tracks = []
    st = {"linked": 0, "born": 0, "finished": 0}
    for t in range(t0, tf):
        new = snaps[t]
        if not new:
            continue
        if not tracks:
            tracks = [[(t, e)] for e in new]
            continue
        cand = [k for k, tr in enumerate(tracks) if tr[-1][0] >= t - 1 - ntimes]
        st["finished"] += len(tracks) - len(cand)
        m = T.match([tracks[k][-1][1] for k in cand], new)
        for i, e in enumerate(new):
            if i in m:
                tracks[cand[m[i]]].append((t, e)); st["linked"] += 1
            else:
                tracks.append([(t, e)]); st["born"] += 1
    return tracks, st


def compare(t, tracks):
    if not tracks:
        return None if t.empty else "eddies out of nothing"
    if t.empty:
        return "the result is empty, expected %d tracks" % len(tracks)
    g = [t.index.get_level_values(n).to_numpy() for n in ("identifier", "time", "index")]
    key = list(zip(*g))
    if key != sorted(key):
        return "rows are not sorted by identifier, time and vertex index"
    if len(set(key)) != len(key):
        return "a track has two eddies in one snapshot (repeated identifier, time, index)"
    ids = sorted(set(int(q) for q in g[0]))
    if ids != list(range(len(tracks))):
        return "identifiers are %r, expected 0..%d" % (ids, len(tracks) - 1)
    n = 0
    for k, tr in enumerate(tracks):
        mine = t[g[0] == k]
        times = list(dict.fromkeys(mine.index.get_level_values("time").tolist()))
        if times != [q for q, _ in tr]:
            return "track %d is seen at times %r, expected %r" % (k, times, [q for q, _ in tr])
        for q, e in tr:
            r = T.same_rows(mine[mine.index.get_level_values("time") == q], e, "track %d at time %d" % (k, q))
            if r:
                return r
            n += e["n"]
    if n != len(t):
        return "%d rows, expected %d" % (len(t), n)
    return None


def tracker(nt, snaps, calls=None):
    TE = need("trackeddy.trackeddy", "TrackEddy")
    need("trackeddy.trackeddy", "TrackEddy", "_detect_snapshot"); need("trackeddy.trackeddy", "TrackEddy", "time_tracking")
    te = TE(dataset(np.zeros((nt, 4, 5)), np.arange(5.), np.arange(4.)), "ssh")

    def stub(time, levels=None, *a, **k):
        if calls is not None:
            calls.append(int(time))
        return T.table(snaps[int(time)])
    te._detect_snapshot = stub
    return te


def run(case, **kw):
    nt = len(case["snaps"])
    te = tracker(nt, case["snaps"])
    t0, tf = case["t0"], case["tf"]
    want, st = link(case["snaps"], t0, nt if tf is None else tf, case["ntimes"])
    got = te.time_tracking(t0=t0, tf=tf, lin_levels=np.array([1.0]), ntimes=case["ntimes"], **kw)
    return compare(got, want), st
