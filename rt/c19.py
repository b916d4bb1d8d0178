import numpy as np
import linking, tables as T


def gen(rng, i):
    nt = int(rng.integers(3, 16))
    pts = T.cloud(rng, int(rng.integers(1, 4)), (10., 20.), 5.0)
    p = float(rng.choice([.15, .3, .6]))
    snaps = []
    for t in range(nt):
        es = [T.eddy(rng, b + .02 * rng.standard_normal(2), radius=60.) for b in pts if rng.random() < p]
        if rng.random() < .5:                      # something else keeps the record going
            es.append(T.eddy(rng, np.array([-50., -100.]) + .01 * rng.standard_normal(2), radius=60.))
        snaps.append(es)
    t0 = int(rng.integers(0, 3))
    return {"snaps": snaps, "t0": min(t0, nt - 1), "tf": nt, "ntimes": int(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12]))}


def check(case):
    try:
        r, st = linking.run(case)
    except T.Ambiguous:
        return None, {"ambiguous": 1}
    if r:
        return r + " (ntimes=%d)" % case["ntimes"]
    return direct(case) or None, st


def direct(case):
    """The selection of candidates by itself."""
    from common import need, Inapplicable
    try:
        f = need("trackeddy.utils", "unlink_eddies_in_previous_times")
    except Inapplicable:
        return None
    import pandas as pd
    tracks, _ = linking.link(case["snaps"], case["t0"], case["tf"], case["ntimes"])
    if not tracks:
        return None
    full = pd.concat([T.table([e], [k], time=t) for k, tr in enumerate(tracks) for t, e in tr]).sort_index()
    last = max(tr[-1][0] for tr in tracks)
    for now in {last, last + 1, last + 3}:
        keep = full.copy()
        got = f(full, now, ntimes=case["ntimes"])
        if not full.equals(keep):
            return "the table of tracks was modified"
        want = [(k, tr[-1]) for k, tr in enumerate(tracks) if tr[-1][0] >= now - case["ntimes"]]
        n = 0
        for k, (t, e) in want:
            m = got[(got.index.get_level_values("identifier") == k)]
            if set(m.index.get_level_values("time")) != {t}:
                return "track %d, last seen at %d, is represented by its records at %r (snapshot %d, ntimes %d)" % (
                    k, t, sorted(set(m.index.get_level_values("time"))), now + 1, case["ntimes"])
            r = T.same_rows(m, e, "candidate %d" % k)
            if r:
                return r
            n += e["n"]
        if n != len(got):
            return "%d rows of candidates, expected %d (snapshot %d, ntimes %d)" % (len(got), n, now + 1, case["ntimes"])
    return None
