"""Synthetic tables of eddies and a reference for matching, merging and linking."""
import numpy as np
import pandas as pd

VAL = ["level", "area_eddy", "radius_eddy", "ellipse_params_a", "contour_ellipse_error", "contour_gaussian_error",
       "eddy_sign", "maxima", "maxima_y", "maxima_x", "tag"]
_tag = [0]


def eddy(rng, pos, radius=None, rows=None, scores=None):
    """A record: dict of constants and a path with `rows` vertices."""
    _tag[0] += 1
    n = int(rows or rng.integers(1, 5))
    d = {c: float(rng.standard_normal()) for c in VAL}
    d["radius_eddy"] = float(radius if radius is not None else rng.uniform(20, 200))
    d["maxima_y"], d["maxima_x"] = float(pos[0]), float(pos[1])
    s = scores if scores is not None else rng.integers(0, 4, 2) / 4
    d["contour_ellipse_error"], d["contour_gaussian_error"] = float(s[0]), float(s[1])
    d["tag"] = float(_tag[0])
    return {"v": d, "path": rng.standard_normal((n, 2)), "n": n}


def table(eddies, ids=None, time=None):
    """As returned by the search of one level / one snapshot."""
    if not eddies:
        return pd.DataFrame({"": []})
    rows = []
    for k, e in enumerate(eddies):
        for j in range(e["n"]):
            r = {"identifier": k if ids is None else ids[k], "index": j,
                 "contour_path_x": e["path"][j, 0], "contour_path_y": e["path"][j, 1]}
            r.update(e["v"])
            if time is not None:
                r["time"] = time
            rows.append(r)
    return pd.DataFrame(rows).set_index(["identifier", "index"] if time is None else ["identifier", "time", "index"])


def gc(a, b):
    """great-circle distance in km between (lat, lon) points"""
    p, q = np.deg2rad(a), np.deg2rad(b)
    h = np.sin((q[0] - p[0]) / 2) ** 2 + np.cos(p[0]) * np.cos(q[0]) * np.sin((q[1] - p[1]) / 2) ** 2
    return 2 * 6371.0 * np.arcsin(np.sqrt(min(1.0, h)))


def pos(e):
    return e["v"]["maxima_y"], e["v"]["maxima_x"]


class Ambiguous(Exception):
    pass


def match(prev, new):
    """{position in new: position in prev}"""
    if not prev or not new:
        return {}
    D = np.array([[gc(pos(n), pos(p)) for p in prev] for n in new])
    near = D.argmin(1)
    tol = 1e-7
    for i, n in enumerate(new):
        s = np.sort(D[i])
        ties = np.where(D[i] <= s[0] + tol)[0]
        if len(ties) > 1 and s[0] < n["v"]["radius_eddy"] + tol:
            raise Ambiguous()
        if abs(s[0] - n["v"]["radius_eddy"]) < tol:
            raise Ambiguous()
    ok = [D[i, near[i]] < n["v"]["radius_eddy"] for i, n in enumerate(new)]
    out = {}
    for i in range(len(new)):
        if not ok[i]:
            continue
        rivals = [j for j in range(len(new)) if j != i and ok[j] and near[j] == near[i]]
        lose = False
        for j in rivals:
            dj, di = D[j, near[j]], D[i, near[i]]
            if pos(new[j]) == pos(new[i]):
                lose |= j < i
            elif abs(dj - di) < tol:
                raise Ambiguous()
            else:
                lose |= dj < di
        if not lose:
            out[i] = int(near[i])
    return out


def rows_of(t, key, ident):
    return t[t.index.get_level_values("identifier") == ident]


def same_rows(t, e, what):
    """t: rows of one eddy in one snapshot, sorted by vertex index"""
    if len(t) != e["n"]:
        return "%s has %d rows, the eddy has %d vertices" % (what, len(t), e["n"])
    ix = t.index.get_level_values("index").to_numpy()
    if list(ix) != list(range(e["n"])):
        return "%s has vertex indices %r" % (what, list(ix))
    if not np.array_equal(t[["contour_path_x", "contour_path_y"]].values.astype(float), e["path"]):
        return "%s does not keep its vertices" % what
    for c, w in e["v"].items():
        if not (t[c].values.astype(float) == w).all():
            return "%s: column %s is %r, was %r" % (what, c, t[c].tolist(), w)
    return None


def cloud(rng, n, centre=(0., 0.), spread=3.0):
    return np.c_[centre[0] + spread * rng.standard_normal(n), centre[1] + spread * rng.standard_normal(n)]
