"""C22: contracts of TrackEddy.__init__ (coordinates), identify_coords, _get_dims, _get_vars, check_coords.

Names are symbolic: what "lon in name", "name == 'x'" and the like answer is arbitrary within the class
of the name.  A dataset holds the tracked variable, the coordinates and up to two other variables with
arbitrary names (bound of this contract; each of them is looked at on its own)."""
from contracts.util import *
from engine import xr, rtlib
from engine.shims import Lazy


class Name(str):
    """a name of which only the answers to the questions asked are known"""
    _xs = True

    def __new__(c, label, yes=(), no=()):
        s = str.__new__(c, "<" + label + ">")
        s.known = {}
        s.label = label
        for q in yes:
            s.known[q] = z3.BoolVal(True)
        for q in no:
            s.known[q] = z3.BoolVal(False)
        return s

    def ask(s, q):
        if q not in s.known:
            s.known[q] = ENG.fresh("%s_%s" % (s.label, "_".join(q)), z3.BoolSort())
            if q[0] == "is":                     # one literal at most, and it contains its own parts
                for p, t in list(s.known.items()):
                    if p[0] == "is" and p != q:
                        ENG.assume(z3.Not(z3.And(t, s.known[q])))
                    if p[0] == "has":
                        ENG.assume(z3.Implies(s.known[q], t == z3.BoolVal(p[1] in q[1])))
            if q[0] == "has":
                for p, t in list(s.known.items()):
                    if p[0] == "is":
                        ENG.assume(z3.Implies(t, s.known[q] == z3.BoolVal(q[1] in p[1])))
        return ENG.decide(s.known[q])

    def __contains__(s, o):
        return s.ask(("has", str(o)))

    def __eq__(s, o):
        if s is o:
            return True
        if isinstance(o, Name):
            return False
        return s.ask(("is", str(o))) if isinstance(o, str) else False

    def __ne__(s, o):
        return not s.__eq__(o)

    __hash__ = object.__hash__

    def __bool__(s):
        return True

    def startswith(s, o, *a):
        if a or not isinstance(o, str):
            raise Unsupported("startswith with other arguments")
        return s.ask(("starts", o))

    def endswith(s, o, *a):
        if a or not isinstance(o, str):
            raise Unsupported("endswith with other arguments")
        return s.ask(("ends", o))

    def _no(s, *a, **k):
        raise Unsupported("a name is used in another way")
    lower = upper = find = index = count = split = strip = replace = __getitem__ = __iter__ = __len__ = __add__ = __radd__ = casefold = title = _no


def run(V):
    T_ = "trackeddy.trackeddy.TrackEddy."
    V.functions |= {T_ + q for q in ("__init__", "identify_coords", "_get_dims", "_get_vars", "check_coords")}
    V.assumed.add("xarray: Dataset[name] is the variable of that name, keys() the data variables, coords the coordinates; transpose reorders the dimensions")
    V.dropped.append("the number of other variables in the dataset is bounded by two")
    shims = {"os": Lazy("os", path=NS(realpath=lambda p: p, join=lambda *a: "/".join(a)))}
    mod = V.loader(shims=shims).load("trackeddy.trackeddy")
    T = mod.TrackEddy

    def names(xy):
        no = [("has", "time"), ("is", "t")]
        if xy:
            return "x", "y"
        return (Name("xdim", yes=[("has", "lon")], no=no + [("is", "x"), ("is", "y"), ("has", "lat"), ("is", "")]),
                Name("ydim", yes=[("has", "lat")], no=no + [("is", "x"), ("is", "y"), ("has", "lon"), ("is", "")]))

    def tname(k):
        return ["time", "t", Name("tdim", yes=[("has", "time")], no=[("is", "")])][k]
    ORDERS = [(0, 1, 2), (1, 0, 2), (0, 2, 1), (2, 1, 0), (2, 0, 1), (1, 2, 0)]

    def aux(k, xd, yd, td, n, m, nt, grid):
        """the k-th other variable: an arbitrary name on some dimensions"""
        opts = [(td, yd, xd), (xd, "nv"), ("other",), (td,), ()]
        if grid:
            opts += [(yd, xd), (xd, yd), (xd,), (yd,)]
        d = opts[ENG.choose(len(opts), "dimensions of variable %d" % k)]
        size = {xd: m, yd: n, td: nt, "nv": 2, "other": count("other", 1)}
        return Name("aux%d" % k), xr.DA(array("aux%d" % k, tuple(size[q] for q in d)), d)

    def build(kind, order, naux, xy, two=(False, False), own=False, stored="data"):
        """kind: own (coordinates of the dimensions) | var (variables lon/lat)"""
        n, m, nt = count("rows", 2), count("cols", 2), count("times", 1)
        xd, yd = names(xy)
        td = tname(order % 3)
        dims = [(td, yd, xd)[k] for k in ORDERS[order]]
        size = {xd: m, yd: n, td: nt}
        v = xr.DA(array("field", tuple(size[q] for q in dims)), dims, name=Name("variable"))
        coords, data = {}, {v.name: v}
        lon1, lat1 = array("lon", (m,)), array("lat", (n,))
        if kind == "own" or own:
            a, b = (lon1, lat1) if kind == "own" else (array("ix", (m,)), array("iy", (n,)))
            coords[xd] = xr.DA(a, (xd,), name=xd)
            coords[yd] = xr.DA(b, (yd,), name=yd)
        want = None
        grid = kind == "own" and not xy or stored == "coords"
        if kind == "var":
            pre = [("has", "lon"), ("has", "lat")]
            no = [("has", "time"), ("is", "t"), ("is", "x"), ("is", "y"), ("is", "")]
            ln, lt = Name("lonvar", yes=pre[:1], no=no + pre[1:]), Name("latvar", yes=pre[1:], no=no + pre[:1])
            lon2, lat2 = array("lon2", (n, m)), array("lat2", (n, m))

            def put(nm, a2, a1, dim, flag, flip):
                if not flag:
                    return xr.DA(a1, (dim,), name=nm)
                return xr.DA(a2.transpose(1, 0), (xd, yd), name=nm) if flip else xr.DA(a2, (yd, xd), name=nm)
            fl = ENG.choose(4, "order of the dimensions of the coordinates")
            tgt = coords if stored == "coords" else data
            tgt[ln] = put(ln, lon2, lon1, xd, two[0], fl & 1)
            tgt[lt] = put(lt, lat2, lat1, yd, two[1], fl & 2)
        for k in range(naux):
            nm, x = aux(k, xd, yd, td, n, m, nt, grid)
            if ENG.choose(2, "position of variable %d" % k):
                data = {nm: x, **data}
            else:
                data[nm] = x
        ds = xr.Dataset(data, coords)
        if two[0]:
            want = lambda j, i: (lon2.at(j, i), lat2.at(j, i))
        else:
            want = lambda j, i: (lon1.at(i), lat1.at(j))
        return ds, v, n, m, (xd, yd, td), want

    def good(*a, **k):
        def body():
            ds, v, n, m, (xd, yd, td), want = build(*a, **k)
            ENG.mark("entry")
            te = T(ds, v.name)
            ENG.mark("return")
            X, Y = A.asarr(te.X), A.asarr(te.Y)
            same_shape(X, (n, m), "post: X has a node per latitude and longitude")
            same_shape(Y, (n, m), "post: Y has a node per latitude and longitude")
            j, i = index("j", n), index("i", m)
            x, y = want(j, i)
            ENG.require(eq(X.at(j, i), x), "post: the longitude of the node", assume=False)
            ENG.require(eq(Y.at(j, i), y), "post: the latitude of the node", assume=False)
            ENG.require(z3.BoolVal(te.coords["x"] is xd and te.coords["y"] is yd and te.coords["time"] is td), "post: the dimensions are recognised")
            ENG.require(z3.BoolVal(te.rawdata is v and te.Dataset is ds and not ds.log), "frame: the dataset is used as given")
        return body

    def bad(two):
        def body():
            ds, v, n, m, _, _ = build("var", ENG.choose(6, "order"), 0, bool(ENG.choose(2, "names")), two, own=False, stored=["data", "coords"][ENG.choose(2, "stored")])
            ENG.mark("entry")
            try:
                T(ds, v.name)
            except ValueError:
                ENG.mark("return")
                ENG.require(z3.BoolVal(True), "post: rejected with ValueError")
                return
            ENG.require(z3.BoolVal(False), "post: one- and two-dimensional coordinates mixed are rejected with ValueError")
        return body
    for order in range(6):
        V.explore("own coordinates, lon/lat, order %d" % order, good("own", order, 1, False))
        V.explore("own coordinates, x/y, order %d" % order, good("own", order, 1, True))
    V.explore("own coordinates, lon/lat, two others", good("own", 0, 2, False))
    for xy in (False, True):
        for stored in ("data", "coords"):
            nm = "x/y" if xy else "lon/lat"
            V.explore("one-dimensional variables, %s, %s" % (nm, stored), good("var", 0, 1, xy, stored=stored))
            V.explore("two-dimensional variables, %s, %s" % (nm, stored), good("var", 0, 1, xy, (True, True), stored=stored))
    V.explore("one-dimensional coordinates, x/y with their own", good("var", 0, 1, True, own=True, stored="coords"))
    V.explore("two-dimensional coordinates, x/y with their own", good("var", 0, 1, True, (True, True), own=True, stored="coords"))
    V.explore("two-dimensional variables, x/y with their own", good("var", 0, 1, True, (True, True), own=True))
    for order in range(1, 6):
        V.explore("two-dimensional variables, order %d" % order, good("var", order, 0, False, (True, True)))
    V.explore("mixed, longitudes of two dimensions", bad((True, False)))
    V.explore("mixed, latitudes of two dimensions", bad((False, True)))
