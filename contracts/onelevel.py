"""The search of one level (TrackEddy._detect_one_level through check_return_eddies), its callees by
their contracts.  Used by C13 (one verdict per contour), C14 (what is stored) and C15 (state).

An arbitrary number of arbitrary contours; an arbitrary iteration of the loop over them is executed
with what the callees return as uninterpreted functions of the contour, and the calls of store and
discarded in it are compared with the verdict the criteria give.  Ghost state: how many contours
were stored and discarded so far."""
from contracts.util import *
from engine import tables as TB, xr, npshim
from engine.shims import Lazy
from engine.loops import UNSET

REASONS = ("area", "ellipse_area", "eccentricity", "similarity", "eddy_is_island", "gaussian_fit_failed", "gaussian_check")
EPS = z3.RealVal("1/100000")


class Stored(TB.DataFrame):
    """the table that store or discarded return: which one, after how many calls"""

    def __init__(s, kind, count, keys=None):
        s.__dict__.update(kind=kind, count=count, keys=keys, rows=None, cols={}, _levels=[], ghost=None)

    def set_index(s, names, **k):
        if k:
            raise Unsupported("options of set_index")
        return Stored(s.kind, s.count, tuple(names))

    @property
    def empty(s):
        return False

    def _len(s):
        return count("rows_of_table", 1)

    def __getattr__(s, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported("%s of the table of a level" % k)


class Opaque:
    """a value that is only passed on"""

    def __init__(s, what):
        s.what = what

    def __getattr__(s, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported("%s.%s" % (s.__dict__.get("what"), k))


opaque = Opaque


def same(a, b):
    """the same number, or both missing"""
    a, b = val(a), val(b)
    return And(okof(a) == okof(b), z3.Implies(okof(b), real(a) == real(b)))


def syms(t):
    from engine.loops import consts_of
    return consts_of(t)


def one_level(V, verdict=False, record=False, state=False, measured=None):
    V.functions |= {"trackeddy.trackeddy.TrackEddy._detect_one_level", "trackeddy.decorators.check_return_eddies", "trackeddy.eddy.Eddy.__init__"}
    V.assumed.add("extract_contours (C01), area_latlon_polygon (C04), fit_ellipse (C05), eccentricity (C06), compute_similarity (C07), Fit_Surface (C09), approx_RD_lat (C10) and _data_in_contour (C11, C12) by their contracts: here functions of the contour and the field")
    L = V.loader(shims={"pandas": TB.make()})
    mod = L.load("trackeddy.trackeddy")
    emod = L.load("trackeddy.eddy")
    T = mod.TrackEddy
    st = {}
    need = (lambda on: (lambda c, name, **k: ENG.require(c, name, **k) if on else None))
    vreq, rreq, sreq = need(verdict), need(record), need(state)

    def cur():
        if st.get("k") is None:
            raise Unsupported("a contour is measured outside the loop over the contours")
        return st["k"]

    def isvec(x, col):
        """x is this column of the contour"""
        x = A.asarr(x)
        P = st["P"](cur())
        if x.ndim != 1:
            raise Unsupported("coordinates that are not a vector")
        vreq(term(x.shape[0]) == P.t, "a measure uses all the vertices of the contour", assume=False)
        i = index("vertex", P)
        vreq(same(x.at(i), st["C"](cur(), i, col)), "a measure uses the vertices of the contour", assume=False)

    def iscontour(x):
        x = A.asarr(x)
        if x.ndim != 2:
            raise Unsupported("a contour that is not a matrix")
        isvec(x[:, 0], 0)
        isvec(x[:, 1], 1)

    def isell(x):
        x = A.asarr(x)
        if x.ndim != 2:
            return False
        with A.pure():
            v = x.at(S(z3.Int("some!")), 0)
        return isinstance(v, S) and "ellipse_pt!0" in syms(v.t)

    def isellipse(x):
        x = A.asarr(x)
        i = index("vertex", st["E"].shape[0])
        vreq(And(*[same(x.at(i, c), st["E"].at(i, c)) for c in (0, 1)]), "the fitted ellipse is compared", assume=False)

    def m(name, *a):
        return st["f"][name](*[term(x) for x in (cur(),) + a])

    def area(x, *a, **k):
        if isell(x):
            isellipse(x)
            return S(m("area_ellipse"), ok=m("area_ellipse_known"))
        iscontour(x)
        return S(m("area"))

    def rossby(lat, *a, **k):
        vreq(same(lat, st["mean"](cur(), 1)), "the deformation radius is that of the latitude of the mean vertex", assume=False)
        return S(m("Rd"))

    def fit(x, y, *a, **k):
        isvec(x, 0)
        isvec(y, 1)
        if not ENG.decide(m("has_ellipse")):
            raise npshim.LinAlgError("Singular matrix")
        k = cur()
        st["params"] = Arr((3,), lambda i: S(st["f"]["ellipse_params"](term(k), term(i[0]))), "f")
        return st["E"], st["params"]

    def ecc(a, b):
        vreq(And(*[same(v, S(m("ellipse_params", S(z3.IntVal(j))))) for j, v in enumerate((a, b))]), "the eccentricity is that of the fitted ellipse", assume=False)
        return S(m("eccentricity"))

    def sim(a, b):
        if isell(b):
            iscontour(a)
            isellipse(b)
            return S(m("ellipse_score"))
        iscontour(a)
        b = getattr(b, "_piece", None)
        if b is None:
            raise Unsupported("the similarity of something else than the contour, the ellipse and the fitted surface")
        vreq(m("pieces") == 1 if b == "piece" else z3.BoolVal(True), "the whole contour of the fitted surface is compared", assume=False)
        return S(m("surface_score"))

    def contours(X, Y, data, level, *a, **k):
        if a or k:
            raise Unsupported("options of extract_contours")
        vreq(same(level, st["level"]), "contours are those of the level", assume=False)
        if not ENG.loopstack:
            i, j = index("i", st["n"]), index("j", st["m"])
            X, Y, data = A.asarr(X), A.asarr(Y), A.asarr(data)
            vreq(And(same(X.at(i, j), st["X"].at(i, j)), same(Y.at(i, j), st["Y"].at(i, j)), same(data.at(i, j), st["D"].at(i, j))), "the contours are those of the tracked field", assume=False)
            return SList_(st["N"], st["contour"]), opaque("kinds of vertices")
        ok = st.get("surface") is not None and X is st["near"][1] and Y is st["near"][2] and data is st["surface"]
        vreq(z3.BoolVal(ok), "the contours of the fitted surface, on its window", assume=False)
        if not ok:
            raise Unsupported("contours of something else than the field and the fitted surface")

        def piece(j):
            a = Arr((S(m("piece_size", j)), 2), lambda i: S(m("piece_pt", j, i[0], i[1])), "f")
            a._piece = "piece"
            return a
        l = SList_(S(m("pieces")), piece)

        def stack(axis=0):
            if axis != 0:
                raise Unsupported("stacking contours along another axis")
            a = Arr((S(m("stack_size")), 2), lambda i: S(m("stack_pt", i[0], i[1])), "f")
            a._piece = "all"
            return a
        l._vstack = stack
        return l, opaque("kinds of vertices")

    def near(self, eddy, *a, **k):
        iscontour(eddy.contour)
        vreq(same(core.unwrap0(eddy.level), st["level"]), "the level of an eddy is that searched", assume=False)
        kk = cur()
        eddy.eddy_sign = S(m("sign"))
        eddy.eddy_maxima = Arr((3,), lambda i: S(st["f"]["maxima"](term(kk), term(i[0]))), "f")
        eddy.contour_mask, eddy.data_near_contour = opaque("mask"), opaque("data near the contour")
        st["measured"] = True
        st["near"] = tuple(opaque(x) for x in ("data", "x", "y"))
        return st["near"]

    class Surface:
        def __init__(s, eddy, data, x, y, *a, **k):
            iscontour(eddy.contour)
            ok = st.get("near") is not None and (data, x, y) == st["near"] and not a and not k
            vreq(z3.BoolVal(ok), "the surface is fitted to the data near the contour", assume=False)

        def _fitting(s):
            k = cur()
            st["surface"] = opaque("fitted surface")
            return st["surface"], Arr((5,), lambda i: S(st["f"]["gaussian_params"](term(k), term(i[0]))), "f")
    mod.area_latlon_polygon, mod.approx_RD_lat, mod.fit_ellipse, mod.eccentricity = area, rossby, fit, ecc
    mod.compute_similarity, mod.extract_contours, mod.Fit_Surface = sim, contours, Surface
    T._data_in_contour = near

    def event(kind, self, reason=None):
        k = cur()
        iscontour(self.contour)
        st["events"].append((kind, reason))
        if record:
            check_record(st, self, kind, rreq, m)
        st[kind] = st[kind] + 1
        return Stored(kind, st[kind])

    def store(self, *a, **k):
        if k.pop("exit", None) is not None:
            st["exit_stored"] = True
            return
        return event("stored", self, *a, **k)

    def discarded(self, *a, **k):
        if k.pop("exit", None) is not None:
            st["exit_discarded"] = True
            return
        return event("discarded", self, *a, **k)
    emod.Eddy.store, emod.Eddy.discarded = store, discarded

    # ---- the loop
    def begin(loop):
        if not loop.is_for:
            raise Unsupported("the contours are not the items of a for loop")
        if "loop" in st:
            vreq(z3.BoolVal(False), "the contours are examined in one loop", assume=False)
            raise Unsupported("two loops in the search of a level")
        st["loop"] = loop
        vreq(term(loop.n) == st["N"].t, "every contour is examined", assume=False)
        st["k"] = loop.k if loop.mode == "iter" else None
        k = index("contour", loop.n)
        c = loop.get(k)
        if isinstance(c, tuple):
            c = [x for x in c if isinstance(x, Arr)][0]
        old, st["k"] = st["k"], k
        iscontour(c)
        st["k"] = old
        for g in ("stored", "discarded"):
            st[g] = count(g, 0)
        st["any"] = SB(ENG.fresh("some_examined", z3.BoolSort()))
        ENG.assume(z3.Implies(st["stored"].t + st["discarded"].t > 0, st["any"].t))
        st["events"] = []
        if loop.mode == "iter":
            k = loop.k
            ENG.assume(And(m("area") >= 0, m("pieces") >= 0, m("piece_size", 0) >= 1, st["P"](k).t >= 1))

    def role(v):
        return "table of the " + v.kind if isinstance(v, Stored) and v.keys is None else "eddy" if isinstance(v, emod.Eddy) else None

    def role_at(role, loop):
        if role == "eddy":
            if ENG.decide(st["any"]):
                e = object.__new__(emod.Eddy)
                return e
            return None
        g = role.split()[-1]
        return Stored(g, st[g]) if ENG.decide(st[g].t > 0) else None

    def role_ok(role, v, loop):
        if role == "eddy":
            if v is None:
                return Not(bterm(st["any"]))
            return z3.BoolVal(isinstance(v, emod.Eddy))
        g = role.split()[-1]
        n = term(st[g])
        if v is None:
            return n == 0
        return And(n > 0, v.count.t == n) if isinstance(v, Stored) and v.kind == g else z3.BoolVal(False)

    def end(loop, locs):
        judge(st, loop.k, m, vreq)
        if any(isinstance(x, emod.Eddy) for x in locs.values()):
            st["any"] = SB(TRUE)
        sreq(z3.Implies(st["stored"].t + st["discarded"].t > 0, bterm(st["any"])), "an eddy is at hand to leave the search once one is recorded", assume=False)
    ENG.loop_specs["trackeddy.trackeddy:TrackEddy._detect_one_level#0"] = NS(begin=begin, end=end, role=role, role_at=role_at, role_ok=role_ok)

    def body():
        st.clear()
        n, m_ = count("rows", 2), count("cols", 2)
        N = count("contours", 0)
        f = {k: ENG.fresh_fn(k, *([I] * a), s) for k, a, s in (
            ("area", 1, R), ("area_ellipse", 1, R), ("area_ellipse_known", 1, z3.BoolSort()), ("Rd", 1, R), ("has_ellipse", 1, z3.BoolSort()),
            ("ellipse_params", 2, R), ("eccentricity", 1, R), ("ellipse_score", 1, R), ("surface_score", 1, R), ("pieces", 1, I), ("piece_size", 2, I),
            ("piece_pt", 4, R), ("stack_size", 1, I), ("stack_pt", 3, R), ("sign", 1, I), ("maxima", 2, R), ("gaussian_params", 2, R), ("ellipse_size", 1, I))}
        P, C = ENG.fresh_fn("vertices", I, I), ENG.fresh_fn("vertex_pt", I, I, I, R)
        E = ENG.fresh_fn("ellipse_pt", I, I, R)
        q = z3.Int("q!")
        ENG.assume(z3.ForAll([q], z3.Implies(And(q >= 0, q < N.t), P(q) >= 1), patterns=[P(q)]))
        means = {}

        def mean(k, c):
            key = (term(k).get_id(), c)
            if key not in means:
                means[key] = A.bigsum(lambda i: S(C(term(k), term(i), z3.IntVal(c))), 0, S(P(term(k)))) / S(P(term(k)))
            return means[key]
        st.update(n=n, m=m_, N=N, f=f, P=lambda k: S(P(term(k))), C=lambda k, i, c: S(C(term(k), term(i), term(c))), mean=mean, stored=S(z3.IntVal(0)), discarded=S(z3.IntVal(0)),
                  any=SB(FALSE), events=[], X=array("X", (n, m_)), Y=array("Y", (n, m_)), D=nanarray("field", (n, m_)), level=num("level"),
                  E=Arr((count("ellipse_points", 1), 2), lambda i: S(E(term(i[0]), term(i[1]))), "f"),
                  contour=lambda k: Arr((S(P(term(k))), 2), lambda i, k=k: S(C(term(k), term(i[0]), term(i[1]))), "f"))
        self = object.__new__(T)
        crit = {k: num(k, 0) for k in ("ellipse_fit", "eccentricity", "gaussian_fit", "max_area")}
        st["crit"] = dict(crit)
        st["skip_fit"] = ENG.choose(2) == 1
        self.__dict__.update(X=st["X"], Y=st["Y"], data2track=xr.DA(st["D"], ("lat", "lon")), identification_criteria=crit, skip_gaussian_fit=st["skip_fit"],
                             coords={"time": "time", "x": "lon", "y": "lat"})
        ENG.mark("entry")
        out = self._detect_one_level(st["level"])
        ENG.mark("return")
        loop = st.get("loop")
        vreq(z3.BoolVal(loop is not None and loop.mode == "exit"), "post: every contour is examined", assume=False)
        vreq(z3.BoolVal(crit.keys() == st["crit"].keys() and all(crit[k] is st["crit"][k] for k in crit)), "frame: the criteria are not changed", assume=False)
        if state:
            final(out, st, sreq)
    V.explore("_detect_one_level", body)


def SList_(n, get):
    from engine.seq import SList
    return SList(n, get)


def judge(st, k, m, vreq):
    """the verdicts that the criteria allow for contour k"""
    crit = st["crit"]
    dist, lim, far = [], [], []
    for c in (0, 1):
        a, b = real(st["mean"](k, c)), real(st["C"](k, S(z3.IntVal(0)), c))
        d = z3.If(a > b, a - b, b - a)
        ab = lambda x: z3.If(x >= 0, x, -x)
        lo, hi = z3.If(ab(a) < ab(b), ab(a), ab(b)), z3.If(ab(a) < ab(b), ab(b), ab(a))
        lim.append(d <= z3.RealVal("1/100000000") * z3.RealVal("9/10") + EPS * z3.RealVal("99/100") * lo)
        far.append(d > z3.RealVal("1/100000000") * z3.RealVal("11/10") + EPS * z3.RealVal("101/100") * hi)
    must_skip, may_skip = And(*lim), Not(Or(*far))
    A_, Ae = m("area"), m("area_ellipse")
    gap = z3.If(A_ > Ae, A_ - Ae, Ae - A_)
    abse = z3.If(Ae >= 0, Ae, -Ae)
    ef = real(crit["ellipse_fit"])
    size = real(core.sqrt(S(A_) / S(core.PI)))
    R_ = ("area", size > real(crit["max_area"]) * m("Rd")),
    must, may = {}, {}
    must["area"] = may["area"] = size > real(crit["max_area"]) * m("Rd")
    must["ellipse_area"] = Or(Not(m("has_ellipse")), Not(m("area_ellipse_known")), gap > z3.RealVal("2/100000000") + ef * abse / 10)
    may["ellipse_area"] = Or(Not(m("has_ellipse")), Not(m("area_ellipse_known")), gap > ef * abse / 10)
    must["eccentricity"] = may["eccentricity"] = m("eccentricity") > real(crit["eccentricity"])
    must["similarity"] = may["similarity"] = m("ellipse_score") > ef
    must["eddy_is_island"] = may["eddy_is_island"] = m("maxima", 0) == 0
    must["gaussian_fit_failed"] = may["gaussian_fit_failed"] = And(z3.BoolVal(not st["skip_fit"]), m("pieces") == 0)
    must["gaussian_check"] = may["gaussian_check"] = And(z3.BoolVal(not st["skip_fit"]), m("surface_score") < real(crit["gaussian_fit"]))
    ev = st["events"]
    vreq(z3.BoolVal(len(ev) <= 1), "a contour gets no more than one verdict", assume=False)
    if not ev:
        vreq(may_skip, "a contour without a verdict is practically a point", assume=False)
        return
    kind, reason = ev[0]
    first = [Not(must_skip)]
    if kind == "discarded":
        reason = str(core.unwrap0(reason)) if reason is not None else None
        if reason not in REASONS:
            vreq(z3.BoolVal(False), "a contour is discarded for one of the reasons", assume=False)
            return
        i = REASONS.index(reason)
        vreq(And(*first), "a contour with a verdict is not a point", assume=False)
        vreq(may[reason], 'a contour discarded as "%s" does not meet this criterion' % reason, assume=False)
        vreq(And(*[Not(must[r]) for r in REASONS[:i]]), 'a contour discarded as "%s" meets the criteria before it' % reason, assume=False)
    else:
        vreq(And(*first), "a contour with a verdict is not a point", assume=False)
        for r in REASONS:
            vreq(Not(must[r]), 'an accepted contour meets the criterion "%s"' % r, assume=False)


def check_record(st, e, kind, rreq, m):
    """the attributes when the eddy is recorded"""
    u = core.unwrap0
    done = st.get("measured")
    k = st["k"]

    def at(x, i):
        return A.asarr(x).at(i)
    rreq(same(u(e.level), st["level"]), "the level of a recorded eddy", assume=False)
    rreq(real(u(e.area_eddy)) == m("area"), "the area of a recorded eddy", assume=False)
    rreq(real(u(e.radius_eddy)) == real(core.sqrt(S(m("area")) / S(core.PI))), "the radius of a recorded eddy", assume=False)
    rreq(And(*[same(at(e.contour_center, c), st["mean"](k, c)) for c in (0, 1)]), "the mean vertex of a recorded eddy", assume=False)
    if done:
        rreq(term(u(e.eddy_sign)) == m("sign"), "the sign of a recorded eddy", assume=False)
        rreq(And(*[same(at(e.eddy_maxima, i), S(m("maxima", S(z3.IntVal(i))))) for i in range(3)]), "the extremum of a recorded eddy and where it is", assume=False)
    if done or kind == "stored":
        rreq(And(*[same(at(e.ellipse_params, i), S(m("ellipse_params", S(z3.IntVal(i))))) for i in range(3)]), "the ellipse of a recorded eddy", assume=False)
        rreq(real(u(e.ellipse_eccen)) == m("eccentricity"), "the eccentricity of a recorded eddy", assume=False)
        rreq(real(u(e.contour_ellipse_error)) == m("ellipse_score"), "the ellipse score of a recorded eddy", assume=False)
    if kind == "stored":
        rreq(z3.BoolVal(bool(done)), "a recorded eddy has its extremum", assume=False)
    if kind == "stored" and not st["skip_fit"]:
        rreq(And(*[same(at(e.gaussian_params, i), S(m("gaussian_params", S(z3.IntVal(i))))) for i in range(5)]), "the surface of a recorded eddy", assume=False)
        rreq(real(u(e.contour_gaussian_error)) == m("surface_score"), "the surface score of a recorded eddy", assume=False)


def final(out, st, sreq):
    if not (isinstance(out, tuple) and len(out) == 2):
        raise Unsupported("two tables were expected")
    a, b = out
    if isinstance(a, Stored):
        sreq(z3.BoolVal(a.kind == "stored" and a.keys == ("identifier", "index")), "post: the accepted eddies, by identifier and vertex", assume=False)
        sreq(And(a.count.t == term(st["stored"]), a.count.t > 0), "post: all the accepted eddies of the search", assume=False)
    else:
        sreq(And(z3.BoolVal(isinstance(a, TB.DataFrame) and bool(a.empty)), term(st["stored"]) == 0), "post: an empty table only if no eddy is accepted", assume=False)
    if isinstance(b, Stored):
        sreq(z3.BoolVal(b.kind == "discarded"), "post: the discarded contours", assume=False)
        sreq(And(b.count.t == term(st["discarded"]), b.count.t > 0), "post: all the discarded contours of the search", assume=False)
    else:
        sreq(And(z3.BoolVal(isinstance(b, list) and not b), term(st["discarded"]) == 0), "post: no table of discarded contours only if there is none", assume=False)
    for g in ("stored", "discarded"):
        sreq(Or(term(st[g]) == 0, z3.BoolVal(bool(st.get("exit_" + g)))), "post: the table of the %s eddies is reset" % g, assume=False)
