"""C11: contracts of _get_data_in_contour and _data_in_contour."""
from contracts.util import *
from engine import xr
from engine.shims import Lazy


def run(V):
    V.functions |= {"trackeddy.trackeddy.TrackEddy._get_data_in_contour"}
    L = V.loader()
    T = L.load("trackeddy.trackeddy").TrackEddy

    def crop():
        n, m, k = count("rows", 1), count("cols", 1), count("vertices", 1)
        X, Y, D = array("X", (n, m)), array("Y", (n, m)), nanarray("data", (n, m))
        ci = array("node", (k, 2), "i")
        ENG.assume(A.forall(k, lambda v: z3.And(ci.at(v, 0).t >= 0, ci.at(v, 0).t < n.t, ci.at(v, 1).t >= 0, ci.at(v, 1).t < m.t)))
        # smallest and largest indices
        ext = []
        for d in range(2):
            lo, hi = ENG.fresh("lo", I), ENG.fresh("hi", I)
            a, b = index("atlo", k), index("athi", k)
            ENG.assume(z3.And(lo == ci.at(a, d).t, hi == ci.at(b, d).t))
            ENG.assume(A.forall(k, lambda v: z3.And(ci.at(v, d).t >= lo, ci.at(v, d).t <= hi)))
            ext.append((lo, hi))
        span = z3.If(ext[0][1] - ext[0][0] >= ext[1][1] - ext[1][0], ext[0][1] - ext[0][0], ext[1][1] - ext[1][0])
        half = span / 2
        marg = z3.If(half <= 3, z3.IntVal(3), half)
        size = (n.t, m.t)
        want_lo = [z3.If(ext[d][0] - marg >= 0, ext[d][0] - marg, z3.IntVal(0)) for d in range(2)]
        want_hi = [z3.If(ext[d][1] + marg + 1 <= size[d], ext[d][1] + marg + 1, size[d]) for d in range(2)]

        def corner(st, name):
            q = st.var(name)
            return [term(q.at(d)) for d in range(2)]

        def upper(st):
            q = corner(st, "TR_corner")
            return [("not beyond the margin", z3.And(*[q[d] <= ext[d][1] + marg + 1 for d in range(2)])),
                    ("only cut at the edges", z3.And(*[q[d] >= want_hi[d] for d in range(2)]))]

        def lower(st):
            q = corner(st, "BL_corner")
            return [("not beyond the margin", z3.And(*[q[d] >= ext[d][0] - marg for d in range(2)])),
                    ("only cut at the edges", z3.And(*[q[d] <= want_lo[d] for d in range(2)]))]
        # either loop may be written without one: the same invariant and measure for both
        beyond = lambda a: z3.If(a > 0, a, 0)
        both = NS(inv=lambda st: upper(st) + lower(st),
                  measure=lambda st: z3.Sum(*[beyond(corner(st, "TR_corner")[d] - size[d]) + beyond(-corner(st, "BL_corner")[d]) for d in range(2)]))
        for nr in range(2):
            ENG.loop_specs["trackeddy.trackeddy:TrackEddy._get_data_in_contour#%d" % nr] = both
        data = xr.DA(D, ("lat", "lon"))
        self = NS(X=X, Y=Y, data2track=data, coords={"x": "lon", "y": "lat", "time": ""})
        vers = [q._ver for q in (X, Y, D, ci)]
        ENG.mark("entry")
        out = T._get_data_in_contour(self, ci)
        ENG.mark("return")
        if not (isinstance(out, tuple) and len(out) == 4):
            raise Unsupported("four results were expected")
        dn, cg, x, y = out
        dn = A.asarr(dn)
        ENG.require(z3.And(*[z3.And(want_lo[d] >= 0, want_lo[d] < want_hi[d], want_hi[d] <= size[d]) for d in range(2)]), "lemma: the rectangle lies in the grid")
        for nm, q, src in (("field", dn, D), ("longitudes", x, X), ("latitudes", y, Y)):
            ENG.require(z3.And(*[term(q.shape[d]) == want_hi[d] - want_lo[d] for d in range(2)]), "post: extents of the rectangle of the " + nm)
            i, j = S(ENG.fresh("r", I)), S(ENG.fresh("c", I))
            ENG.assume(z3.And(i.t >= 0, j.t >= 0, i.t < want_hi[0] - want_lo[0], j.t < want_hi[1] - want_lo[1]))
            u, w = q.at(i, j), src.at(S(i.t + want_lo[0]), S(j.t + want_lo[1]))
            ENG.require(z3.And(real(u) == real(w), okof(u) == okof(w)), "post: " + nm + " of the same nodes", assume=False)
        v = index("v", k)
        same_shape(cg, (k, 2), "post: one node per vertex")
        for d in range(2):
            ENG.require(term(cg.at(v, d)) + want_lo[d] == ci.at(v, d).t, "post: vertex nodes designate the same nodes", assume=False)
            ENG.require(z3.And(term(cg.at(v, d)) >= 0, term(cg.at(v, d)) < want_hi[d] - want_lo[d]), "post: vertex nodes are inside the rectangle", assume=False)
        ENG.require(z3.BoolVal(vers == [q._ver for q in (X, Y, D, ci)]), "frame: the grid and the nodes are not modified")
    V.explore("trackeddy.TrackEddy._get_data_in_contour", crop)

    # ---- _data_in_contour
    V.functions |= {"trackeddy.trackeddy.TrackEddy._data_in_contour"}
    V.assumed.add("sklearn BallTree.query(points, k=1) returns the index of a nearest candidate (Euclidean metric)")
    V.assumed.add("_data_in_contour: proved for rectilinear grids with monotone axes, contour vertices within cells of the grid (what C01 gives); curvilinear grids are explored by the oracle only")

    def sq(ax, ay, bx, by):
        return (ax - bx) * (ax - bx) + (ay - by) * (ay - by)

    def nearest():
        n, m, k = count("rows", 2), count("cols", 2), count("vertices", 1)
        xs, ys = array("x", (m,)), array("y", (n,))
        ups = [SB(ENG.fresh("increasing_" + d, z3.BoolSort())) for d in "xy"]
        for ax, up, ln in ((xs, ups[0], m), (ys, ups[1], n)):
            p, q = z3.Ints("p q")
            fp, fq = real(ax.at(S(p))), real(ax.at(S(q)))
            ENG.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < ln.t), z3.If(up.t, fp < fq, fp > fq))))
        X = Arr((n, m), lambda i: xs.at(i[1]), "f")
        Y = Arr((n, m), lambda i: ys.at(i[0]), "f")
        W = array("vertex", (k, 2))
        cf, rf = ENG.fresh_fn("cellcol", I, I), ENG.fresh_fn("cellrow", I, I)

        def between(w, a, b):
            return z3.Or(z3.And(a <= w, w <= b), z3.And(b <= w, w <= a))

        def incell(v):
            c, r = S(cf(term(v))), S(rf(term(v)))
            return z3.And(c.t >= 0, c.t + 1 < m.t, r.t >= 0, r.t + 1 < n.t, between(real(W.at(v, 0)), real(xs.at(c)), real(xs.at(c + 1))),
                          between(real(W.at(v, 1)), real(ys.at(r)), real(ys.at(r + 1))))
        ENG.assume(A.forall(k, incell))
        v = index("v", k)
        ENG.assume(incell(v))
        i, j = index("i", n), index("j", m)
        wx, wy = real(W.at(v, 0)), real(W.at(v, 1))
        # mean of the vertices: between their least and greatest coordinates
        for d in range(2):
            tot = lambda e: real(A.bigsum(lambda q: W.at(q, d), 0, e))
            hi, lo = ENG.fresh("hi", R), ENG.fresh("lo", R)
            a, b = index("athi", k), index("atlo", k)
            ENG.assume(z3.And(hi == real(W.at(a, d)), lo == real(W.at(b, d))))
            ENG.assume(A.forall(k, lambda q: z3.And(real(W.at(q, d)) <= hi, real(W.at(q, d)) >= lo)))
            t = index("t", k)
            rt = z3.ToReal(t.t)
            ih = z3.And(tot(t) <= rt * hi, tot(t) >= rt * lo)
            el = z3.And(real(W.at(t, d)) <= hi, real(W.at(t, d)) >= lo)
            ENG.require(el, "lemma: elements are between the extremes", assume=False)
            ENG.require(z3.Implies(z3.And(ih, el), z3.And(tot(t) + real(W.at(t, d)) <= (rt + 1) * hi, tot(t) + real(W.at(t, d)) >= (rt + 1) * lo)),
                        "lemma: partial sums are between the extremes (inductive step)", assume=False)
            kk = z3.ToReal(k.t)
            ENG.assume(z3.And(tot(k) <= kk * hi, tot(k) >= kk * lo))
            ENG.require(z3.And(tot(k) / kk <= hi, tot(k) / kk >= lo), "lemma: the mean is between the extremes")
            ENG.assume(z3.And(real(W.at(v, d)) <= hi, real(W.at(v, d)) >= lo))
        state = {}
        # nearest column and row of the cell
        jn, in_ = S(ENG.fresh("jn", I)), S(ENG.fresh("in", I))
        ab = lambda t: z3.If(t >= 0, t, -t)
        for q, f0, ax, w in ((jn, cf(v.t), xs, wx), (in_, rf(v.t), ys, wy)):
            p0, p1 = real(ax.at(S(f0))), real(ax.at(S(f0 + 1)))
            ENG.assume(q.t == z3.If(ab(p0 - w) <= ab(p1 - w), f0, f0 + 1))
        for q, ax, w, other, ln, f0, up in ((jn, xs, wx, j, m, cf(v.t), ups[0]), (in_, ys, wy, i, n, rf(v.t), ups[1])):
            mono = lambda a, b: z3.Implies(a < b, z3.If(up.t, real(ax.at(S(a))) < real(ax.at(S(b))), real(ax.at(S(a))) > real(ax.at(S(b)))))
            for a, b in ((other.t, f0), (f0 + 1, other.t), (f0, f0 + 1)):
                ENG.require(z3.Implies(z3.And(a >= 0, b < ln.t), mono(a, b)), "lemma: the axis is monotone")
            ENG.require(ab(real(ax.at(q)) - w) <= ab(real(ax.at(other)) - w), "lemma: no column (row) is closer than that of the cell")
            p0, p1 = real(ax.at(S(f0))), real(ax.at(S(f0 + 1)))
            ENG.require(ab(real(ax.at(q)) - w) <= ab(p1 - p0), "lemma: it is within the cell")

        class Tree:
            def __init__(t, C, *a, **kw):
                if kw.get("metric", "minkowski") not in ("minkowski", "euclidean") or a:
                    raise Unsupported("BallTree of another metric")
                t.C = A.asarr(C)

            def query(t, P, k=1, **kw):
                if core.unwrap0(k) != 1:
                    raise Unsupported("k")
                C, P = t.C, A.asarr(P)
                N, M = C.shape[0], P.shape[0]
                pos = ENG.path_cache["positions"]
                if len(pos) != 1:
                    raise Unsupported("one selection of candidates was expected")
                P_ = pos[0][2]
                with A.pure():
                    sel = bterm(P_.m.at(in_, jn))
                ENG.require(z3.And(in_.t >= 0, in_.t < n.t, jn.t >= 0, jn.t < m.t), "lemma: the corner is a node")
                ENG.require(sel, "lemma: the closest corner is among the candidates")
                rank = P_.inv(in_.t, jn.t)
                ENG.require(z3.And(rank >= 0, rank < P_.n.t, P_.p[0](rank) == in_.t, P_.p[1](rank) == jn.t), "lemma: rank of the corner")
                state["rank"] = rank
                ENG.require(term(N) >= 1, "pre of BallTree: some candidate", assume=True)
                f = ENG.fresh_fn("near", I, I)
                rows, cols = state["mask"] if "mask" in state else (None, None)
                vs, cs = z3.Ints("v c")
                d = lambda a, b: real(C.at(S(a), 0)) - real(P.at(S(b), 0)), lambda a, b: real(C.at(S(a), 1)) - real(P.at(S(b), 1))
                dist = lambda a, b: d[0](a, b) * d[0](a, b) + d[1](a, b) * d[1](a, b)
                ENG.assume(z3.ForAll([vs], z3.Implies(z3.And(vs >= 0, vs < term(M)), z3.And(f(vs) >= 0, f(vs) < term(N)))))
                near = lambda a, c: z3.Implies(z3.And(a >= 0, a < term(M), c >= 0, c < term(N)), dist(f(a), a) <= dist(c, a))
                state["near"], state["f"], state["N"], state["C"] = near, f, N, C
                return Arr((M, 1), lambda q: core.sqrt(S(dist(f(term(q[0])), term(q[0])))), "f"), Arr((M, 1), lambda q: S(f(term(q[0]))), "i")

        seen = {}

        def crop(ci, *a, **kw):
            seen["ci"] = ci
            raise PathDone()
        mod.BallTree = Tree
        data = xr.DA(nanarray("data", (n, m)), ("lat", "lon"))
        self = NS(X=X, Y=Y, data2track=data, coords={"x": "lon", "y": "lat", "time": ""}, _get_data_in_contour=crop)
        eddy = NS(contour=W, level=num("level"))
        ENG.mark("entry")
        try:
            T._data_in_contour(self, eddy)
        except PathDone:
            pass
        ENG.mark("nodes")
        ci = seen["ci"]
        same_shape(ci, (k, 2), "post: one node per vertex")
        ENG.assume(state["near"](v.t, state["rank"]))
        a, b = ci.at(v, 0), ci.at(v, 1)
        ENG.require(z3.And(term(a) >= 0, term(a) < n.t, term(b) >= 0, term(b) < m.t), "post: the node is in the grid")
        near = lambda p, q: sq(real(xs.at(q)), real(ys.at(p)), wx, wy)
        ENG.require(near(a, b) <= near(in_, jn), "lemma: as close as the closest corner")
        lemma("closer in both directions is closer", [R] * 5, lambda p, q, r, s_, t_: z3.Implies(z3.And(ab(p) <= ab(q), ab(r) <= ab(s_)), p * p + r * r <= q * q + s_ * s_),
              (S(real(xs.at(jn)) - wx), S(real(xs.at(j)) - wx), S(real(ys.at(in_)) - wy), S(real(ys.at(i)) - wy), 0))
        ENG.require(near(a, b) <= near(i, j), "post: no node of the grid is closer to the vertex")
    mod = L.load("trackeddy.trackeddy")
    V.explore("trackeddy.TrackEddy._data_in_contour", nearest)


class PathDone(BaseException):
    pass
