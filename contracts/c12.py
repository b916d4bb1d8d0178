"""C12: contract of _mask_data_in_contour.

scipy.ndimage.binary_fill_holes is an assumed contract: it maps a set of nodes to the set of
nodes that no 4-connected path outside the set joins to the outside; here its argument is
proved to be exactly the vertex nodes, and the sign, extremum and position are proved to
describe the mask it returns."""
from contracts.util import *
from engine import xr
from engine.shims import Lazy


def run(V):
    V.functions |= {"trackeddy.utils._mask_data_in_contour"}
    V.assumed.add("scipy.ndimage.binary_fill_holes fills exactly the nodes enclosed by the given ones (4-connected background), and keeps the given ones")
    V.assumed.add("xarray reductions skip missing values and argmax returns the first maximum in row-major order")
    calls = []

    def fill(m, *a, **k):
        if a or k:
            raise Unsupported("binary_fill_holes with other arguments")
        m = A.asarr(m)
        f = ENG.fresh_fn("filled", I, I, z3.BoolSort())
        r = Arr(m.shape, lambda i: SB(f(term(i[0]), term(i[1]))), "b")
        ENG.assume(A.forallN(m.shape, lambda *i: z3.Implies(nonzero(m.at(*i)), bterm(r.at(*i)))))
        calls.append((m, r))
        return r

    def nonzero(v):
        return bterm(v) if isinstance(v, (SB, bool)) else real(v) != 0
    nd = Lazy("scipy.ndimage", binary_fill_holes=fill)
    shims = {"scipy.ndimage": nd, "scipy": Lazy("scipy", ndimage=nd)}
    f = V.loader(shims=shims).load("trackeddy.utils")._mask_data_in_contour

    def body():
        del calls[:]
        n, m, k = count("rows", 1), count("cols", 1), count("vertices", 1)
        D = nanarray("data", (n, m))
        V_ = array("vertex", (k, 2), "i")
        ENG.assume(A.forall(k, lambda v: z3.And(V_.at(v, 0).t >= 0, V_.at(v, 0).t < n.t, V_.at(v, 1).t >= 0, V_.at(v, 1).t < m.t)))
        ver = D._ver
        data = xr.DA(D, ("lat", "lon"))
        # some valid value among the vertex nodes
        w = index("valid", k)
        ENG.assume(okof(D.at(V_.at(w, 0), V_.at(w, 1))))
        ENG.mark("entry")
        out = f(V_, data, num("level"))
        if not (isinstance(out, tuple) and len(out) == 4):
            raise Unsupported("four results were expected")
        inside, sign, loc, mask = out
        ENG.mark("return")
        if len(calls) != 1:
            raise Unsupported("binary_fill_holes was called %d times" % len(calls))
        arg, H = calls[0]
        i, j = index("i", n), index("j", m)
        same_shape(arg, (n, m), "pre of binary_fill_holes")
        vertex = A.exists(k, lambda v: z3.And(V_.at(v, 0).t == i.t, V_.at(v, 1).t == j.t))
        ENG.require(nonzero(arg.at(i, j)) == vertex, "post: the filled set is that of the vertex nodes", assume=False)
        mk = A.asarr(mask)
        same_shape(mk, (n, m), "post: mask")
        ENG.require(bterm(mk.at(i, j)) == bterm(H.at(i, j)), "post: the mask is the filled set", assume=False)
        x = A.asarr(inside)
        same_shape(x, (n, m), "post: data inside")
        ENG.require(okof(x.at(i, j)) == z3.And(bterm(H.at(i, j)), okof(D.at(i, j))), "post: data is missing outside the mask", assume=False)
        ENG.require(z3.Implies(okof(x.at(i, j)), real(x.at(i, j)) == real(D.at(i, j))), "post: data is unchanged inside the mask", assume=False)
        # the interior
        ins = lambda a, b: z3.And(bterm(H.at(a, b)), okof(D.at(a, b)))
        Z = Arr((n, m), lambda q: S(real(D.at(*q)), ins(*q)), "f")
        tot = real(A.nansum(Z))
        cnt = real(A.nancount(Z))
        vi, vj = V_.at(w, 0), V_.at(w, 1)
        ENG.require(ins(vi, vj), "lemma: some interior value is valid")
        ENG.require(cnt > 0, "lemma: some value counts")
        mean = tot / cnt
        s = val(sign)
        st = real(s)
        ENG.require(st == z3.If(mean > 0, z3.RealVal(1), z3.If(mean < 0, z3.RealVal(-1), z3.RealVal(0))), "post: sign of the mean of the interior")
        ENG.require(okof(s), "post: sign is defined")
        L = A.asarr(loc)
        same_shape(L, (3, 1), "post: extremum, row and column")
        mxv, row, col = L.at(0, 0), L.at(1, 0), L.at(2, 0)
        r, c = S(term(row)) if core.isint(row) else row, col
        e = real(mxv)
        a, b = index("a", n), index("b", m)
        ENG.assume(ins(a, b))
        ENG.require(okof(mxv), "post: extremum is defined")
        ENG.require(z3.Implies(st == 1, real(D.at(a, b)) <= e), "post: the largest value for a positive sign", assume=False)
        ENG.require(z3.Implies(st == -1, real(D.at(a, b)) >= e), "post: the smallest value for a negative sign", assume=False)
        ENG.require(z3.Implies(st == 0, e == 0), "post: 0 for sign zero", assume=False)
        ri, ci = S(z3.ToInt(real(row))), S(z3.ToInt(real(col)))
        ENG.require(z3.And(real(row) == z3.ToReal(ri.t), real(col) == z3.ToReal(ci.t), ri.t >= 0, ri.t < n.t, ci.t >= 0, ci.t < m.t), "post: position in the window")
        ENG.require(z3.Implies(st != 0, z3.And(ins(ri, ci), real(D.at(ri, ci)) == e)), "post: an interior node holds the extremum there", assume=False)
        ENG.require(z3.BoolVal(D._ver == ver), "frame: the field is not modified")
    V.explore("utils._mask_data_in_contour", body)

    # ---- the position is that of the node: end of _data_in_contour
    V.functions |= {"trackeddy.trackeddy.TrackEddy._data_in_contour"}
    mod = V.loader(shims=shims).load("trackeddy.trackeddy")
    T = mod.TrackEddy

    def position():
        n, m, k, p, q = count("rows", 2), count("cols", 2), count("vertices", 1), count("wrows", 1), count("wcols", 1)
        X, Y = array("X", (n, m)), array("Y", (n, m))
        W = array("vertex", (k, 2))

        class Tree:
            def __init__(t, C, *a, **kw):
                t.C = A.asarr(C)

            def query(t, P, k=1, **kw):
                N, M = t.C.shape[0], A.asarr(P).shape[0]
                ENG.assume(term(N) >= 1)
                f = ENG.fresh_fn("near", I, I)
                v = z3.Int("v")
                ENG.assume(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < term(M)), z3.And(f(v) >= 0, f(v) < term(N)))))
                return array("dist", (M, 1)), Arr((M, 1), lambda i: S(f(term(i[0]))), "i")
        x, y, dn, cg = array("xc", (p, q)), array("yc", (p, q)), xr.DA(nanarray("dc", (p, q)), ("lat", "lon")), array("grid", (k, 2), "i")
        row, col, ext = index("row", p), index("col", q), num("extremum")
        sign, mask, ins = num("sign"), array("mask", (p, q), "b"), xr.DA(nanarray("ins", (p, q)), ("lat", "lon"))
        log = []

        def crop(ci, *a, **kw):
            log.append("crop")
            return dn, cg, x, y

        def maskf(ci, d, *a, **kw):
            ENG.require(z3.BoolVal(ci is cg and d is dn), "pre of _mask_data_in_contour: the nodes and the field of the crop")
            log.append("mask")
            return ins, sign, Arr((3, 1), lambda i: A.pick([lambda z: ext, lambda z: S(z3.ToReal(row.t)), lambda z: S(z3.ToReal(col.t))], i[0], ()), "f"), mask
        old = mod.__dict__.get("BallTree"), mod._mask_data_in_contour
        mod.BallTree, mod._mask_data_in_contour = Tree, maskf
        self = NS(X=X, Y=Y, data2track=dn, coords={"x": "lon", "y": "lat", "time": ""}, _get_data_in_contour=crop)
        eddy = NS(contour=W, level=num("level"))
        ENG.mark("entry")
        out = T._data_in_contour(self, eddy)
        mod.BallTree, mod._mask_data_in_contour = old
        ENG.mark("return")
        ENG.require(z3.BoolVal(log == ["crop", "mask"]), "post: one crop, one mask")
        ENG.require(z3.BoolVal(isinstance(out, tuple) and len(out) == 3 and out[0] is ins and out[1] is x and out[2] is y), "post: masked data and the coordinates of the crop")
        M = A.asarr(eddy.eddy_maxima)
        same_shape(M, (3, 1), "post: extremum, latitude, longitude")
        ENG.require(eq(M.at(0, 0), ext), "post: the extremum", assume=False)
        ENG.require(eq(M.at(1, 0), y.at(row, col)), "post: latitude of the node of the extremum", assume=False)
        ENG.require(eq(M.at(2, 0), x.at(row, col)), "post: longitude of the node of the extremum", assume=False)
        ENG.require(eq(eddy.eddy_sign, sign), "post: the sign", assume=False)
    V.explore("trackeddy.TrackEddy._data_in_contour (position)", position)
