"""C16: contract of _detect_nearest.

sklearn.neighbors.BallTree is an assumed contract: with the haversine metric, query returns for each point
(latitude and longitude in radians) a nearest point of the tree and the great-circle distance to it."""
from contracts.util import *
from engine import tables as TB
from engine.shims import Lazy


def ball_tree(st):
    H = ENG.fresh_fn("haversine", R, R, R, R, R)
    st["queries"] = []

    class BallTree:
        def __init__(s, X, leaf_size=40, metric="minkowski", **k):
            if k:
                raise Unsupported("options of BallTree")
            s.X = A.asarr(X)
            ENG.require(z3.BoolVal(metric == "haversine"), "pre of BallTree: great-circle distance")
            if s.X.ndim != 2:
                raise ValueError("Expected 2D array")
            if not ENG.decide(term(s.X.shape[0]) > 0):
                raise ValueError("Found array with 0 sample(s)")

        def query(s, Y, k=1, return_distance=True, **o):
            Y = A.asarr(Y)
            if k != 1 or o or not return_distance:
                raise Unsupported("options of query")
            m, n = Y.shape[0], s.X.shape[0]
            nb, ds = ENG.fresh_fn("nearest_of", I, I), ENG.fresh_fn("distance_of", I, R)
            h = lambda j, q: H(real(s.X.at(j, 0)), real(s.X.at(j, 1)), real(Y.at(q, 0)), real(Y.at(q, 1)))
            ENG.assume(A.forall(m, lambda q: And(nb(term(q)) >= 0, nb(term(q)) < term(n), ds(term(q)) >= 0, ds(term(q)) == h(S(nb(term(q))), q))))
            ENG.assume(A.forallN((m, n), lambda q, j: ds(term(q)) <= h(j, q)))
            st["queries"].append((s.X, Y, nb, ds))
            return (Arr((m, 1), lambda i: S(ds(term(i[0]))), "f"), Arr((m, 1), lambda i: S(nb(term(i[0]))), "i"))
    return BallTree


def eddies(base, names):
    """an arbitrary table of eddies: one row with index 0 for each of them"""
    n = count(base + "_rows", 1)
    fn = {}
    for c in ("maxima_y", "maxima_x", "radius_eddy", "other"):
        g = ENG.fresh_fn(base + "_" + c, I, R)
        fn[c] = lambda r, g=g: S(g(term(r)))
    for c in names:
        g = ENG.fresh_fn(base + "_" + c, I, I)
        fn[c] = lambda r, g=g: S(g(term(r)))
    w = index(base + "_some", n)
    ENG.assume(fn["index"](w).t == 0)
    return TB.table(n, {c: fn[c] for c in ("maxima_y", "maxima_x", "radius_eddy", "other")}, [(c, fn[c]) for c in names])


def run(V):
    V.functions |= {"trackeddy.utils._detect_nearest"}
    V.assumed.add("sklearn.neighbors.BallTree(metric='haversine').query returns a nearest point of the tree, the great-circle angle to it, one per query point")
    V.assumed.add("pandas: xs, column selection, get_level_values have the documented meaning (rows keep their order)")
    st = {}

    def case(names):
        def body():
            bt = ball_tree(st)
            shims = {"sklearn.neighbors": Lazy("sklearn.neighbors", BallTree=bt), "pandas": TB.make()}
            f = V.loader(shims=shims).load("trackeddy.utils")._detect_nearest
            p, n = eddies("old", names), eddies("new", names)
            P, N = p.xs(0, level="index"), n.xs(0, level="index")
            ENG.mark("entry")
            out = f(p, n)
            ENG.mark("return")
            if not (isinstance(out, tuple) and len(out) == 2):
                raise Unsupported("two results were expected")
            idx, near = A.asarr(out[0]), A.asarr(out[1])
            np_, posp, _ = P.rows.enum()
            nn, posn, _ = N.rows.enum()
            a, b = index("a", nn), index("b", nn)
            pt = lambda t, pos, k: (real(t.cols["maxima_y"](pos(k))) * core.PI / 180, real(t.cols["maxima_x"](pos(k))) * core.PI / 180)
            radius = lambda q: real(n.cols["radius_eddy"](posn(q)))
            same_shape(idx, (nn, 1), "post: a predecessor for each new eddy")
            if len(st["queries"]) != 1:
                raise Unsupported("the tree was queried %d times" % len(st["queries"]))
            X, Y, nb, ds = st["queries"][0]
            same_shape(X, (np_, 2), "pre of BallTree: every old eddy")
            same_shape(Y, (nn, 2), "pre of BallTree: every new eddy")
            j = index("j", np_)
            for c in (0, 1):
                ENG.require(eq(X.at(j, c), S(pt(p, posp, j)[c])), "pre of BallTree: latitude and longitude in radians (old)", assume=False)
                ENG.require(eq(Y.at(a, c), S(pt(n, posn, a)[c])), "pre of BallTree: latitude and longitude in radians (new)", assume=False)
            D = lambda q: ds(term(q)) * 6371
            within = lambda q: D(q) < radius(q)

            def loses(q, o):
                """o is closer to the same predecessor, or as close and earlier"""
                return And(nb(term(o)) == nb(term(q)), within(o), Or(ds(term(o)) < ds(term(q)), And(ds(term(o)) == ds(term(q)), term(o) < term(q))))
            ENG.require(eq(idx.at(a, 0), p._levels[0].fn(posp(S(nb(a.t))))), "post: the predecessor is reported by its identifier", assume=False)
            K = near.shape[0]
            if near.ndim != 1:
                raise Unsupported("the matched eddies are not a sequence")
            k, l = index("k", K), index("l", K)
            x, y = near.at(k), near.at(l)
            ENG.require(And(term(x) >= 0, term(x) < nn.t), "post: matched eddies are new eddies")
            ENG.require(z3.Implies(k.t < l.t, term(x) < term(y)), "post: each is matched once", assume=False)
            ENG.require(within(x), "post: within the radius of the new eddy", assume=False)
            ENG.require(z3.Not(loses(x, b)), "post: no other new eddy is closer to the same predecessor", assume=False)
            listed = A.exists(K, lambda q: term(near.at(q)) == a.t)
            ENG.require(z3.Implies(And(within(a), A.forall(nn, lambda o: z3.Not(loses(a, o)))), listed), "post: every eddy that qualifies is matched", assume=False)
        return body
    V.explore("_detect_nearest (levels)", case(["identifier", "index"]))
    V.explore("_detect_nearest (times)", case(["identifier", "time", "index"]))
