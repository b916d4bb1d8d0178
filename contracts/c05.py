"""C05: contract of fit_ellipse, for any number of points.

The coefficients (A, B, C, D, E) are the witness of numpy.linalg.solve (assumed contract:
M x = v); M and v are proved to be those of the normal equations, so the witness is the
least-squares conic."""
from contracts.util import *

F = lambda x: S(real(x))


def setup(V, f, n, x, y):
    """run fit_ellipse; returns mean point, coefficients, curve, parameters"""
    ENG.path_notes = []
    curve, par = f(x, y)
    sol = [p for p in ENG.path_notes if isinstance(p, tuple) and p[0] == "solve"]
    if len(sol) != 1:
        raise Unsupported("one linear system was expected, %d were solved" % len(sol))
    _, M, v, co = sol[0]
    return curve, par, M, v, co


def run(V):
    V.functions.add("trackeddy.geometry.fit_ellipse")
    V.assumed.add("numpy.linalg.solve returns the solution of a non-singular system or raises LinAlgError")
    V.assumed.add("a least-squares conic that is an ellipse has a > 0 (the sum of its values at the points equals the sum of their squares); the contract takes a > 0, 4ac > b^2 as 'is an ellipse'")
    f = V.loader().load("trackeddy.geometry").fit_ellipse

    def points():
        n = count("n", 1)
        x, y = array("x", (n,)), array("y", (n,))
        nn = S(z3.ToReal(n.t))
        mx = A.bigsum(lambda k: x.at(k), 0, n) / nn
        my = A.bigsum(lambda k: y.at(k), 0, n) / nn
        return n, x, y, S(mx.t), S(my.t)

    def hypotheses(co):
        a, b, c, d, e = [q.t for q in co]
        ENG.assume(z3.And(a > 0, 4 * a * c > b * b))
        ENG.require(c > 0, "lemma: c > 0")

    def normal():
        n, x, y, mx, my = points()
        ENG.mark("entry")
        curve, par, M, v, co = setup(V, f, n, x, y)
        phi = lambda k: (lambda p, q: [p * p, p * q, q * q, p, q])(x.at(k) - mx, y.at(k) - my)
        if not (M.shape == (5, 5) and v.shape == (5,)):
            raise Unsupported("normal equations of 5 unknowns were expected")
        for i in range(5):
            ENG.require(real(v.at(i)) == real(A.bigsum(lambda k: phi(k)[i], 0, n)), "normal equations: right-hand side %d" % i, assume=False)
            for j in range(5):
                ENG.require(real(M.at(i, j)) == real(A.bigsum(lambda k: phi(k)[i] * phi(k)[j], 0, n)),
                            "normal equations: entry %d %d" % (i, j), assume=False)
        same_shape(curve, (n, 2), "post: as many points as the input")
        ENG.mark("exit")

    def conic():
        n, x, y, mx, my = points()
        curve, par, M, v, co = setup(V, f, n, x, y)
        hypotheses(co)
        ENG.mark("ellipse")
        a, b, c, d, e = co
        tol = z3.RealVal("1/1000")
        ab = lambda t: z3.If(t >= 0, t, -t)
        tilted = z3.And(ab(b.t) > tol * a.t, ab(b.t) > tol * c.t)
        k = index("k", n)
        px, py = curve.at(k, 0) - mx, curve.at(k, 1) - my
        px, py = F(px), F(py)
        A_, B_, C_ = a.t, b.t, c.t
        if ENG.decide(tilted):
            ENG.mark("tilted")
            ENG.require(B_ != 0, "lemma: b is not zero")
            p = S(ENG.fresh("phi", R))
            s, q = core.F_sin(p.t), core.F_cos(p.t)
            half = z3.RealVal("1/2")
            if ENG.decide(C_ == A_):
                ENG.mark("tilted, a == c")
                # half a right angle: sine and cosine of 45 degrees
                pos = ENG.decide(B_ > 0)
                ph = core.PI / 4 if pos else -(core.PI / 4)
                ENG.assume(p.t == ph)
                ENG.assume(ph == p.t)
                ENG.assume(C_ == A_)
                ENG.assume(s == (core.F_sqrt(half) if pos else -core.F_sqrt(half)))
                ENG.assume(q == core.F_sqrt(half))
                rw = [(C_, A_), (ph, p.t), (s, core.F_sqrt(half) if pos else -core.F_sqrt(half)), (q, core.F_sqrt(half))]
            else:
                at = core.F_atan(B_ / (C_ - A_))
                ENG.assume(p.t == at / 2)
                ENG.assume(at / 2 == p.t)
                ENG.require(core.F_sin(at) == B_ / (C_ - A_) * core.F_cos(at), "lemma: tangent of the double angle")
                ENG.require(core.F_cos(at) > 0, "lemma: cosine of an arctangent")
                ENG.require(core.F_sin(2 * p.t) == B_ / (C_ - A_) * core.F_cos(2 * p.t), "lemma: orientation")
                ENG.require(core.F_cos(2 * p.t) > 0, "lemma: less than 45 degrees")
                ENG.require(B_ == (C_ - A_) * core.F_sin(2 * p.t) / core.F_cos(2 * p.t), "lemma: b from the orientation")
                rw = [(at / 2, p.t), (B_, (C_ - A_) * core.F_sin(2 * p.t) / core.F_cos(2 * p.t))]
            s, q = S(s), S(q)
            bb = b
        else:
            ENG.mark("not tilted")
            rw = []
            s, q = S(z3.RealVal(0)), S(z3.RealVal(1))
            bb = S(z3.RealVal(0))
        # the conic in its principal axes
        a2 = a * q * q - bb * q * s + c * s * s
        c2 = a * s * s + bb * q * s + c * q * q
        d2, e2 = d * q - e * s, d * s + e * q
        F2 = 1 + d2 * d2 / (4 * a2) + e2 * e2 / (4 * c2)
        t = {"rw": rw}
        ENG.require(real(a2 + c2) == A_ + C_, "lemma: trace", tac=t)
        ENG.require(real(a2 * c2) == (A_ * C_ - real(bb) * real(bb) / 4), "lemma: determinant", tac=t)
        ENG.require(A_ * C_ - real(bb) * real(bb) / 4 > 0, "lemma: positive determinant")
        lemma("two numbers of positive sum and product", [R, R], lambda u, v: z3.Implies(z3.And(u + v > 0, u * v > 0), z3.And(u > 0, v > 0)), (a2, c2))
        ENG.require(z3.And(real(a2) > 0, real(c2) > 0), "lemma: both principal coefficients are positive",
                    tac={"depth": 1})
        lemma("the conic is not empty", [R, R, R, R], lambda u, v, d, e: z3.Implies(z3.And(u > 0, v > 0), z3.And(
            1 + d * d / (4 * u) + e * e / (4 * v) >= 1, (1 + d * d / (4 * u) + e * e / (4 * v)) / u >= 0, (1 + d * d / (4 * u) + e * e / (4 * v)) / v >= 0)), (a2, c2, d2, e2))
        ra, rb = F2 / a2, F2 / c2
        ENG.require(z3.And(real(ra) >= 0, real(rb) >= 0), "lemma: squared semi-axes are not negative")
        aa, ab_ = core.absolute(ra), core.absolute(rb)
        ENG.require(aa.t == ra.t, "lemma: absolute value a")
        ENG.require(ab_.t == rb.t, "lemma: absolute value c")
        pre = [r for r in rw if r[1].eq(core.real(S(p.t)))] if rw else []
        t = {"rw": ([rw[0]] if rw and rw[0][0].eq(C_) else []) + pre + [(aa.t, ra.t), (ab_.t, rb.t)] + rw, "cases": 12}
        # in the coordinates of the axes
        conic_at = a * px * px + bb * px * py + c * py * py + d * px + e * py
        X, Y = S(ENG.fresh("X", R)), S(ENG.fresh("Y", R))
        Q = lambda x, y: real(a * x * x + bb * x * y + c * y * y + d * x + e * y)
        G = lambda u, v: real(a2 * u * u + c2 * v * v + d2 * u + e2 * v)
        ENG.require(Q(X, Y) == G(q * X - s * Y, s * X + q * Y), "lemma: the conic in the coordinates of its axes", tac={"rw": rw}, assume=False)
        u, v = q * px - s * py, s * px + q * py
        ENG.assume(Q(px, py) == G(u, v))                # instance of the lemma
        nn = z3.ToReal(n.t)
        tt = S(z3.If(n.t == 1, z3.RealVal(0), 2 * core.PI * (z3.ToReal(k.t) / (nn - 1))))
        U = core.sqrt(ra) * core.cos(tt) - d2 / (2 * a2)
        W = core.sqrt(rb) * core.sin(tt) - e2 / (2 * c2)
        tp = {"rw": t["rw"][:-len(rw)] if rw else t["rw"], "cases": 12}
        if rw and rw[0][0].eq(C_):
            tp = t
        ENG.require(real(u) == real(U), "post: abscissa along the first axis", tac=tp)
        ENG.require(real(v) == real(W), "post: ordinate along the second axis", tac=tp)
        ENG.require(G(U, W) == 1, "lemma: points of the ellipse")
        ENG.require(real(conic_at) == 1, "post: the points lie on the least-squares conic", assume=False, tac={
            "only": [Q(px, py) == G(u, v), real(u) == real(U), real(v) == real(W), G(U, W) == 1],
            "gen": [real(conic_at), real(U), real(W), real(u), real(v), real(a2), real(c2), real(d2), real(e2)]})
        # parameters
        p0, p1, p2 = par.at(0), par.at(1), par.at(2)
        for i, q_ in enumerate((p0, p1, p2)):
            ENG.require(okof(q_), "post: parameter %d is a finite number" % i, tac=tp)
        sa, sb = core.sqrt(ra), core.sqrt(rb)
        ENG.require(real(p0) + real(p1) == real(sa) + real(sb), "post: sum of the semi-axes", tac=t, assume=False)
        ENG.require(real(p0) * real(p1) == real(sa) * real(sb), "post: product of the semi-axes", tac=t, assume=False)
        ENG.require(real(p0) >= real(p1), "post: major semi-axis first", assume=False)
        rad = core.sqrt((a - c) * (a - c) + b * b)
        ang = z3.If(B_ == 0, z3.If(A_ <= C_, z3.RealVal(0), core.PI / 2), core.F_atan((C_ - A_ - rad.t) / B_))
        ENG.require(real(p2) == ang, "post: angle", assume=False)
        ENG.mark("exit")

    def translation():
        n, x, y, mx, my = points()
        dx, dy = num("dx"), num("dy")
        ENG.path_notes = []
        c1, p1 = f(x, y)
        c2, p2 = f(x + dx, y + dy)
        ENG.mark("both")
        k = index("k", n)
        ENG.require(real(c2.at(k, 0)) == real(c1.at(k, 0)) + dx.t, "post: translated abscissa", assume=False)
        ENG.require(real(c2.at(k, 1)) == real(c1.at(k, 1)) + dy.t, "post: translated ordinate", assume=False)
        for i in range(3):
            ENG.require(real(p2.at(i)) == real(p1.at(i)), "post: parameter %d unchanged" % i, assume=False)
    V.explore("geometry.fit_ellipse (translation)", translation, solve_may_fail=False, solve_no_assume=True, solve_reuse=True)
    V.explore("geometry.fit_ellipse (normal equations)", normal, solve_may_fail=False, solve_no_assume=True)
    V.explore("geometry.fit_ellipse (conic)", conic, solve_may_fail=False, solve_no_assume=True)
