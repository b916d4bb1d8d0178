"""C09: contract of Fit_Surface (construct_bounds, fit_curve, _fitting) and gaussian_residual.

scipy.optimize.least_squares is an assumed contract: given lb < ub and lb <= x0 <= ub it
returns some x within the bounds; its precondition is an obligation here."""
from contracts.util import *
from contracts.c08 import spec as gauss_spec


def absr(t):
    return z3.If(t >= 0, t, -t)


def run(V):
    V.functions |= {"trackeddy.geometry.Fit_Surface.__init__", "trackeddy.geometry.Fit_Surface.construct_bounds",
                    "trackeddy.geometry.Fit_Surface.fit_curve", "trackeddy.geometry.Fit_Surface._fitting", "trackeddy.geometry.gaussian_residual"}
    V.assumed.add("scipy.optimize.least_squares: for lb < ub and lb <= x0 <= ub returns a point within the bounds (which point minimises is not decided)")
    g = V.loader().load("trackeddy.geometry")
    real_gauss = g.gaussian

    def inputs(scalar_max):
        n, m = count("rows", 2), count("cols", 2)
        X, Y = array("X", (n, m)), array("Y", (n, m))
        data = nanarray("data", (n, m))
        mx = array("maxima", (3,) if scalar_max else (3, 1))
        ell = array("ellipse", (3,))
        return n, m, X, Y, data, mx, ell

    def at0(mx, i):
        return mx.at(i) if mx.ndim == 1 else mx.at(i, 0)

    def fitting(scalar_max):
        def body():
            n, m, X, Y, data, mx, ell = inputs(scalar_max)
            x0, y0, amp = at0(mx, 2), at0(mx, 1), at0(mx, 0)
            nn, mm = S(z3.ToReal(n.t)), S(z3.ToReal(m.t))
            dx = A.sum_all(Arr((n, m - 1), lambda i: X.at(i[0], i[1] + 1) - X.at(i[0], i[1]), "f")) / (nn * (mm - 1))
            dy = A.sum_all(Arr((n - 1, m), lambda i: Y.at(i[0] + 1, i[1]) - Y.at(i[0], i[1]), "f")) / ((nn - 1) * mm)
            ENG.assume(z3.And(real(dx) != 0, real(dy) != 0))
            res = array("fit", (5,))
            seen = []

            def least_squares(fun, guess, args=(), bounds=None, **kw):
                if "jac" in kw or len(seen):
                    raise Unsupported("least_squares with other arguments")
                lb, ub = bounds
                lb, ub = A.asarr(lb), A.asarr(ub)
                guess = A.asarr(guess)
                same_shape(lb, (5,), "pre of least_squares: lower bounds")
                same_shape(ub, (5,), "pre of least_squares: upper bounds")
                same_shape(guess, (5,), "pre of least_squares: starting point")
                for i, nm in enumerate(("x", "y", "sigma_x", "sigma_y", "theta")):
                    l, u, c = lb.at(i), ub.at(i), guess.at(i)
                    ENG.require(z3.And(okof(l), okof(u), okof(c)), "pre of least_squares: %s is defined" % nm)
                    ENG.require(real(l) < real(u), "pre of least_squares: lower < upper bound of %s" % nm)
                    ENG.require(z3.And(real(l) <= real(c), real(c) <= real(u)), "pre of least_squares: starting %s within its bounds" % nm)
                    ENG.assume(z3.And(real(l) <= real(res.at(i)), real(res.at(i)) <= real(u)))
                # the quantity minimised
                p = array("point", (5,))
                r = val(fun(p, *args))
                G = Arr((n, m), lambda i: gauss_at(X, Y, amp, p, i[0], i[1]), "f")
                diff = Arr((n, m), lambda i: core.absolute(data.at(*i) - G.at(*i)), "f")
                want = A.std(diff, True) * A.nanmean(diff)
                ENG.require(real(r) == real(val(want)), "post: standard deviation times mean of the absolute differences", assume=False)
                seen.append(1)
                return NS(x=res)
            # callee contract of gaussian (discharged by C08)
            gf = ENG.fresh_fn("GAUSS", *([R] * 9))

            def gauss_at(X, Y, amp, p, i, j):
                return S(gf(*[real(q) for q in (X.at(i, j), Y.at(i, j), amp, p.at(0), p.at(1), p.at(2), p.at(3), p.at(4))]))

            def gaussian(coords, xo, yo, sx, sy, th):
                CX, CY, a = coords
                a = val(a) if not isinstance(a, Arr) or a.ndim == 0 else a.reshape(1).at(0)
                q = A.asarr([xo, yo, sx, sy, th])
                return Arr(CX.shape, lambda i: gauss_at(CX, CY, a, q, i[0], i[1]), "f").ravel()
            g.gaussian, g.least_squares = gaussian, least_squares
            try:
                ENG.mark("entry")
                eddy = NS(eddy_maxima=mx, ellipse_params=ell, level=num("level"))
                F = g.Fit_Surface(eddy, data, X, Y)
                surf, par = F._fitting()
            finally:
                g.gaussian = real_gauss
            ENG.mark("return")
            same_shape(par, (5,), "post: five parameters")
            q = [real(par.at(i)) for i in range(5)]
            ENG.require(absr(q[0] - real(x0)) <= absr(real(dx)), "post: centre within one mean spacing along x", assume=False)
            ENG.require(absr(q[1] - real(y0)) <= absr(real(dy)), "post: centre within one mean spacing along y", assume=False)
            for i in range(3):
                e = real(ell.at(i))
                ENG.require(z3.If(e == 0, absr(q[2 + i]) <= z3.RealVal("1/10000"), absr(q[2 + i] - e) <= z3.RealVal("7/10") * absr(e)),
                            "post: parameter %d within 70 %% of its initial value" % (2 + i), assume=False)
            same_shape(surf, (n, m), "post: surface on the grid of the coordinates")
            i, j = index("row", n), index("col", m)
            ENG.require(eq(surf.at(i, j), gauss_at(X, Y, amp, par, i, j)), "post: the surface is the Gaussian of the returned parameters", assume=False)
            return
        return body
    V.explore("geometry.Fit_Surface._fitting", fitting(False))
