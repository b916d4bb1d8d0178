"""C08: contract of gaussian, for all parameters, all node sets and every node."""
from contracts.util import *


def spec(amp, x, y, xo, yo, sx, sy, t):
    c, s = core.cos(t), core.sin(t)
    dx, dy = x - xo, y - yo
    u = dx * c + dy * s
    v = dy * c - dx * s
    return amp * core.exp(-(u * u / (2 * sx * sx) + v * v / (2 * sy * sy))), u, v


def run(V):
    V.functions.add("trackeddy.geometry.gaussian")
    f = V.loader().load("trackeddy.geometry").gaussian

    def setup():
        n, m = count("rows", 1), count("cols", 1)
        X, Y = array("X", (n, m)), array("Y", (n, m))
        xo, yo, t, amp = num("xo"), num("yo"), num("theta"), num("amp")
        sx, sy = num("sx", nz=True), num("sy", nz=True)
        return n, m, X, Y, xo, yo, t, amp, sx, sy

    def post():
        n, m, X, Y, xo, yo, t, amp, sx, sy = setup()
        ENG.mark("entry")
        g = f((X, Y, amp), xo, yo, sx, sy, t)
        same_shape(g, (n * m,), "post: one value per node")
        i, j = index("row", n), index("col", m)
        gv = g.reshape(n, m).at(i, j)
        sp, u, v = spec(amp, X.at(i, j), Y.at(i, j), xo, yo, sx, sy, t)
        ENG.require(okof(gv), "post: defined")
        ENG.require(real(gv) == real(sp), "post: rotated Gaussian, row-major order")
        # consequences
        q = real(u * u / (2 * sx * sx) + v * v / (2 * sy * sy))
        lemma("quotient of squares", [R, R], lambda a, b: z3.Implies(b != 0, (a * a) / (2 * b * b) >= 0), (u, sx), (v, sy))
        ENG.require(q >= 0, "lemma: the exponent is not positive")
        E = core.F_exp(-q)
        ENG.require(z3.And(E > 0, E <= 1), "lemma: factor in (0, 1]")
        ENG.require(z3.And(z3.Implies(amp.t > 0, amp.t * E > 0), z3.Implies(amp.t < 0, amp.t * E < 0)), "post: the sign of the amplitude")
        ENG.require(z3.And(z3.Implies(amp.t >= 0, amp.t * E <= amp.t), z3.Implies(amp.t <= 0, amp.t * E >= amp.t)),
                    "post: never larger than the amplitude in magnitude")
        ENG.mark("exit")

    def centre():
        n, m, X, Y, xo, yo, t, amp, sx, sy = setup()
        g = f((X, Y, amp), xo, yo, sx, sy, t)
        i, j = index("row", n), index("col", m)
        ENG.assume(z3.And(real(X.at(i, j)) == xo.t, real(Y.at(i, j)) == yo.t))
        ENG.mark("entry")
        gv = g.reshape(n, m).at(i, j)
        ENG.require(z3.substitute(real(gv), (real(X.at(i, j)), xo.t), (real(Y.at(i, j)), yo.t)) == amp.t, "post: the amplitude at the centre")

    def scalar():
        n, m, X, Y, xo, yo, t, amp, sx, sy = setup()
        k = count("len", 1)
        x, y = array("x", (k,)), array("y", (k,))
        g = f((x, y, amp), xo, yo, sx, sy, t)
        i = index("i", k)
        sp, _, _ = spec(amp, x.at(i), y.at(i), xo, yo, sx, sy, t)
        same_shape(g, (k,), "post: one value per point")
        ENG.require(okof(g.at(i)), "post: defined")
        ENG.require(real(g.at(i)) == real(sp), "post: rotated Gaussian")
    V.explore("geometry.gaussian", post)
    V.explore("geometry.gaussian (centre)", centre)
    V.explore("geometry.gaussian (lists of points)", scalar)
