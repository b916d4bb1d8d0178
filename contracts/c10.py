"""C10: contract of approx_RD_lat (for every latitude; real arithmetic)."""
import z3
from engine.core import ENG, S, real


def run(V):
    L = V.loader()
    V.functions.add("trackeddy.physics.approx_RD_lat")
    f = L.load("trackeddy.physics").approx_RD_lat

    def value():
        x = S(ENG.fresh("x"))
        ENG.mark("entry")
        r = real(f(x))
        ENG.require(r > 0, "post: positive")
        ENG.require(r <= 260, "post: at most 260 km")
        ENG.mark("exit")
        ENG.require(real(f(0)) == 260, "post: 260 km at the equator")

    def even():
        x = S(ENG.fresh("x"))
        ENG.require(real(f(x)) == real(f(-x)), "post: same at both hemispheres")

    def decreasing():
        x, y = S(ENG.fresh("x")), S(ENG.fresh("y"))
        ENG.assume(z3.And(x.t >= 0, x.t < y.t))
        ENG.mark("entry")
        sq = x.t * x.t < y.t * y.t
        ENG.require(sq, "lemma: squares are ordered")
        ENG.require(real(f(y)) < real(f(x)), "post: decreases away from the equator")
    V.explore("physics.approx_RD_lat", value)
    V.explore("physics.approx_RD_lat (evenness)", even)
    V.explore("physics.approx_RD_lat (monotonicity)", decreasing)
