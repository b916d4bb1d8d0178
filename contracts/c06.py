"""C06: contract of eccentricity, for all semi-axes (real arithmetic)."""
from contracts.util import *


def run(V):
    V.functions.add("trackeddy.geometry.eccentricity")
    f = V.loader().load("trackeddy.geometry").eccentricity

    def post():
        a, b = num("a"), num("b")
        ENG.assume(z3.And(a.t != 0, z3.If(a.t >= 0, a.t, -a.t) >= z3.If(b.t >= 0, b.t, -b.t)))
        ENG.mark("entry")
        sq = b.t * b.t <= a.t * a.t
        ENG.require(sq, "lemma: squares are ordered")
        q = (b.t * b.t) / (a.t * a.t)
        ENG.require(z3.And(q <= 1, q >= 0), "lemma: quotient in [0, 1]")
        r = val(f(a, b))
        e = real(r)
        spec = core.F_sqrt(1 - (b.t * b.t) / (a.t * a.t))
        ENG.require(okof(r), "post: defined")
        ENG.require(e == spec, "post: sqrt(1 - b^2/a^2)")
        ENG.require(e >= 0, "post: not negative")
        ENG.require(e <= 1, "post: at most 1")
        ENG.require(z3.Implies(a.t * a.t == b.t * b.t, e == 0), "post: 0 for circles")
        ENG.require(z3.Implies(e == 0, a.t * a.t == b.t * b.t), "post: 0 only for circles")
        ENG.mark("exit")
    V.explore("geometry.eccentricity", post)
