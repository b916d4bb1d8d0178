"""C04: contract of area_latlon_polygon for polygons of any number of points."""
from contracts.util import *


def run(V):
    V.functions.add("trackeddy.geometry.area_latlon_polygon")
    f = V.loader().load("trackeddy.geometry").area_latlon_polygon
    P2 = S(2 * core.PI)
    PIS = S(core.PI)

    def angles(P, k):
        lon, lat = P.at(k, 0) * PIS / 180, P.at(k, 1) * PIS / 180
        h = core.power(core.sin(lat / 2), 2) + core.cos(lat) * core.power(core.sin(lon / 2), 2)
        dist = 2 * core.atan2(core.sqrt(h), core.sqrt(1 - h))
        az = core.mod(core.atan2(core.cos(lat) * core.sin(lon), core.sin(lat)), P2)
        return dist, az

    def segment(P, k):
        d0, a0 = angles(P, k)
        d1, a1 = angles(P, k + 1)
        turn = core.mod(a1 - a0 + PIS, P2) - PIS
        return (1 - core.cos((d0 + d1) / 2)) * turn

    R2 = S(z3.RealVal("6378137/1000") * z3.RealVal("6378137/1000"))

    def value():
        n = count("n", 1)
        P = array("P", (n, 2))
        ENG.mark("entry")
        r = val(f(P))
        # spec: |sum over the segments| R^2
        tot = A.bigsum(lambda k: S(real(segment(P, k))), 0, n - 1)
        spec = core.absolute(tot) * R2
        ENG.require(real(r) == real(spec), "post: spherical line integral in square kilometres")
        ENG.require(okof(r), "post: defined")
        ENG.require(real(r) >= 0, "post: never negative")
        ENG.mark("exit")

    def wrapped():
        a = num("turn")
        w = real(core.mod(a + PIS, P2) - PIS)
        ENG.require(z3.And(w >= -core.PI, w < core.PI), "lemma: azimuth changes are wrapped into [-180, 180)")
        # opposite direction
        b = real(core.mod(-a + PIS, P2) - PIS)
        q = (a.t + core.PI) / (2 * core.PI)
        ENG.require(z3.Implies(w != -core.PI, b == -w), "lemma: traversing a segment backwards changes the sign of its turn",
                    tac={"lemmas": []})

    def domain():
        """the square roots are defined at every point"""
        s, t = num("s"), num("t")
        k = z3.And(s.t >= 0, s.t <= 1, t.t >= 0, t.t <= 1)
        ENG.assume(k)
        h = s.t + (1 - 2 * s.t) * t.t
        ENG.require(z3.And(h >= 0, h <= 1), "lemma: haversine between 0 and 1, for squared half-angle sines in [0, 1]")

    V.explore("geometry.area_latlon_polygon", value)
    V.explore("geometry.area_latlon_polygon (domain)", domain)
    V.explore("geometry.area_latlon_polygon (turns)", wrapped)
