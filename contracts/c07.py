"""C07: contracts of _c, frdist, arc_length and compute_similarity, for curves of any length.

dF(i, j) is the value of the discrete Frechet recursion over the distances d(i, j) of the
two curves; the lemmas tie it to couplings (least over all couplings of the largest distance)."""
from contracts.util import *
from engine.loops import veq

B = z3.BoolSort()


def dist_at(p, q, i, j):
    dx, dy = p.at(i, 0) - q.at(j, 0), p.at(i, 1) - q.at(j, 1)
    return core.sqrt(dx * dx + dy * dy)


def mx(a, b):
    return z3.If(a >= b, a, b)


def mn(a, b):
    return z3.If(a <= b, a, b)


def unfold(dF, d, i, j):
    """the recursion at (i, j)"""
    diag = mn(mn(dF(i - 1, j), dF(i - 1, j - 1)), dF(i, j - 1))
    return dF(i, j) == z3.If(z3.And(i == 0, j == 0), d,
                             z3.If(j == 0, mx(dF(i - 1, j), d), z3.If(i == 0, mx(dF(i, j - 1), d), mx(diag, d))))


class Thin:
    """a curve after k rounds of thinning: every F(k)-th of its points"""

    def __init__(s, name, F, L):
        s.name, s.F, s.L = name, F, L

    def base(s, locs):
        return s.at(0, locs)

    def arr(s, k, src):
        k = term(k)
        return Arr((S(s.L(k)), 2), lambda i: src.at(S(term(i[0]) * s.F(k)), i[1]), "f")

    def at(s, k, locs):
        s.k = k
        return s.arr(k, locs[s.name])

    def step(s, k, locs):
        """at(k + 1), unfolding F and L"""
        k = term(k)
        src = locs[s.name]
        L = s.L(k)
        c = k + 2
        return Arr((S(-((-L) / c)), 2), lambda i: src.at(S(term(i[0]) * c * s.F(k)), i[1]), "f")


def run(V):
    V.functions |= {"trackeddy.geometry._c", "trackeddy.geometry.frdist", "trackeddy.geometry.arc_length", "trackeddy.geometry.compute_similarity"}
    V.assumed.add("round(x, 4) is monotone and leaves 0 and 1 unchanged (assumed contract of the built-in)")
    g = V.loader().load("trackeddy.geometry")
    real_c = g._c
    n_, m_ = None, None

    def table(ca_shape, K, dF):
        return lambda ix: S(z3.If(K(term(ix[0]), term(ix[1])), dF(term(ix[0]), term(ix[1])), z3.RealVal(-1)))

    # ---- _c
    def c_body():
        n, m = count("n", 1), count("m", 1)
        p, q = array("p", (n, 2)), array("q", (m, 2))
        dF = ENG.fresh_fn("dF", I, I, R)
        K = ENG.fresh_fn("known", I, I, B)
        ca = Arr((n, m), table(None, K, dF), "f")
        i, j = index("i", n), index("j", m)
        d = real(dist_at(p, q, i, j))
        ENG.assume(unfold(dF, d, i.t, j.t))
        ENG.require(d >= 0, "lemma: distances are not negative")
        ENG.require(dF(i.t, j.t) >= d, "lemma: never less than the last distance")
        ENG.mark("entry")
        seen = []
        state = {"known": K}

        def callee(ca2, a, b, p2, q2):
            a, b = core.unwrap0(a), core.unwrap0(b)
            ta, tb = term(a), term(b)
            ENG.require(z3.BoolVal(ca2 is ca), "pre of _c: the same table")
            ENG.require(And(veq(p2, p), veq(q2, q)), "pre of _c: the same curves")
            ENG.require(z3.And(ta >= 0, tb >= 0, ta <= i.t, tb <= j.t), "pre of _c: inside the table")
            ENG.require(ta + tb < i.t + j.t, "termination of _c")
            x, y = z3.Int("x!"), z3.Int("y!")
            now = ca.at(S(x), S(y))
            ENG.require(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 0, x < n.t, y < m.t), Or(real(now) == -1, real(now) == dF(x, y)))),
                        "pre of _c: entries are unset or exact")
            K2 = ENG.fresh_fn("h_known", I, I, B)
            ca._get = table(None, K2, dF)
            ca._memo = {}
            ca._ver += 1
            A.ENG_mutated(ca)
            ENG.assume(K2(ta, tb))
            ENG.assume(z3.ForAll([x, y], z3.Implies(state["known"](x, y), K2(x, y)), patterns=[K2(x, y)]))
            state["known"] = K2
            seen.append((ta, tb))
            return S(dF(ta, tb))
        g._c = callee
        r = real_c(ca, i, j, p, q)
        g._c = real_c
        ENG.mark("return")
        ENG.require(eq(r, S(dF(i.t, j.t))), "post: the value of the recursion")
        u, v = index("u", n), index("v", m)
        e = ca.at(u, v)
        ENG.require(Or(real(e) == -1, real(e) == dF(u.t, v.t)), "post: every entry is unset or exact")
        ENG.require(real(ca.at(i, j)) == dF(i.t, j.t), "post: the entry is set")
        ENG.require(z3.Implies(K(u.t, v.t), real(e) == dF(u.t, v.t)), "post: entries that were set are kept")
    V.explore("geometry._c", c_body)

    # ---- frdist
    F = z3.Function("thin_factor", I, I)

    def frd():
        n, m = count("n", 1), count("m", 1)
        P, Q = array("P", (n, 2)), array("Q", (m, 2))
        swap = m.t > n.t
        LP, LQ = ENG.fresh_fn("thin_lp", I, I), ENG.fresh_fn("thin_lq", I, I)
        big, small = z3.If(swap, m.t, n.t), z3.If(swap, n.t, m.t)
        ENG.assume(z3.And(F(0) == 1, LP(0) == big, LQ(0) == small))
        fp, fq = Thin("p", F, LP), Thin("q", F, LQ)
        dF = ENG.fresh_fn("dF", I, I, R)
        state = {}

        def callee(ca, a, b, p, q):
            a, b = core.unwrap0(a), core.unwrap0(b)
            ta, tb = term(a), term(b)
            src_p, src_q = (Q, P) if ENG.decide(swap) else (P, Q)
            k = state.get("k", 0)
            ENG.require(And(veq(p, fp.arr(k, src_p)), veq(q, fq.arr(k, src_q))), "pre of _c: the thinned curves")
            ENG.require(z3.And(ca.shape[0] == p.shape[0] if isinstance(ca.shape[0], int) else term(ca.shape[0]) == term(p.shape[0]),
                               term(ca.shape[1]) == term(q.shape[0])), "pre of _c: one entry per pair of points")
            ENG.require(z3.And(ta >= 0, tb >= 0, ta < term(p.shape[0]), tb < term(q.shape[0])), "pre of _c: inside the table")
            ENG.require(A.forallN(ca.shape, lambda x, y: Or(real(ca.at(x, y)) == -1, real(ca.at(x, y)) == dF(term(x), term(y)))),
                        "pre of _c: entries are unset or exact")
            K2 = ENG.fresh_fn("h_known", I, I, B)
            was = ca._get
            ca._get = table(None, K2, dF)
            ca._memo = {}
            ca._ver += 1
            A.ENG_mutated(ca)
            ENG.assume(K2(ta, tb))
            if state.get("kept"):
                x, y = z3.Int("x!"), z3.Int("y!")
                ENG.assume(z3.ForAll([x, y], Or(real(was((S(x), S(y)))) == -1, K2(x, y)), patterns=[K2(x, y)]))
            return S(dF(ta, tb))

        def thinning(st):
            k = term(st.k)
            state["k"] = st.k
            lp, lq = LP(k), LQ(k)
            # unfolding of the recursive definitions, at this round and the one before
            for kk in (k, k - 1):
                ENG.assume(z3.Implies(kk >= 0, z3.And(F(kk + 1) == F(kk) * (kk + 2), LP(kk + 1) == -((-LP(kk)) / (kk + 2)), LQ(kk + 1) == -((-LQ(kk)) / (kk + 2)))))
            def carried(name, value):
                return [] if name not in st.loop.names else [({"c": "counter", "len_p": "first length", "len_q": "second length"}[name], term(st.var(name)) == value)]
            return carried("c", k + 2) + carried("len_p", lp) + carried("len_q", lq) + [
                    ("some point remains", z3.And(lp >= 1, lq >= 1, k >= 0)),
                    ("thinned only while both are longer than 300", z3.Implies(k > 0, z3.And(LP(k - 1) > 300, LQ(k - 1) > 300))),
                    ("curves of at most 300 points are kept", z3.Implies(k > 0, z3.And(n.t > 300, m.t > 300)))]

        def entries(st):
            ca = st.var("ca")
            return ("table", A.forallN(ca.shape, lambda x, y: Or(real(ca.at(x, y)) == -1, real(ca.at(x, y)) == dF(term(x), term(y)))))

        def filled(st, upto):
            """the code reads the result from the table: the pairs it has been through are set"""
            ca = st.var("ca")
            state["kept"] = True
            return ("filled", A.forallN(ca.shape, lambda x, y: Or(Not(upto(term(x), term(y))), real(ca.at(x, y)) == dF(term(x), term(y)))))

        def rows(st):
            k = term(st.k)
            out = [entries(st)]
            if "dist" not in st.loop.names:
                return out + [filled(st, lambda x, y: x < k)]
            if not (isinstance(st.k, int) and st.k == 0):
                lq = term(st.var("q").shape[0])
                out.append(("last value of the row", z3.Implies(k > 0, real(st.var("dist")) == dF(k - 1, lq - 1))))
            return out

        def cols(st):
            k, i = term(st.k), term(st.entry("i"))
            out = [entries(st)]
            if "dist" not in st.loop.names:
                return out + [filled(st, lambda x, y: z3.Or(x < i, z3.And(x == i, y < k)))]
            if not (isinstance(st.k, int) and st.k == 0):
                out.append(("last value", z3.Implies(k > 0, real(st.var("dist")) == dF(i, k - 1))))
            return out
        ENG.loop_specs["trackeddy.geometry:frdist#0"] = NS(inv=thinning, form={"p": fp, "q": fq})
        ENG.loop_specs["trackeddy.geometry:frdist#1"] = NS(inv=rows, types={"dist": "f"})
        ENG.loop_specs["trackeddy.geometry:frdist#2"] = NS(inv=cols, types={"dist": "f"})
        g._c = callee
        ENG.mark("entry")
        before = P._ver, Q._ver
        r = val(g.frdist(P, Q))
        ENG.require(z3.BoolVal((P._ver, Q._ver) == before), "frame: the curves are not modified")
        g._c = real_c
        ENG.mark("return")
        k = term(state.get("k", 0))
        ENG.require(z3.Or(LP(k) <= 300, LQ(k) <= 300), "post: one of the curves has at most 300 points")
        ENG.require(z3.Implies(z3.Or(n.t <= 300, m.t <= 300), k == 0), "post: not thinned unless both have more than 300 points", assume=False)
        ENG.require(z3.And(okof(r), real(r) == dF(LP(k) - 1, LQ(k) - 1)), "post: the discrete Frechet distance of the thinned curves")
    V.explore("geometry.frdist", frd)

    # ---- meaning of the recursion
    def meaning():
        dF = ENG.fresh_fn("dF", I, I, R)
        d = ENG.fresh_fn("d", I, I, R)
        i, j = index("i", count("n", 1)), index("j", count("m", 1))
        i, j = i.t, j.t
        ENG.assume(unfold(dF, d(i, j), i, j))
        # lower bound: one step of any coupling
        a, b = ENG.fresh("a", I), ENG.fresh("b", I)
        M = ENG.fresh("M", R)
        step = z3.Or(z3.And(a == i - 1, b == j), z3.And(a == i, b == j - 1), z3.And(a == i - 1, b == j - 1))
        ENG.require(z3.Implies(z3.And(a >= 0, b >= 0, step, M >= dF(a, b)), mx(M, d(i, j)) >= dF(i, j)),
                    "lemma: no coupling has a smaller largest distance (inductive step)", assume=False)
        ENG.require(z3.Implies(z3.And(i == 0, j == 0), d(i, j) >= dF(i, j)), "lemma: no coupling has a smaller largest distance (first pair)", assume=False)
        # attained
        reach = ENG.fresh_fn("coupling", I, I, R, B)
        for (x, y) in ((i - 1, j), (i, j - 1), (i - 1, j - 1)):
            m = dF(x, y)
            ENG.assume(z3.Implies(z3.And(x >= 0, y >= 0), reach(x, y, m)))                                         # induction hypothesis
            ENG.assume(z3.Implies(z3.And(x >= 0, y >= 0, reach(x, y, m)), reach(i, j, mx(m, d(i, j)))))             # definition of a coupling
        ENG.assume(z3.Implies(z3.And(i == 0, j == 0), reach(i, j, d(i, j))))
        ENG.require(reach(i, j, dF(i, j)), "lemma: some coupling attains it (inductive step)", assume=False)

    def symmetric():
        f, h = ENG.fresh_fn("dF", I, I, R), ENG.fresh_fn("dG", I, I, R)
        d = ENG.fresh_fn("d", I, I, R)
        i, j = index("i", count("n", 1)).t, index("j", count("m", 1)).t
        ENG.assume(unfold(f, d(i, j), i, j))
        ENG.assume(unfold(h, d(i, j), j, i))
        for (x, y) in ((i - 1, j), (i, j - 1), (i - 1, j - 1)):
            ENG.assume(z3.Implies(z3.And(x >= 0, y >= 0), f(x, y) == h(y, x)))
        ENG.require(f(i, j) == h(j, i), "lemma: exchanging the curves (inductive step)")
        n, m = count("n", 1), count("m", 1)
        p, q = array("p", (n, 2)), array("q", (m, 2))
        a, b = index("a", n), index("b", m)
        ENG.require(real(dist_at(p, q, a, b)) == real(dist_at(q, p, b, a)), "lemma: distances are symmetric")

    def identical():
        n = count("n", 1)
        p = array("p", (n, 2))
        i = index("i", n)
        d = dist_at(p, p, i, i)
        ENG.require(real(d) == 0, "lemma: distance to itself")
        f = ENG.fresh_fn("dF", I, I, R)
        ENG.assume(unfold(f, real(d), i.t, i.t))
        ENG.assume(z3.Implies(i.t > 0, f(i.t - 1, i.t - 1) == 0))
        ENG.require(f(i.t, i.t) == 0, "lemma: identical curves are at distance 0 (inductive step)")
    V.explore("geometry.frdist (couplings)", meaning)
    V.explore("geometry.frdist (symmetry)", symmetric)
    V.explore("geometry.frdist (identical curves)", identical)

    # ---- arc_length
    def arc():
        n = count("n", 1)
        P = array("P", (n, 2))
        ENG.mark("entry")
        r = val(g.arc_length(P))
        spec = A.bigsum(lambda k: dist_at(P, P, k, k + 1), 0, n - 1)
        ENG.require(z3.And(okof(r), real(r) == real(spec)), "post: the sum of the distances between consecutive points")
        ENG.mark("return")
    V.explore("geometry.arc_length", arc)

    # ---- compute_similarity
    def sim(same):
        def body():
            n, m = count("n", 1), count("m", 1)
            P = array("P", (n, 2))
            Q = P if same else array("Q", (m, 2))
            l1, fd = num("len1"), num("frechet", lo=0)
            l2 = l1 if same else num("len2")
            ENG.assume(z3.And(l1.t > 0, l2.t > 0))
            if same:
                ENG.assume(fd.t == 0)
            lens = {id(P): l1, id(Q): l2}

            def arclen(c):
                if id(c) not in lens:
                    raise Unsupported("arc_length of something that is not one of the curves")
                return lens[id(c)]

            def frdist(a, b):
                if not ((a is P and b is Q) or (a is Q and b is P)):
                    raise Unsupported("frdist of something else than the two curves")
                return fd
            old = g.arc_length, g.frdist
            g.arc_length, g.frdist = arclen, frdist
            try:
                ENG.mark("entry")
                r = val(g.compute_similarity(P, Q))
            finally:
                g.arc_length, g.frdist = old
            raw = 1 - fd * core.sqrt(S(z3.RealVal(2))) / core.sqrt(l1 * l2)
            x = core.smax(raw, 0)
            rd = lambda t: real(core.rounding(S(t), 4))
            s2 = core.F_sqrt(z3.RealVal(2))
            ENG.assume(z3.And(rd(z3.RealVal(0)) == 0, rd(z3.RealVal(1)) == 1))
            xt = real(x)
            ENG.require(core.F_sqrt(l1.t * l2.t) > 0, "lemma: the mean length is positive")
            ENG.require(real(r) == rd(xt), "post: max(1 - sqrt(2) frdist / mean length, 0) to four decimals")
            ENG.require(okof(r), "post: defined")
            lemma("not more than 1", [R, R, R], lambda a, b, c: z3.Implies(z3.And(a >= 0, b > 0, c > 0), 1 - a * b / c <= 1), (fd, S(s2), core.sqrt(l1 * l2)))
            ENG.require(z3.And(xt >= 0, xt <= 1), "lemma: between 0 and 1 before rounding")
            ENG.assume(z3.Implies(xt >= 0, rd(xt) >= rd(z3.RealVal(0))))
            ENG.assume(z3.Implies(xt <= 1, rd(xt) <= rd(z3.RealVal(1))))
            ENG.require(z3.And(real(r) >= 0, real(r) <= 1), "post: between 0 and 1")
            if same:
                ENG.require(xt == 1, "lemma: identical curves before rounding")
                ENG.require(real(r) == 1, "post: 1 for identical curves")
            ENG.mark("return")
        return body
    V.explore("geometry.compute_similarity", sim(False))
    V.explore("geometry.compute_similarity (identical curves)", sim(True))
