"""What the contracts of trackeddy/src/cntr.c talk about: the edges of the grid, the step across a cell, the ghost sets."""
import os
import z3
from engine import core, cfront as F
from engine.core import ENG, S, SB, Unsupported, term, And, Or, Not, TRUE, FALSE, I, R
from engine.cfront import Edge, mk, know, P2, IMAX, Bits, Ptr, Grid, Line, Obj, NULL, Spec, SMT

B = z3.BoolSort()
X, Y = z3.Int("imax"), z3.Int("jmax")
above = z3.Function("above", I, I, B)           # the value of the node is above the level
G = z3.Function("centre_above", I, I, B)        # what the saddle array says of the centre of a cell, when it is decided
FWF = z3.Function("forward", Edge, Edge)        # next crossed edge, the higher side on the left
BKF = z3.Function("backward", Edge, Edge)
SET = z3.ArraySort(Edge, B)
card = z3.Function("card", SET, I)
NO = z3.K(Edge, FALSE)


def q_(e):
    return Edge.q(e)


def i_(e):
    return Edge.i(e)


def j_(e):
    return Edge.j(e)


def parts(e):
    """(q, i, j), simplified when the edge is built from them"""
    return z3.simplify(q_(e)), z3.simplify(i_(e)), z3.simplify(j_(e))


def on(e, f):
    q, i, j = parts(e)
    return f(q, i, j)


def ite(c, a, b):
    c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def valid(e):
    return on(e, lambda q, i, j: And(i < X, j < Y, ite(q, And(i >= 1, j >= 0), And(i >= 0, j >= 1))))


def cut(e):
    return on(e, lambda q, i, j: above(i, j) != ite(q, above(i - 1, j), above(i, j - 1)))


def bnd(e):
    return on(e, lambda q, i, j: ite(q, Or(j == 0, j == Y - 1), Or(i == 0, i == X - 1)))


def ori(e):
    """the contour crosses towards side 1 (right, above) when it keeps the higher node on its left"""
    return on(e, lambda q, i, j: ite(q, above(i - 1, j), above(i, j)))


def zone(e, s):
    """the cell on side s, by its upper right node"""
    d = ite(s, z3.IntVal(1), z3.IntVal(0))
    return on(e, lambda q, i, j: (ite(q, i, i + d), ite(q, j + d, j)))


def cell(i, j):
    return And(1 <= i, i < X, 1 <= j, j < Y)


def zex(e, s):
    return cell(*zone(e, s))


def zexf(e):
    return zex(e, ori(e))


def zexb(e):
    return zex(e, Not(ori(e)))


def step(e, s):
    """(edge, side) after crossing the cell on side s"""
    q = parts(e)[0]
    zi, zj = zone(e, s)
    zi, zj = z3.simplify(zi), z3.simplify(zj)
    w, e_, so, n = mk(False, zi - 1, zj), mk(False, zi, zj), mk(True, zi, zj - 1), mk(True, zi, zj)
    s = s if z3.is_expr(s) else z3.BoolVal(s)
    at = {"w": And(Not(q), s), "e": And(Not(q), Not(s)), "s": And(q, s), "n": And(q, Not(s))}
    ed = {"w": w, "e": e_, "s": so, "n": n}
    four = And(*[cut(x) for x in ed.values()])
    p = above(zi, zj) == G(zi, zj)
    pair1 = {"w": "n", "n": "w", "s": "e", "e": "s"}
    pair2 = {"n": "e", "e": "n", "s": "w", "w": "s"}
    out_e, out_s = w, FALSE
    sides = {"w": FALSE, "e": TRUE, "s": FALSE, "n": TRUE}
    for k in ("n", "e", "s", "w"):
        r_e, r_s = None, None
        others = [o for o in "wesn" if o != k]
        a, b, c = others
        two_e = z3.If(cut(ed[a]), ed[a], z3.If(cut(ed[b]), ed[b], ed[c]))
        two_s = z3.If(cut(ed[a]), sides[a], z3.If(cut(ed[b]), sides[b], sides[c]))
        r_e = z3.If(four, z3.If(p, ed[pair1[k]], ed[pair2[k]]), two_e)
        r_s = z3.If(four, z3.If(p, sides[pair1[k]], sides[pair2[k]]), two_s)
        out_e, out_s = z3.If(at[k], r_e, out_e), z3.If(at[k], r_s, out_s)
    return z3.simplify(out_e), z3.simplify(out_s)


def size():
    return And(X >= 2, Y >= 2)


def ahead(e, q, i, j, first=False):
    """e comes after the position (i, j) in the order of the scan; q: after its J-edge (True), after its I-edge, or (first) before both"""
    qe, ie, je = parts(e)
    same = And(je == j, ie == i)
    return Or(je > j, And(je == j, ie > i), And(same, TRUE if first else And(qe, Not(q) if z3.is_expr(q) else z3.BoolVal(not q))))


# ------------------------------------------------------------------ the step as a function of edges
# names for the formulas above, unfolded where they are needed
crossed, BN, ORI, Z0, Z1 = (z3.Function(n, Edge, B) for n in ("crossed", "boundary", "orientation", "cell_0", "cell_1"))


def unfold(e):
    for a, b in ((crossed(e), And(valid(e), cut(e))), (BN(e), bnd(e)), (ORI(e), ori(e)), (Z0(e), zex(e, FALSE)), (Z1(e), zex(e, TRUE))):
        know(a == b)


def ZF(e, c=TRUE):
    """there is a cell to cross: along the orientation (c), against it"""
    return z3.If(ORI(e) == c, Z1(e), Z0(e))


def ZB(e, c=TRUE):
    return z3.If(ORI(e) == c, Z0(e), Z1(e))


class Way:
    """one direction of the contours: c: with the higher side on the left"""

    def __init__(k, NX, PV, c):
        k.NX, k.PV, k.c = NX, PV, c if z3.is_expr(c) else z3.BoolVal(c)

    def zf(k, e):
        return ZF(e, k.c)

    def zb(k, e):
        return ZB(e, k.c)

    def lemma_nx(k, e):
        f = k.NX(e)
        return z3.Implies(And(crossed(e), k.zf(e)), And(crossed(f), f != e, k.zb(f), k.PV(f) == e))

    def lemma_pv(k, e):
        f = k.PV(e)
        return z3.Implies(And(crossed(e), k.zb(e)), And(crossed(f), f != e, k.zf(f), k.NX(f) == e))

    def know(k):
        know(all_e(k.lemma_nx, lambda e: k.NX(e)))
        know(all_e(k.lemma_pv, lambda e: k.PV(e)))
        know(all_e(lambda e: z3.Implies(crossed(e), And(Or(Z0(e), Z1(e)), BN(e) == Not(And(Z0(e), Z1(e))))), lambda e: crossed(e)))

    def at(k, e):
        know(k.lemma_nx(e))
        know(k.lemma_pv(e))


FORWARD = Way(FWF, BKF, TRUE)
BACKWARD = Way(BKF, FWF, FALSE)


def all_e(f, *pats):
    e = z3.Const("e", Edge)
    body = f(e)
    return z3.ForAll([e], body, patterns=[p(e) for p in pats])


def step_lemmas():
    """obligations: the step across a cell is its own inverse, keeps the orientation, and leads to crossed edges of the grid"""
    ENG.assume(size())
    e = mk(z3.Bool("q"), z3.Int("i"), z3.Int("j"))
    s = z3.Bool("s")
    ENG.assume(And(valid(e), cut(e), zex(e, s)))
    f, t = step(e, s)
    g, u = step(f, Not(t))
    for k, (nm, c) in enumerate((("the step leads to an edge of the grid", valid(f)), ("the step leads to a crossed edge", cut(f)), ("the step leads to another edge", f != e),
                  ("stepping back returns to the edge", g == e), ("stepping back leaves by the side of the entry", u == Not(s)),
                  ("the step keeps the orientation", (s == ori(e)) == (t == ori(f))), ("the cell of the step is the one behind", zex(f, Not(t))),
                  ("beyond a boundary edge there is no cell", bnd(f) == Not(zex(f, t))), ("both edges belong to the cell", And(*[a == b for a, b in zip(zone(e, s), zone(f, Not(t)))])))):
        ENG.require(c, nm, tac=SMT, assume=False)
    e = mk(z3.Bool("q2"), z3.Int("i2"), z3.Int("j2"))
    ENG.require(z3.Implies(valid(e), And(Or(zex(e, TRUE), zex(e, FALSE)), bnd(e) == Not(And(zex(e, TRUE), zex(e, FALSE))))),
                "an edge has a cell on both sides, or on one and is on the boundary", tac=SMT, assume=False)


# ------------------------------------------------------------------ finite sets of edges
def card_add(A, e):
    """card(A + e)"""
    know(z3.Implies(Not(A[e]), card(z3.Store(A, e, TRUE)) == card(A) + 1))
    know(card(A) >= 0)
    return z3.Store(A, e, TRUE)


def card_del(A, e):
    know(z3.Implies(A[e], card(z3.Store(A, e, FALSE)) == card(A) - 1))
    know(card(A) >= 0)
    return z3.Store(A, e, FALSE)


def card_sub(A, Bs):
    """A is a subset of Bs -> card(A) <= card(Bs)"""
    e = z3.FreshConst(Edge, "w")
    know(z3.Implies(z3.Implies(A[e], Bs[e]), card(A) <= card(Bs)))     # e: an element of A that is not in Bs, if there is one


def card_eq(A, Bs):
    e = z3.FreshConst(Edge, "w")
    know(z3.Implies(A[e] == Bs[e], card(A) == card(Bs)))
    return e


def named(A, name, val, old, e1):
    """a name for the set A: old, with e1 in it (val) or not"""
    C_ = ENG.fresh(name, SET)
    know(all_e(lambda e: C_[e] == (Or(old[e], e == e1) if val else And(old[e], e != e1)), lambda e: C_[e], lambda e: old[e]))
    know(card(C_) == card(A))
    return C_


def with_(A, e):
    return named(card_add(A, e), "with", True, A, e)


def without(A, e):
    return named(card_del(A, e), "without", False, A, e)


ALL = z3.Const("all_crossed_edges", SET)


def finite(*sets):
    """the crossed edges are a finite set: ALL; sets: parts of it, when their elements are crossed edges"""
    know(all_e(lambda e: ALL[e] == crossed(e), lambda e: ALL[e]))
    for A in sets:
        card_sub(A, ALL)


def decreases(before, after, what):
    """the measure of a loop: natural numbers, compared from the first on"""
    less, same = FALSE, TRUE
    for a, b in zip(before, after):
        less = Or(less, And(same, b < a))
        same = And(same, a == b)
    ENG.require(And(less, *[a >= 0 for a in before]), what + ": the loop ends", tac=SMT, assume=False)


def some(A):
    """an element of A when card(A) > 0"""
    e = z3.FreshConst(Edge, "some")
    know(z3.Implies(card(A) > 0, A[e]))
    return e


# ------------------------------------------------------------------ doubles of which nothing is known
class Dbl(F.Opaque):
    """a double: NaN, infinite or any number; tag: what it is, if it matters"""

    def __init__(s, tag=None):
        s.tag = tag

    def arith(s, op, o):
        return Dbl()

    def compare(s, op, o):
        x, y = s, o
        if op == "<":
            op, x, y = ">", y, x
        if op == ">" and x is y:
            return FALSE
        if op == ">" and isinstance(x, Dbl) and isinstance(y, Dbl) and x.tag and y.tag and x.tag[0] == "z" and y.tag[0] == "level":
            return above(x.tag[1], x.tag[2])
        return ENG.fresh("comparison", B)


# ------------------------------------------------------------------ statements: supposed or to be shown
class All:
    """for every edge e: f(e); a pattern is a term or a list of terms"""

    def __init__(s, name, f, *pats, places=False):
        s.name, s.f, s.pats, s.places = name, f, pats, places

    def know(s):
        know(all_e(s.f, *s.pats))

    def show(s, tac=SMT):
        e = z3.FreshConst(Edge, "any")
        if s.places:
            unfold(e)
            know(e == mk(q_(e), i_(e), j_(e)))
        ENG.require(s.f(e), s.name, tac=tac, assume=False)


class One:
    def __init__(s, name, c, quant=False):
        s.name, s.c, s.quant = name, c, quant

    def know(s):
        if s.quant:
            know(s.c)
        else:
            ENG.assume(s.c)

    def show(s, tac=SMT):
        ENG.require(s.c, s.name, tac=tac, assume=False)


class Each(All):
    """for every integer m: f(m); patterns as for All"""

    def know(s):
        m = z3.Const("m", I)
        know(z3.ForAll([m], s.f(m), patterns=[p(m) for p in s.pats]))

    def show(s, tac=SMT):
        m = z3.FreshConst(I, "m")
        ENG.require(s.f(m), s.name, tac=tac, assume=False)


def suppose(l):
    for x in l:
        x.know()


def show(l):
    for x in l:
        x.show()


def Imp(a, b):
    return z3.Implies(a, b)


# ------------------------------------------------------------------ the points of the curves
EVT = z3.ArraySort(I, Edge)
PX, PY = z3.Function("x_on", Edge, R), z3.Function("y_on", Edge, R)         # where the level crosses an edge
joined = z3.Function("share_a_cell", Edge, Edge, B)


def curve_facts(x, y, ev, start, n):
    """the points start, ..., start + n - 1 are those of a curve"""
    end = start + n - 1
    inside = lambda m: And(start <= m, m <= end)
    return [Each("points are on crossed edges", lambda m: Imp(inside(m), And(crossed(ev[m]), x[m] == PX(ev[m]), y[m] == PY(ev[m]))), lambda m: ev[m], lambda m: x[m], lambda m: y[m]),
            Each("points that follow each other are on edges of one cell", lambda m: Imp(And(inside(m), m > start), joined(ev[m - 1], ev[m])), lambda m: ev[m]),
            One("the curve is closed or has its ends on the boundary", Or(ev[start] == ev[end], And(BN(ev[start]), BN(ev[end]))))]


def kept_facts(new, old, upto, what="points"):
    return [Each("%s drawn before stay as they are" % what, lambda m: Imp(m < upto, new[m] == old[m]), lambda m: new[m])]


INTOF, CLOSING = z3.ArraySort(Edge, I), z3.ArraySort(I, B)


def once_facts(W, ev, idx, cl, upto):
    """each edge of W has one point; the other points close a curve"""
    return [All("every edge drawn has its point", lambda e: Imp(W[e], And(0 <= idx[e], idx[e] < upto, ev[idx[e]] == e)), lambda e: W[e], lambda e: idx[e]),
            Each("every point is the only one of its edge, or closes a curve", lambda m: Imp(And(0 <= m, m < upto), And(W[ev[m]], Or(idx[ev[m]] == m, cl[m]))), lambda m: ev[m])]


def closing_facts(ev, cl, start, n):
    return [Each("only the last point of a closed curve closes it", lambda m: Imp(And(start <= m, m < start + n, cl[m]), And(m == start + n - 1, ev[start] == ev[m], m > start)), lambda m: cl[m])]


def zeros(arr, a, b, name="the kind of the points"):
    return [Each(name, lambda m: Imp(And(a <= m, m < b), arr[m] == 0), lambda m: arr[m])]


# ------------------------------------------------------------------ the site
FLAGS = ("S0", "S1", "ROW", "SU", "SD", "O", "DONE", "SDV")


def data_kind():
    return [(lambda i, j: above(i, j), False), (None, False), (lambda i, j: cell(i, j), False),
            (lambda i, j: Or(i == 0, i == X - 1), False), (lambda i, j: Or(j == 0, j == Y - 1), False),
            ("S0", False), ("S1", False), ("S0", True), ("S1", True), ("ROW", False), ("SU", False), ("SD", False), ("O", False), ("DONE", False), ("SDV", False)]


ORDER = {"zone_crosser": "site level pass2 data edge left n fwd p0 p1 jedge edge0 left0 level0 two_levels saddle x y z zlevel xcp ycp kcp z0 z1 z2 z3 done n_kind".split()}


class World:
    """a site while it is traced; real: doubles are real numbers, otherwise they may be anything"""

    def __init__(w, path, real=False, points=False):
        w.real = real
        points = real or points
        w.c = F.C(path)
        ENG.assume(size())
        w.data = Grid("data", P2(0, S(Y)), data_kind())
        w.data.arr = {k: ENG.fresh("data_" + k, SET) for k in FLAGS}
        w.saddle = Grid("saddle", P2(0, S(Y)), [("SET", False), ("GT0", False), ("GT1", False)])
        w.saddle.arr = {k: ENG.fresh("saddle_" + k, SET) for k in ("SET", "GT0", "GT1")}
        w.saddle.hook = lambda i, j: ENG.assume(Imp(w.saddle.arr["SET"][mk(False, i, j)], w.saddle.arr["GT0"][mk(False, i, j)] == G(i, j)))
        w.sad = {}
        w.saddle.on_store = w.saddle_store
        if real:
            w.lev = S(z3.Real("level"))
            zf, xf, yf = (z3.Function(n, I, I, R) for n in ("z", "x", "y"))

            def field(fn, is_z):
                def rd(i, j):
                    if is_z:
                        ENG.assume(above(i, j) == (fn(i, j) > w.lev.t))
                    return S(fn(i, j))
                return rd
            w.zf, w.xf, w.yf = zf, xf, yf
            kinds = [field(zf, True), field(xf, False), field(yf, False)]
        else:
            w.lev = Dbl(("level",))
            kinds = [lambda i, j: Dbl(("z", i, j)), lambda i, j: Dbl(), lambda i, j: Dbl()]
        w.grids = [Grid(n, P2(0, S(Y)), k) for n, k in zip("zxy", kinds)]
        lev = Line("zlevel", 2, R)
        lev.cells = {0: w.lev, 1: w.lev}
        w.ntotal = S(z3.Int("ntotal"))
        w.bufs = [Line(n, w.ntotal, (R if points else None) if n != "kcp" else I) for n in ("xcp", "ycp", "kcp")]
        w.site = Obj("site", imax=IMAX, jmax=S(Y), zlevel=Ptr(lev), saddle=Ptr(w.saddle), reg=NULL, data=Ptr(w.data),
                     z=Ptr(w.grids[0]), x=Ptr(w.grids[1]), y=Ptr(w.grids[2]), xcp=NULL, ycp=NULL, kcp=NULL)
        w.c.blocks = [w.data, w.saddle, lev] + w.grids + w.bufs
        w.c.structs_alive = [w.site]

    def arr(w, k):
        return w.data.arr[k]

    def zlevel_cells(w):
        return {k: id(v) for k, v in w.site.f["zlevel"].blk.cells.items()}

    # the saddle array: what is decided stays decided; what it decides is called G
    def saddle_store(w, nm, e, old, new):
        w.sad[e.get_id()] = e

    def saddle_begin(w):
        w.sad = {}
        w.sad0 = dict(w.saddle.arr)

    def saddle_end(w):
        for e in w.sad.values():
            a, b = w.sad0, w.saddle.arr
            ENG.require(Imp(a["SET"][e], And(b["SET"][e], b["GT0"][e] == a["GT0"][e])), "what is decided of the centre of a cell stays decided", tac=SMT, assume=False)
            i, j = i_(e), j_(e)
            ENG.assume(Imp(And(b["SET"][e], Not(a["SET"][e])), b["GT0"][e] == G(z3.simplify(i), z3.simplify(j))))      # G: the decision
        w.sad = {}

    def saddle_havoc(w):
        for k in w.saddle.arr:
            w.saddle.arr[k] = ENG.fresh("saddle_" + k, SET)
        w.saddle.seen = set()


DIRS = [(False, True), (False, False), (True, True), (True, False)]        # (J-edge, side)


def left_of(q, s):
    d = 1 if s else -1
    return P2(0, d, True) if q else d


def fwd_of(q, s):
    """FORWARD(left): -imax, imax, 1, -1"""
    d = 1 if s else -1
    return d if q else P2(0, -d, True)


def site_of(edge, left):
    """(q, i, j, s) of the code's edge and left, forking where they are not determined"""
    l = F.asdir(left)
    if l is None:
        raise Unsupported("left is not a direction")
    a, b = l.a, l.b
    if not isinstance(a, int) or not isinstance(b, int):
        for q, s in DIRS:
            d = F.asdir(left_of(q, s))
            if ENG.decide(And(term(a) == d.a, term(b) == d.b)):
                break
    else:
        q, s = b != 0, (a + b) > 0
    i, j = F.canon(edge)
    return q, term(i), term(j), s


def start_marks(w, c):
    pass



class Walk(Way):
    """the ghost state of one call of zone_crosser: it walks along the contour from (q, i, j) into the cell on side s"""

    def __init__(k, w):
        super().__init__(z3.Function("next", Edge, Edge), z3.Function("previous", Edge, Edge), z3.Bool("oriented"))
        k.w = w
        k.q, k.i, k.j, k.s = z3.Bool("q0"), z3.Int("i0"), z3.Int("j0"), z3.Bool("s0")
        k.e0 = mk(k.q, k.i, k.j)
        k.interior = z3.Bool("interior")

    def left0(k):
        d = z3.If(k.s, z3.IntVal(1), z3.IntVal(-1))
        return P2(S(z3.If(k.q, z3.IntVal(0), d)), S(z3.If(k.q, d, z3.IntVal(0))), True)

    def straight(k, e, s):
        """the side s of e is the direction of the walk"""
        return (ori(e) == k.c) == (s if z3.is_expr(s) else z3.BoolVal(s))

    # ------------------------------------------------ the edges visited
    def path_inv(k, T, K, last, cur, n):
        """T: the edges visited before cur, in the order of K"""
        e0, NX, PV, zf, zb = k.e0, k.NX, k.PV, k.zf, k.zb
        return [One("the number of points is that of the edges visited", And(n == card(T), n >= 0, (n == 0) == Not(T[e0]))),
                One("the walk starts at the starting point", Imp(n == 0, cur == e0)),
                All("nothing is visited before the start", lambda e: Imp(n == 0, Not(T[e])), lambda e: T[e]),
                One("the walk goes on from the last edge visited", Imp(n > 0, And(T[last], zf(last), NX(last) == cur, K[last] == n - 1))),
                All("edges visited are crossed edges of the grid", lambda e: Imp(T[e], And(crossed(e), K[e] >= 0, K[e] < n)), lambda e: T[e]),
                All("there is a cell before an edge visited", lambda f: Imp(And(T[f], f != e0), zb(f)), lambda f: T[f]),
                All("edges visited follow each other", lambda f: Imp(And(T[f], f != e0), And(T[PV(f)], PV(f) != last, K[PV(f)] < K[f])), lambda f: PV(f)),
                All("there is a cell after an edge visited", lambda f: Imp(And(T[f], f != last), zf(f)), lambda f: T[f]),
                All("the contour is followed without a gap", lambda f: Imp(And(T[f], f != last), And(T[NX(f)], NX(f) != e0)), lambda f: NX(f))]


class Cross(Spec):
    """the loop of zone_crosser"""

    def __init__(s, k, entry):
        s.k, s.entry = k, entry

    def ids(s, L):
        o = ORDER["zone_crosser"]
        s.v = {n: L.var(n, o) for n in ("edge", "left", "fwd", "jedge", "n", "done")}

    def vars_ok(s, L, q, i, j, side, n, when):
        g = lambda x: L.get(s.v[x])
        e = F.canon(g("edge"))
        ENG.require(And(term(e[0]) == i, term(e[1]) == j), when + ": the edge", tac=SMT, assume=False)
        for nm, d in (("left", left_of(q, side)), ("fwd", fwd_of(q, side))):
            ENG.require(F.compare("==", g(nm), d), when + ": " + nm, tac=SMT, assume=False)
        ENG.require(F.compare("==", g("jedge"), int(q)), when + ": jedge", tac=SMT, assume=False)
        ENG.require(F.compare("==", g("n"), S(n) if z3.is_expr(n) else n), when + ": n", tac=SMT, assume=False)

    def enter(s, L):
        k = s.k
        s.ids(L)
        if not s.entry:
            return
        q, side = DIRS[ENG.choose(4)]
        ENG.assume(And(k.q == q, k.s == side))
        s.vars_ok(L, q, k.i, k.j, side, z3.IntVal(0), "entry")
        ENG.require(F.compare("==", L.get(s.v["done"]), 0), "entry: not done", tac=SMT, assume=False)
        k.enter(L)
        raise core.PathEnd()

    def havoc(s, L):
        k, w = s.k, s.k.w
        q, side = DIRS[ENG.choose(4)]
        done = (0, 4)[ENG.choose(2)]
        i, j, n = ENG.fresh("i", I), ENG.fresh("j", I), ENG.fresh("n", I)
        cur = mk(q, i, j)
        L.env[s.v["edge"]] = P2(S(i), S(j))
        L.env[s.v["left"]] = left_of(q, side)
        L.env[s.v["fwd"]] = fwd_of(q, side)
        L.env[s.v["jedge"]] = int(q)
        L.env[s.v["n"]] = S(n)
        L.env[s.v["done"]] = done
        s.q, s.i, s.j, s.side, s.done, s.n, s.cur = q, i, j, side, done, n, cur
        s.T, s.K, s.last = ENG.fresh("T", SET), ENG.fresh("K", z3.ArraySort(Edge, I)), ENG.fresh("last", Edge)
        w.saddle_havoc()
        L.frame |= {("saddle", "SET"), ("saddle", "GT0"), ("saddle", "GT1")}
        suppose([One("", And(valid(cur), cut(cur), zex(cur, z3.BoolVal(side))))])
        if done:
            suppose([One("", And(bnd(cur), n > 0)), One("", k.straight(cur, not side))])
        else:
            suppose([One("", k.straight(cur, side)), One("", Imp(n > 0, Not(bnd(cur))))])
        suppose(k.path_inv(s.T, s.K, s.last, cur, n))
        k.know()
        unfold(cur), k.at(cur)
        k.havoc(L, s)

    def begin(s, L):
        s.k.w.saddle_begin()
        s.k.begin(L, s)

    def end(s, L):
        k, w = s.k, s.k.w
        w.saddle_end()
        g = lambda x: L.get(s.v[x])
        done = F.num(g("done"))
        if not isinstance(done, int):
            done = 4 if ENG.decide(F.compare("!=", g("done"), 0)) else 0
            ENG.require(F.compare("==", g("done"), done), "going on: not done, or at the boundary", tac=SMT, assume=False)
        q, i, j, side = site_of(g("edge"), g("left"))
        new = mk(q, i, j)
        f, t = step(s.cur, z3.BoolVal(s.side))
        ENG.require(And(new == f, z3.BoolVal(bool(side) != bool(done)) == t), "the next edge is the one the contour leaves the cell by", tac=SMT, assume=False)
        ENG.require(z3.BoolVal(done in (0, 4)), "going on: not done, or at the boundary", tac=SMT, assume=False)
        ENG.require(bnd(new) == z3.BoolVal(bool(done)), "the contour ends when it reaches the boundary", tac=SMT, assume=False)
        ENG.require(And(valid(new), cut(new), zex(new, z3.BoolVal(side))), "there is a cell to cross", tac=SMT, assume=False)
        ENG.require(k.straight(new, side != bool(done)), "the walk keeps its direction", tac=SMT, assume=False)
        s.vars_ok(L, q, i, j, side, s.n + 1, "next")
        # the step is that of the walk
        know(k.NX(s.cur) == f)
        know(k.NX(s.cur) == new)
        unfold(new), k.at(new)
        T1, K1 = card_add(s.T, s.cur), z3.Store(s.K, s.cur, s.n)
        show(k.path_inv(T1, K1, s.cur, new, s.n + 1))
        finite(s.T)
        decreases([card(ALL) - s.n], [card(ALL) - (s.n + 1)], "zone_crosser")
        s.side_new = side
        k.end(L, s, T1, new, done)
        ENG.mark("a cell is crossed")

    def leave(s, L):
        k = s.k
        g = lambda x: L.get(s.v[x])
        if s.done:
            kind = "boundary"
        elif ENG.decide(F.compare("==", g("done"), 3)):
            kind = "closed"
        else:
            kind = "open"
        if kind == "boundary":
            T, K = card_add(s.T, s.cur), z3.Store(s.K, s.cur, s.n)
        else:
            T, K = s.T, s.K
        k.out = dict(kind=kind, T=T, K=K, cur=s.cur, head=s, n=s.n + (0 if kind == "open" else 1))
        ENG.mark("the walk ends: " + kind)


class Walk1(Walk):
    """pass 1"""

    def __init__(k, w):
        super().__init__(w)
        k.V, k.U = z3.Const("V", SET), z3.Const("U", SET)
        a = w.data.arr
        k.S0, k.S1, k.O = a["S0"], a["S1"], a["O"]
        k.count = z3.Int("count")

    def pre(k):
        return [One("the starting edge is crossed", And(valid(k.e0), cut(k.e0))),
                One("the starting edge was not visited", Not(k.V[k.e0])),
                One("there is a cell to cross", zex(k.e0, k.s)),
                One("direction", k.straight(k.e0, k.s)),
                One("a start inside the grid or on its boundary", bnd(k.e0) == Not(k.interior)),
                One("inside the grid the higher side is on the left", Imp(k.interior, And(k.c, Not(k.q)))),
                ] + visited_inv(k, k.V, k.O) + marks_inv(k.S0, k.S1) + [
                All("unvisited start marks", lambda e: k.U[e] == And(Or(k.S0[e], k.S1[e]), Not(k.V[e]), e != k.e0), lambda e: k.U[e], lambda e: k.S0[e], lambda e: k.S1[e]),
                One("count", k.count == card(k.U))]

    def marks(k, T, cur, done, S0, S1):
        gone = lambda e: Or(And(T[e], e != k.e0), And(done, e == cur))
        return [All("start marks are removed along the walk, and only there (%s)" % nm, lambda e, A=A, A0=A0: A[e] == And(A0[e], Not(gone(e))), lambda e, A=A: A[e], lambda e, A0=A0: A0[e])
                for nm, A, A0 in (("side 0", S0, k.S0), ("side 1", S1, k.S1))]

    def fresh(k, T, done, cur, U, count):
        return [All("visited for the first time", lambda e: Imp(T[e], Not(k.V[e])), lambda e: T[e]),
                All("unvisited start marks left", lambda e: U[e] == And(k.U[e], Not(T[e]), Not(And(done, e == cur))), lambda e: U[e], lambda e: k.U[e]),
                One("count of the start marks left", count == card(U))]

    def enter(k, L):
        w = k.w
        show(k.marks(NO, k.e0, FALSE, w.arr("S0"), w.arr("S1")))
        ENG.require(F.compare("==", w.site.get("count"), S(k.count)), "entry: count", tac=SMT, assume=False)

    def havoc(k, L, s):
        w = k.w
        L.frame |= {("data", "S0"), ("data", "S1"), ("site", "count")}
        for x in ("S0", "S1"):
            w.data.arr[x] = ENG.fresh("data_" + x, SET)
        s.U = ENG.fresh("U", SET)
        w.site.f["count"] = S(ENG.fresh("count", I))
        done = z3.BoolVal(bool(s.done))
        suppose(k.marks(s.T, s.cur, done, w.arr("S0"), w.arr("S1")))
        suppose(k.fresh(s.T, done, s.cur, s.U, w.site.get("count").t))
        if s.done:
            know(Not(k.V[s.cur]))

    def begin(k, L, s):
        pass

    def end(k, L, s, T1, new, done):
        w = k.w
        d = z3.BoolVal(bool(done))
        show(k.marks(T1, new, d, w.arr("S0"), w.arr("S1")))
        # the set of the marks left
        U1 = ENG.fresh("U1", SET)
        know(all_e(lambda e: U1[e] == And(s.U[e], e != s.cur, Not(And(d, e == new))), lambda e: U1[e], lambda e: s.U[e]))
        A = s.U
        for e in [s.cur] + ([new] if done else []):
            Bs = card_del(A, e)
            know(Imp(Not(A[e]), card(Bs) == card(A)))          # removing what is not there
            A = Bs
        card_eq(U1, A)
        show(k.fresh(T1, d, new, U1, w.site.get("count").t))
        if done:
            ENG.require(Not(k.V[new]), "a boundary edge reached was not visited", tac=SMT, assume=False)


def visited_inv(k, V, O):
    """V: the edges visited by earlier curves (k: in which direction we look at them)"""
    return [All("edges visited are crossed edges of the grid", lambda e: Imp(V[e], crossed(e)), lambda e: V[e]),
            All("the contour after a visited edge was visited, or its part is marked open", lambda e: Imp(And(V[e], k.zf(e)), Or(V[k.NX(e)], And(O[e], Not(k.c)))), lambda e: k.NX(e)),
            All("the contour before a visited edge was visited, or its part is marked open", lambda e: Imp(And(V[e], k.zb(e)), Or(V[k.PV(e)], And(O[e], k.c))), lambda e: k.PV(e)),
            All("open marks are on visited I-edges inside the grid", lambda e: Imp(O[e], And(V[e], Not(q_(e)), Not(BN(e)))), lambda e: O[e])]


def marks_inv(S0, S1):
    ok = lambda e, s: And(crossed(e), z3.If(BN(e), Z1(e) if s else Z0(e), And(Not(q_(e)), ORI(e) == z3.BoolVal(s))))
    return [All("start marks of side 0", lambda e: Imp(S0[e], ok(e, False)), lambda e: S0[e]),
            All("start marks of side 1", lambda e: Imp(S1[e], ok(e, True)), lambda e: S1[e])]


def zone_pass1(path, entry, real=False):
    def body():
        w = World(path, real)
        k = Walk1(w)
        suppose(k.pre())
        k.know()
        unfold(k.e0), k.at(k.e0)
        w.site.f.update(edge=P2(S(k.i), S(k.j)), left=k.left0(), n=0, count=S(k.count), edge0=P2(S(k.i), S(k.j)), left0=k.left0(),
                        level0=S(z3.If(k.interior, z3.IntVal(0), z3.IntVal(2))))
        w.c.specs[("zone_crosser", 0)] = Cross(k, entry)
        before = dict(w.data.arr)
        ret = w.c.run("zone_crosser", [w.site, 0, 0])
        o = k.out
        T = o["T"]
        ENG.require(F.compare("==", ret, 3 if o["kind"] == "closed" else 4), "the value returned", tac=SMT, assume=False)
        ENG.require(F.compare("==", w.site.get("n"), S(o["n"])), "the number of points of the curve", tac=SMT, assume=False)
        ENG.require(z3.BoolVal(all(before[f].eq(w.arr(f)) for f in FLAGS if f not in ("S0", "S1"))), "only start marks change", tac=SMT, assume=False)
        show(walk1_post(k, o["kind"], T, o["K"], w.arr("S0"), w.arr("S1"), o["head"].U, w.site.get("count").t, w.site.get("n").t))
    return body


def walk1_post(k, kind, T, K, S0, S1, U, count, n):
    e0, NX, PV, zf, zb = k.e0, k.NX, k.PV, k.zf, k.zb
    l = [One("the start is visited", T[e0]),
         All("edges visited are crossed edges of the grid", lambda e: Imp(T[e], crossed(e)), lambda e: T[e]),
         All("edges visited for the first time", lambda e: Imp(T[e], Not(k.V[e])), lambda e: T[e]),
         One("the number of points", n == card(T) + (1 if kind == "closed" else 0)),
         All("start marks left of side 0", lambda e: S0[e] == And(k.S0[e], Not(And(T[e], e != e0))), lambda e: S0[e], lambda e: k.S0[e]),
         All("start marks left of side 1", lambda e: S1[e] == And(k.S1[e], Not(And(T[e], e != e0))), lambda e: S1[e], lambda e: k.S1[e]),
         All("unvisited start marks left", lambda e: U[e] == And(k.U[e], Not(T[e])), lambda e: U[e], lambda e: k.U[e]),
         One("count of the start marks left", count == card(U)),
         All("the order of the visit", lambda e: Imp(T[e], And(K[e] >= 0, K[e] < card(T))), lambda e: K[e]),
         All("edges visited follow each other", lambda e: Imp(And(T[e], e != e0), And(T[PV(e)], K[PV(e)] < K[e])), lambda e: PV(e)),
         All("there is a cell before an edge visited", lambda e: Imp(And(T[e], e != e0), zb(e)), lambda e: T[e])]
    if kind != "closed":
        l += [One("a curve that does not close does not come back to its start", Imp(zb(e0), Not(T[PV(e0)])))]
    if kind == "closed":
        l += [One("a curve closes on a start inside the grid", k.interior),
              One("the curve closes on its start", T[PV(e0)]),
              All("a closed curve stays inside the grid", lambda e: Imp(T[e], Not(BN(e))), lambda e: T[e])]
    l += [All("the contour after the edges visited was visited", lambda e: Imp(And(T[e], zf(e)), T[NX(e)] if kind not in ("open", "ended") else Or(T[NX(e)], k.V[NX(e)])), lambda e: NX(e))]
    if kind == "open":
        l += [One("a curve ends on another one only when it keeps the higher side on its left", k.c)]
    return l


class Walk2(Walk):
    """pass 2: the points are written"""

    def __init__(k, w, values=False):
        super().__init__(w)
        k.values = values
        k.V, k.D, k.W, k.KC, k.WC = (z3.Const(n, SET) for n in ("V", "D", "W", "KC", "WC"))
        k.off = z3.Int("offset")
        k.drawn(ENG.fresh("edge_of", EVT))

    once = False

    def drawn(k, ev):
        """what is in the buffers now; ev: the edge of each point"""
        k.ev0 = ev
        k.idx0, k.cl0 = ENG.fresh("point_of", INTOF), ENG.fresh("closing", CLOSING)
        k.arr0 = [b.arr for b in k.w.bufs]

    def points_inv(k, ev, n, last=None, cur=None, idx=None, cl=None, W=None):
        """the points drawn by this walk"""
        x, y, kind = [b.arr for b in k.w.bufs]
        l = kept_facts(kind, k.arr0[2], k.off, "kinds") + zeros(kind, k.off, k.off + n)
        if k.values:
            inside = lambda m: And(k.off <= m, m < k.off + n)
            for nm, a, b in (("x", x, k.arr0[0]), ("y", y, k.arr0[1]), ("edges of points", ev, k.ev0)):
                l += kept_facts(a, b, k.off, nm)
            l += [Each("points are on crossed edges", lambda m: Imp(inside(m), And(crossed(ev[m]), x[m] == PX(ev[m]), y[m] == PY(ev[m]))), lambda m: ev[m], lambda m: x[m], lambda m: y[m]),
                  Each("points that follow each other are on edges of one cell", lambda m: Imp(And(inside(m), m > k.off), joined(ev[m - 1], ev[m])), lambda m: ev[m])]
            if cur is not None:
                if k.once:
                    l += once_facts(W, ev, idx, k.cl0, k.off + n)
                    l.append(Each("no point closes a curve yet", lambda m: Imp(inside(m), Not(k.cl0[m])), lambda m: k.cl0[m]))
                l.append(One("the last point drawn", Imp(n > 0, And(ev[k.off] == k.e0, ev[k.off + n - 1] == last, joined(last, cur)))))
        return l

    def pre(k):
        zf, zb, NX, PV = k.zf, k.zb, k.NX, k.PV
        return [One("the starting edge is crossed", And(valid(k.e0), cut(k.e0))),
                One("the starting edge was not visited", And(Not(k.W[k.e0]), k.D[k.e0])),
                One("there is a cell to cross", zex(k.e0, k.s)),
                One("direction", k.straight(k.e0, k.s)),
                One("a start inside the grid or on its boundary", bnd(k.e0) == Not(k.interior)),
                One("inside the grid a start is on an I-edge", Imp(k.interior, Not(k.q))),
                One("a start inside the grid closes", Imp(k.interior, And(k.KC[k.e0], Not(k.WC[k.e0])))),
                All("edges counted", lambda e: Imp(k.D[e], And(crossed(e), k.V[e], Imp(k.interior, Not(BN(e))))), lambda e: k.D[e]),
                All("edges counted, along the contour", lambda e: Imp(And(k.D[e], zf(e)), k.D[NX(e)]), lambda e: NX(e)),
                All("edges drawn were counted", lambda e: Imp(k.W[e], And(crossed(e), k.V[e])), lambda e: k.W[e]),
                All("contours drawn are complete (1)", lambda e: Imp(And(k.W[e], zf(e)), k.W[NX(e)]), lambda e: NX(e)),
                All("contours drawn are complete (2)", lambda e: Imp(And(k.W[e], zb(e)), k.W[PV(e)]), lambda e: PV(e)),
                All("closed contours drawn were counted", lambda e: Imp(k.WC[e], k.KC[e]), lambda e: k.WC[e]),
                One("the room for the points", And(k.w.ntotal.t == card(k.V) + card(k.KC), k.off == card(k.W) + card(k.WC), k.off >= 0))] + (
                    once_facts(k.W, k.ev0, k.idx0, k.cl0, k.off) if k.once else [])

    def inv(k, T, WT, cur, n, done):
        return [All("edges drawn for the first time", lambda e: Imp(T[e], And(k.D[e], Not(k.W[e]))), lambda e: T[e]),
                One("the next edge was counted", k.D[cur]),
                One("a start inside the grid does not lead to the boundary", Not(And(done, k.interior))),
                All("edges drawn", lambda e: WT[e] == Or(k.W[e], T[e]), lambda e: WT[e], lambda e: T[e], lambda e: k.W[e]),
                One("number of edges drawn", card(WT) == card(k.W) + n)]

    def enter(k, L):
        show(k.inv(NO, k.W, k.e0, z3.IntVal(0), FALSE))
        show(k.points_inv(k.ev0, z3.IntVal(0), k.e0, k.e0, k.idx0, k.cl0, k.W))

    def havoc(k, L, s):
        s.WT = ENG.fresh("WT", SET)
        for b in k.w.bufs:
            if not b.opaque:
                b.arr = ENG.fresh(b.name, b.arr.sort())
                L.frame.add((b.name, ""))
        s.ev, s.idx = ENG.fresh("edge_of", EVT), ENG.fresh("point_of", INTOF)
        suppose(k.points_inv(s.ev, s.n, s.last, s.cur, s.idx, None, s.WT))
        suppose(k.inv(s.T, s.WT, s.cur, s.n, z3.BoolVal(bool(s.done))))

    def begin(k, L, s):
        k.stored = {}
        card_sub(card_add(s.WT, s.cur), k.V)
        card_sub(s.WT, k.V)
        card_sub(k.WC, k.KC)
        card_sub(card_add(k.WC, k.e0), k.KC)
        for b in k.w.bufs:
            b.on_store = lambda i, v, b=b: k.stores(s, b, i, v)

    def stores(k, s, b, i, v):
        k.stored[b.name] = k.stored.get(b.name, 0) + 1
        ENG.require(F.compare("==", i, S(k.off + s.n)), "the points follow each other", tac=SMT, assume=False)
        if b.name == "kcp":
            ENG.require(F.compare("==", v, 0), "the kind of the points", tac=SMT, assume=False)
        elif k.values:
            fn = k.w.xf if b.name == "xcp" else k.w.yf
            i0, j0 = (s.i - 1, s.j) if s.q else (s.i, s.j - 1)
            za, zb, va, vb = k.w.zf(i0, j0), k.w.zf(s.i, s.j), fn(i0, j0), fn(s.i, s.j)
            ENG.require(v.ok, "the coordinate is a number")
            ENG.require(za != zb, "the ends of the edge differ")
            ENG.require(core.real(v) == va + (k.w.lev.t - za) / (zb - za) * (vb - va), "the point is interpolated on the edge", assume=False)
            return S((PX if b.name == "xcp" else PY)(s.cur))       # by definition

    def points(k, s):
        for b in k.w.bufs:
            ENG.require(z3.BoolVal(k.stored.get(b.name, 0) == 1), "each edge gives one point (%s)" % b.name, tac=SMT, assume=False)

    def end(k, L, s, T1, new, done):
        k.points(s)
        WT1 = card_add(s.WT, s.cur)
        show(k.inv(T1, WT1, new, s.n + 1, z3.BoolVal(bool(done))))
        if k.values:
            za, zb = zone(s.cur, z3.BoolVal(s.side)), zone(new, z3.BoolVal(bool(s.side_new) == bool(done)))
            ENG.require(And(za[0] == zb[0], za[1] == zb[1], cell(*za)), "the two edges share a cell", tac=SMT, assume=False)
            know(joined(s.cur, new))
        show(k.points_inv(z3.Store(s.ev, k.off + s.n, s.cur), s.n + 1, s.cur, new, z3.Store(s.idx, s.cur, k.off + s.n), None, WT1))


def zone_pass2(path, entry, real=False, values=False, once=False):
    def body():
        w = World(path, real)
        k = Walk2(w, values)
        k.once = once
        if once:        # the points to come close no curve (they are not there yet)
            m = z3.Const("m", I)
            know(z3.ForAll([m], Imp(m >= k.off, Not(k.cl0[m])), patterns=[k.cl0[m]]))
        suppose(k.pre())
        k.know()
        unfold(k.e0), k.at(k.e0)
        w.site.f.update(edge=P2(S(k.i), S(k.j)), left=k.left0(), n=0, count=0, edge0=P2(S(k.i), S(k.j)), left0=k.left0(),
                        level0=S(z3.If(k.interior, z3.IntVal(0), z3.IntVal(2))), xcp=Ptr(w.bufs[0], S(k.off)), ycp=Ptr(w.bufs[1], S(k.off)), kcp=Ptr(w.bufs[2], S(k.off)))
        w.c.specs[("zone_crosser", 0)] = Cross(k, entry)
        before = dict(w.data.arr)
        ret = w.c.run("zone_crosser", [w.site, 0, 1])
        o = k.out
        h = o["head"]
        k.points(h)
        ENG.require(F.compare("==", w.site.get("count"), 0), "no start is taken away", tac=SMT, assume=False)
        ENG.require(F.compare("==", ret, 3 if o["kind"] == "closed" else 4), "the value returned", tac=SMT, assume=False)
        ENG.require(F.compare("==", w.site.get("n"), S(o["n"])), "the number of points of the curve", tac=SMT, assume=False)
        ENG.require(z3.BoolVal(all(before[f].eq(w.arr(f)) for f in FLAGS)), "the flags stay as they are", tac=SMT, assume=False)
        WT = h.WT if o["kind"] != "boundary" else card_add(h.WT, h.cur)
        show(walk2_post(k, o["kind"], o["T"], WT, w.site.get("n").t))
        if values:
            unfold(h.cur)
            ENG.require(h.cur == k.e0 if o["kind"] == "closed" else bnd(h.cur), "the curve ends at its start or on the boundary", tac=SMT, assume=False)
            know(h.cur == k.e0 if o["kind"] == "closed" else BN(h.cur))
        at = k.off + h.n
        closed = o["kind"] == "closed"
        show(drawn_post(k, z3.Store(h.ev, at, h.cur), w.site.get("n").t, h.idx if closed else z3.Store(h.idx, h.cur, at), z3.Store(k.cl0, at, z3.BoolVal(closed)), WT))
    return body


def drawn_post(k, ev, n, idx=None, cl=None, W=None):
    """what the buffers hold after the walk"""
    l = k.points_inv(ev, n)
    if k.once:
        l += once_facts(W, ev, idx, cl, k.off + n) + kept_facts(cl, k.cl0, k.off, "closing points") + closing_facts(ev, cl, k.off, n)
    if k.values:
        l += [x for x in curve_facts(k.w.bufs[0].arr, k.w.bufs[1].arr, ev, k.off, n) if isinstance(x, One)]
    return l


def walk2_post(k, kind, T, WT, n):
    e0, NX, PV, zf, zb = k.e0, k.NX, k.PV, k.zf, k.zb
    l = [One("the curve closes when it starts inside the grid, otherwise it ends on the boundary", z3.If(k.interior, z3.BoolVal(kind == "closed"), z3.BoolVal(kind == "boundary"))),
         One("the start is drawn", T[e0]),
         All("edges drawn for the first time", lambda e: Imp(T[e], And(k.D[e], Not(k.W[e]))), lambda e: T[e]),
         All("edges drawn", lambda e: WT[e] == Or(k.W[e], T[e]), lambda e: WT[e], lambda e: T[e], lambda e: k.W[e]),
         One("the number of points", And(n == card(WT) - card(k.W) + (1 if kind == "closed" else 0), n >= 2)),
         All("contours drawn are complete (1)", lambda e: Imp(And(WT[e], zf(e)), WT[NX(e)]), lambda e: NX(e)),
         All("contours drawn are complete (2)", lambda e: Imp(And(WT[e], zb(e)), WT[PV(e)]), lambda e: PV(e)),
         All("there is a cell before an edge drawn", lambda e: Imp(And(T[e], e != e0), zb(e)), lambda e: T[e])]
    return l


# ------------------------------------------------------------------ curve_tracer
ORDER["curve_tracer"] = "site pass2 data imax edge0 left0 edge00 two_levels level level0 mark_row n two_starts first e0".split()
ORIGIN = mk(False, 0, 0)
jt = z3.Function("tag", Edge, I)
INTS = z3.ArraySort(Edge, I)
EDGES = z3.ArraySort(Edge, Edge)


def pos_lt(a, b):
    """the position of a is before that of b"""
    return Or(j_(a) < j_(b), And(j_(a) == j_(b), i_(a) < i_(b)))


def pos_le(a, b):
    return Or(j_(a) < j_(b), And(j_(a) == j_(b), i_(a) <= i_(b)))


def pos_eq(a, b):
    return And(i_(a) == i_(b), j_(a) == j_(b))


def after(e, cur):
    """e comes after the start cur in the order of the scan (I-edge before J-edge at a position)"""
    return Or(pos_lt(cur, e), And(pos_eq(e, cur), q_(e), Not(q_(cur))))


def row_ok(ROW, c, y, h):
    """the climb from c through its column finds the mark of row h, and no start before y is passed over"""
    return And(j_(c) <= h, ROW[mk(False, i_(c), h)], pos_le(mk(False, i_(c), h), y))


class Rows:
    name = "row marks lead from a start kept to the next"

    """START_ROW marks: between any two starts kept"""

    def __init__(s, g, cands=()):
        s.g, s.cands = g, cands or (g.H,)

    def premise(s, c, y):
        g = s.g
        return And(Or(g.KS[c], c == ORIGIN), g.KS[y], pos_lt(c, y))

    def know(s):
        c, y = z3.Const("c", Edge), z3.Const("y", Edge)
        h = s.g.H(c, y)
        know(z3.ForAll([c, y], Imp(s.premise(c, y), row_ok(s.g.ROW, c, y, h)), patterns=[h]))

    def show(s):
        c, y = z3.FreshConst(Edge, "c"), z3.FreshConst(Edge, "y")
        unfold(c), unfold(y)
        ENG.require(Imp(s.premise(c, y), Or(*[row_ok(s.g.ROW, c, y, f(c, y)) for f in s.cands])), "row marks lead from a start kept to the next", tac=SMT, assume=False)


class Tagged(All):
    """a statement about every edge, used only where the edge is named"""

    def __init__(s, name, f):
        super().__init__(name, f, lambda e: jt(e))

    def show(s, tac=SMT):
        e = z3.FreshConst(Edge, "any")
        know(jt(e) >= 0)
        ENG.require(s.f(e), s.name, tac=tac, assume=False)


class Ghost:
    """the state between two calls of curve_tracer in the first pass"""
    SETS = ("V", "V1", "V2", "U", "KS", "KC")

    def __init__(g, tag=""):
        for n in g.SETS:
            setattr(g, n, ENG.fresh(n, SET))
        g.R, g.Dst, g.lo = ENG.fresh("R", EDGES), ENG.fresh("Dst", INTS), ENG.fresh("lo", I)
        g.H = ENG.fresh_fn("H", Edge, Edge, I)
        g.M0 = z3.Const("M0", SET)                 # the start marks of data_init
        g.last = ENG.fresh("last_kept", Edge)      # the last start kept (edge00)

    def flags(g, w):
        for n in ("S0", "S1", "O", "ROW", "DONE"):
            setattr(g, n, w.arr(n))

    def copy(g):
        n = g.__class__.__new__(g.__class__)
        n.__dict__.update(g.__dict__)
        return n

    def marked(g, e):
        return Or(g.S0[e], g.S1[e])

    def kept_inv(g, U=True):
        """what remains true once the first pass is over"""
        l = visited_inv(FORWARD, g.V, g.O) + marks_inv(g.S0, g.S1) + [
            All("starts kept", lambda e: g.KS[e] == And(g.marked(e), g.V[e]), lambda e: g.KS[e], lambda e: g.S0[e], lambda e: g.S1[e]),
            All("closed curves", lambda e: g.KC[e] == And(g.KS[e], Not(BN(e))), lambda e: g.KC[e], lambda e: g.KS[e])]
        for nm, A in (("against", g.V1), ("closed", g.V2)):
            l += [All("curves traced as a whole were visited (%s)" % nm, lambda e, A=A: Imp(A[e], g.V[e]), lambda e, A=A: A[e]),
                  All("curves traced as a whole are complete, forward (%s)" % nm, lambda e, A=A: Imp(And(A[e], ZF(e)), A[FWF(e)]), lambda e: FWF(e)),
                  All("curves traced as a whole are complete, backward (%s)" % nm, lambda e, A=A: Imp(And(A[e], ZB(e)), A[BKF(e)]), lambda e: BKF(e))]
        l += [All("closed curves stay inside the grid", lambda e: Imp(g.V2[e], And(Not(BN(e)), Not(g.V1[e]))), lambda e: g.V2[e]),
              All("a closed curve has one start, forward", lambda e: Imp(g.V2[e], g.R[FWF(e)] == g.R[e]), lambda e: FWF(e)),
              All("a closed curve has one start, backward", lambda e: Imp(g.V2[e], g.R[BKF(e)] == g.R[e]), lambda e: BKF(e)),
              All("a start kept inside the grid is on a closed curve, a start on the boundary is not", lambda e: Imp(g.KS[e], z3.If(BN(e), z3.If(ZF(e), Not(g.V1[e]), g.V1[e]), And(g.V2[e], g.R[e] == e))), lambda e: g.KS[e]),
              One("the last start kept", Or(g.KS[g.last], g.last == ORIGIN)),
              All("starts kept are not after the last", lambda e: Imp(g.KS[e], pos_le(e, g.last)), lambda e: g.KS[e]),
              Rows(g)]
        return l

    def inv(g, cur, count):
        """cur: the start of the last curve (an edge), or ORIGIN"""
        return g.kept_inv() + [
            All("unvisited start marks", lambda e: g.U[e] == And(g.marked(e), Not(g.V[e])), lambda e: g.U[e], lambda e: g.S0[e], lambda e: g.S1[e]),
            One("the count of the start marks not visited", count == card(g.U)),
            All("start marks not visited are after the current one", lambda e: Imp(g.U[e], after(e, cur)), lambda e: g.U[e], places=True),
            All("starts kept are not after the current one", lambda e: Imp(g.KS[e], Not(after(e, cur))), lambda e: g.KS[e]),
            One("the last start kept is not after the current one", pos_le(g.last, cur)),
            All("no final mark yet", lambda e: Not(g.DONE[e]), lambda e: g.DONE[e])]

    def cover(g):
        """for completeness"""
        step = lambda e: Or(g.KS[e], And(g.V1[e], ZF(e), g.V[FWF(e)], g.Dst[FWF(e)] < g.Dst[e]), And(ZB(e), g.V[BKF(e)], g.Dst[BKF(e)] < g.Dst[e]), And(g.O[e], ZB(e), Not(g.V[BKF(e)])))
        return [All("start marks are not forgotten", lambda e: Imp(g.M0[e], Or(g.V[e], g.U[e])), lambda e: g.M0[e]),
                All("ranks", lambda e: Imp(g.V[e], g.Dst[e] >= g.lo), lambda e: g.Dst[e]),
                Tagged("every visited edge leads back to a start kept", lambda e: Imp(g.V[e], step(e)))]


def card_union(A, Bs, name):
    """a set, the union of two disjoint ones"""
    C_ = ENG.fresh(name, SET)
    know(all_e(lambda e: C_[e] == Or(A[e], Bs[e]), lambda e: C_[e], lambda e: A[e], lambda e: Bs[e]))
    x = z3.FreshConst(Edge, "w")
    know(Imp(Not(And(A[x], Bs[x])), card(C_) == card(A) + card(Bs)))
    return C_


def union(A, Bs, name):
    C_ = ENG.fresh(name, SET)
    know(all_e(lambda e: C_[e] == Or(A[e], Bs[e]), lambda e: C_[e], lambda e: A[e], lambda e: Bs[e]))
    return C_


class Climb(Spec):
    """while there is no row mark: edge0 += imax"""

    def __init__(s, t):
        s.t = t

    def enter(s, L):
        s.id = L.var("edge0", ORDER["curve_tracer"])
        t = s.t
        a, b = F.canon(L.get(s.id))
        s.a, s.b0 = term(a), term(b)
        t.climb(s.a, s.b0, True)

    def havoc(s, L):
        s.b = ENG.fresh("row", I)
        L.env[s.id] = P2(S(s.a), S(s.b))
        ENG.assume(s.b >= s.b0)
        s.t.climb(s.a, s.b, False)

    def end(s, L):
        a, b = F.canon(L.get(s.id))
        ENG.require(And(term(a) == s.a, term(b) == s.b + 1), "the climb goes up one row", tac=SMT, assume=False)
        s.t.climb(s.a, term(b), True)
        top = s.t.top()
        decreases([top - s.b], [top - term(b)], "the climb")

    def exit(s, L):
        ENG.mark("a row is found")


class Scan(Spec):
    """while there is no start mark: edge0++"""

    def __init__(s, t):
        s.t = t

    def enter(s, L):
        s.id = L.var("edge0", ORDER["curve_tracer"])
        a, b = F.canon(L.get(s.id))
        s.t.scan_enter(L)
        s.t.scan(term(a), term(b), True)

    def havoc(s, L):
        s.t.scan_havoc(L, s.id)
        i, j = ENG.fresh("i", I), ENG.fresh("j", I)
        ENG.assume(And(i >= 0, i < X, j >= 0))
        L.env[s.id] = P2(S(i), S(j))
        s.i, s.j = i, j
        s.t.scan(i, j, False)

    def end(s, L):
        a, b = F.canon(L.get(s.id))
        a, b = term(a), term(b)
        ENG.require(pos_lt(mk(False, s.i, s.j), mk(False, a, b)), "the scan goes forward", tac=SMT, assume=False)
        s.t.scan(a, b, True)
        y = s.t.y
        decreases([j_(y) - s.j, X - s.i], [j_(y) - b, X - a], "the scan")

    def exit(s, L):
        ENG.mark("a start is found")


class At(Walk1):
    """what zone_crosser is called with in the first pass"""

    def __init__(k, w, way, q, i, j, s, V, U, count):
        k.w, k.NX, k.PV, k.c = w, way.NX, way.PV, way.c
        k.q, k.i, k.j, k.s = z3.BoolVal(q), i, j, z3.BoolVal(s)
        k.e0 = mk(q, i, j)
        k.interior = Not(bnd(k.e0))
        k.V, k.U, k.count = V, U, count
        k.S0, k.S1, k.O = w.arr("S0"), w.arr("S1"), w.arr("O")


class Tracer:
    """one call of curve_tracer in the first pass; seen: shared by the paths"""

    def __init__(t, path, first, cover, seen):
        t.first, t.cover, t.seen = first, cover, seen
        t.w = w = World(path)
        g = t.g = Ghost()
        g.flags(w)
        t.count = z3.Int("count")
        FORWARD.know()
        unfold(ORIGIN)
        ENG.assume(And(i_(g.last) >= 0, i_(g.last) < X, j_(g.last) >= 0, j_(g.last) < Y))
        know(all_e(lambda e: Imp(g.U[e], card(g.U) > 0), lambda e: g.U[e]))
        know(card(g.U) >= 0)
        t.base = len(ENG.hyps)
        if first:
            t.cur, t.dir = ORIGIN, None
            left = 0
        else:
            t.dir = ENG.choose(4)
            t.q, t.s = DIRS[t.dir]
            t.cur = mk(t.q, z3.Int("i0"), z3.Int("j0"))
            unfold(t.cur)
            ENG.assume(And(valid(t.cur), cut(t.cur), t.cur != ORIGIN, zex(t.cur, z3.BoolVal(t.s)), Or(bnd(t.cur), And(z3.BoolVal(not t.q), ori(t.cur) == z3.BoolVal(t.s)))))
            left = left_of(t.q, t.s)
        t.i0, t.j0 = parts(t.cur)[1:]
        t.jr = z3.Int("first_row")
        suppose(t.pre())
        t.edge00 = P2(S(i_(g.last)), S(j_(g.last)))
        w.site.f.update(edge0=0 if first else P2(S(t.i0), S(t.j0)), left0=left, edge00=0 if first else t.edge00, count=S(t.count), edge=0, left=0, n=0, level0=0)
        w.c.stubs["zone_crosser"] = t.crosser
        w.c.specs[("curve_tracer", 0)] = Climb(t)
        w.c.specs[("curve_tracer", 1)] = Scan(t)
        t.calls = 0

    # the scan: what was known of the way to it is forgotten
    def scan_enter(t, L):
        g, w = t.g, t.w
        n = g.copy()
        n.flags(w)
        ENG.require(F.compare("==", w.site.get("edge00"), t.edge00), "the last start kept", tac=SMT, assume=False)
        ENG.require(F.compare("==", w.site.get("count"), S(t.count)), "the count of the marks not visited", tac=SMT, assume=False)
        ENG.require(t.count > 0, "there is a start to be found", tac=SMT, assume=False)
        show(n.inv(t.cur, t.count))
        if t.cover:
            show(n.cover())

    def scan_havoc(t, L, k):
        snap = t.seen.setdefault("env", {})
        for i, v in L.env.items():
            snap.setdefault(i, set()).add(repr(v))
        if t.first or t.dir != 3:
            raise core.PathEnd()
        here = [d[0] if isinstance(d, tuple) else d for d in ENG.dec]
        poison = {i for i, r in snap.items() if len(r) > 1}
        if "way" not in t.seen:
            t.seen["way"], t.seen["poison"] = here, poison
        elif t.seen["way"] != here:
            if poison - t.seen["poison"] - {k}:
                raise Unsupported("a variable of curve_tracer depends on the way to the scan")
            raise core.PathEnd()
        ENG.forget(t.base)
        w, g = t.w, t.g
        for i in t.seen["poison"]:
            if i in L.env and i != k:
                L.env[i] = F.Poison("a variable set before the scan")
        for f in FLAGS:
            w.data.arr[f] = ENG.fresh("data_" + f, SET)
        w.data.seen = set()
        g.flags(w)
        t.after_forget()

    def after_forget(t):
        w, g = t.w, t.g
        t.cur = z3.Const("current", Edge)
        t.count = ENG.fresh("count", I)
        ENG.assume(t.count > 0)
        w.site.f.update(count=S(t.count), edge00=t.edge00, edge0=F.Poison("edge0"), left0=F.Poison("left0"))
        suppose(g.inv(t.cur, t.count))
        if t.cover:
            suppose(g.cover())

    def pre(t):
        g = t.g
        l = []
        if not t.first:
            return l + g.inv(t.cur, t.count) + (g.cover() if t.cover else [])
        return l + first_inv(g, t.count, t.jr) + (g.cover() if t.cover else [])

    def todo(t, e):
        return t.g.U[e]

    def witness(t):
        return some(t.g.U)

    def top(t):
        return t.jr

    def climb(t, a, b, ob):
        l = [One("the climb does not pass the first row mark", And(a == t.i0, b >= t.j0, b <= t.jr))]
        (show if ob else suppose)(l)

    def scan(t, a, b, ob):
        p = mk(False, a, b)
        l = [All("no start is passed over", lambda e: Imp(t.todo(e), Or(pos_lt(p, e), e == p, e == mk(True, a, b))), lambda e: t.g.U[e], places=True),
             One("the scan is after the current start", pos_lt(t.cur, p))]
        (show if ob else suppose)(l)
        if not ob:
            y = t.y = t.witness()
            know(pos_le(p, y))
            ENG.assume(And(pos_le(p, y), crossed(y)))
            unfold(y)

    def crosser(t, *args):
        w, g = t.w, t.g
        site = w.site
        t.calls += 1
        ENG.require(z3.BoolVal(t.calls == 1 and len(args) == 3 and args[0] is site), "zone_crosser is called once", assume=False)
        for v, nm in ((args[1], "level"), (args[2], "pass")):
            ENG.require(F.compare("==", v, 0), "zone_crosser: " + nm, tac=SMT, assume=False)
        q, i, j, s = site_of(site.get("edge"), site.get("left"))
        e0 = mk(q, i, j)
        unfold(e0), FORWARD.at(e0)
        ENG.require(F.compare("==", site.get("edge0"), P2(S(i), S(j))), "the starting point", tac=SMT, assume=False)
        ENG.require(F.compare("==", site.get("left0"), left_of(q, s)), "the starting direction", tac=SMT, assume=False)
        ENG.require(F.compare("==", site.get("n"), 0), "a curve starts without points", tac=SMT, assume=False)
        inside = not ENG.decide(bnd(e0))
        if inside:
            fwd = True
            ENG.require(ori(e0) == z3.BoolVal(s), "inside the grid the higher side is on the left", tac=SMT)
        else:
            fwd = bool(ENG.choose(2))
            ENG.assume((ori(e0) == z3.BoolVal(fwd)) == z3.BoolVal(s))
        ENG.require(F.compare("==", site.get("level0"), 0 if inside else 2), "level0", tac=SMT, assume=False)
        U0 = without(g.U, e0)
        ENG.require(g.U[e0], "the start is one of those not visited", tac=SMT, assume=False)
        know(g.U[e0])
        count = F.num(site.get("count"))
        k = t.k = At(w, FORWARD if fwd else BACKWARD, q, i, j, s, g.V, U0, term(count))
        show(k.pre())
        # the others contradict walk1_post; "ended": on the boundary or on another curve
        kinds = (["ended"] if fwd else ["boundary"]) + (["closed"] if inside else [])
        kind = kinds[ENG.choose(len(kinds))]
        t.T, t.K, t.U, n = ENG.fresh("T", SET), ENG.fresh("K", INTS), ENG.fresh("U", SET), ENG.fresh("n", I)
        for f in ("S0", "S1"):
            w.data.arr[f] = ENG.fresh("data_" + f, SET)
        w.data.seen = set()
        cnt = ENG.fresh("count", I)
        site.f.update(n=S(n), count=S(cnt), edge=F.Poison("edge"), left=F.Poison("left"))
        suppose(walk1_post(k, kind, t.T, t.K, w.arr("S0"), w.arr("S1"), t.U, cnt, n))
        know(card(t.T) >= 1)
        t.kind, t.e0, t.fwd, t.inside, t.q1, t.s1 = kind, e0, fwd, inside, q, s
        ENG.mark("a curve is traced: " + kind)
        return 3 if kind == "closed" else 4

    def done(t, ret):
        """the first pass is over"""
        g, w = t.g, t.w
        ENG.require(F.compare("==", ret, 0), "no more curves", tac=SMT, assume=False)
        ENG.require(t.count <= 0, "the first pass ends when no start is left", tac=SMT, assume=False)
        for f in ("edge0", "left0", "edge00"):
            ENG.require(F.compare("==", w.site.get(f), 0), "the second pass starts at the beginning (%s)" % f, tac=SMT, assume=False)
        n = g.copy()
        n.flags(w)
        show(n.kept_inv() + [All("every start mark is visited", lambda e: Not(n.U[e]), lambda e: n.U[e]),
                             All("unvisited start marks", lambda e: n.U[e] == And(n.marked(e), Not(n.V[e])), lambda e: n.U[e], lambda e: n.S0[e], lambda e: n.S1[e]),
                             All("the final mark", lambda e: n.DONE[e] == (e == mk(False, i_(g.last), j_(g.last))), lambda e: n.DONE[e])])
        if t.cover:
            show(n.cover())
        ENG.mark("the first pass ends")

    def post(t, ret):
        g, w = t.g, t.w
        ENG.require(z3.BoolVal(all(w.saddle.arr[x].eq(y) for x, y in t.saddle0.items())), "the saddle array is left alone", assume=False)
        if not t.calls:
            return t.done(ret)
        n, k, e0, T = g.copy(), t.k, t.e0, t.T
        kept = not t.inside or t.kind == "closed"
        n.V, n.U = card_union(g.V, T, "V_"), t.U
        nV = card(n.V) - card(g.V)
        if kept:
            n.KS = with_(g.KS, e0)
            n.last = e0
        if t.kind == "closed":
            n.KC, n.V2 = with_(g.KC, e0), union(g.V2, T, "V2_")
            n.R = ENG.fresh("R_", EDGES)
            know(all_e(lambda e: n.R[e] == z3.If(T[e], e0, g.R[e]), lambda e: n.R[e]))
        if not t.inside and not t.fwd:
            n.V1 = union(g.V1, T, "V1_")
        n.Dst = ENG.fresh("Dst_", INTS)
        n.lo = g.lo - card(T)
        know(all_e(lambda e: n.Dst[e] == z3.If(T[e], t.K[e] + n.lo, g.Dst[e]), lambda e: n.Dst[e]))
        n.flags(w)
        r = F.num(ret)
        pts = card(n.V) - card(g.V) + card(n.KC) - card(g.KC)
        ENG.require(term(r) == (pts if kept else -pts), "the number of points, negative for a curve to be traced as part of another", tac=SMT, assume=False)
        ENG.require(pts >= 1, "a curve has points", tac=SMT, assume=False)
        finite(n.V, n.KC)
        ENG.require(card(n.V) + card(n.KC) <= 2 * card(ALL), "the points of all curves are at most two for each crossed edge", tac=SMT, assume=False)
        ENG.require(card(n.KS) == card(g.KS) + (1 if kept else 0), "the starts kept are those of the curves with a positive number of points", tac=SMT, assume=False)
        ENG.require(F.compare("==", w.site.get("edge0"), P2(S(i_(e0)), S(j_(e0)))), "the current start", tac=SMT, assume=False)
        ENG.require(F.compare("==", w.site.get("left0"), left_of(t.q1, t.s1)), "the current direction", tac=SMT, assume=False)
        ENG.require(F.compare("==", w.site.get("edge00"), P2(S(i_(n.last)), S(j_(n.last)))), "the last start kept", tac=SMT, assume=False)
        ENG.require(after(e0, t.cur), "starts follow each other", tac=SMT, assume=False)
        l = n.inv(e0, F.num(w.site.get("count")).t)
        for x in l:
            if isinstance(x, Rows):
                li, ni = i_(g.last), i_(e0)
                jp = z3.If(ni >= li, j_(e0), j_(e0) - 1)
                x.cands = (g.H, lambda c, y: g.H(c, g.last), lambda c, y: jp)
        show(l)
        if t.cover:
            show(n.cover())


def first_inv(g, count, jr):
    """when the first pass starts"""
    no = lambda nm, A: All("nothing is traced yet (%s)" % nm, lambda e: Not(A[e]), lambda e: A[e])
    none = And(count == 0, g.DONE[ORIGIN])
    return marks_inv(g.S0, g.S1) + [no(nm, A) for nm, A in (("visited", g.V), ("against", g.V1), ("closed", g.V2), ("kept", g.KS), ("closed curves", g.KC), ("open", g.O))] + [
        One("no start is kept", g.last == ORIGIN),
        All("unvisited start marks", lambda e: g.U[e] == g.marked(e), lambda e: g.U[e], lambda e: g.S0[e], lambda e: g.S1[e]),
        One("the count of the start marks", And(count == card(g.U), count >= 0)),
        All("the final mark is there from the start when there is no start mark", lambda e: g.DONE[e] == And(count <= 0, e == ORIGIN), lambda e: g.DONE[e]),
        One("the row mark of the first start", Imp(count > 0, And(jr >= 0, jr < Y, g.ROW[mk(False, z3.IntVal(0), jr)]))),
        All("no start is before the first row mark", lambda e: Imp(g.U[e], j_(e) >= jr), lambda e: g.U[e])]


def trace_pass1(path, first, cover=False):
    seen = {}

    def body():
        t = Tracer(path, first, cover, seen)
        t.saddle0 = dict(t.w.saddle.arr)
        t.post(t.w.c.run("curve_tracer", [t.w.site, 0]))
    return body


class At2(Walk2):
    """what zone_crosser is called with in the second pass"""

    def __init__(k, w, way, q, i, j, s, g):
        k.w, k.NX, k.PV, k.c, k.values = w, way.NX, way.PV, way.c, False
        k.q, k.i, k.j, k.s = z3.BoolVal(q), i, j, z3.BoolVal(s)
        k.e0 = mk(q, i, j)
        k.interior = Not(bnd(k.e0))
        k.V, k.W, k.KC, k.WC, k.off = g.V, g.W, g.KC, g.WC, g.off


class Ghost2(Ghost):
    """the state between two calls of curve_tracer in the second pass"""

    def __init__(g):
        super().__init__()
        g.W, g.WC, g.WS = ENG.fresh("W", SET), ENG.fresh("WC", SET), ENG.fresh("WS", SET)
        g.off = z3.Int("offset")

    def drawn_inv(g, cur, ntotal):
        return [One("the current start was kept", Or(g.KS[cur], cur == ORIGIN)),
                All("edges drawn were counted", lambda e: Imp(g.W[e], g.V[e]), lambda e: g.W[e]),
                All("contours drawn are complete (1)", lambda e: Imp(And(g.W[e], ZF(e)), g.W[FWF(e)]), lambda e: FWF(e)),
                All("contours drawn are complete (2)", lambda e: Imp(And(g.W[e], ZB(e)), g.W[BKF(e)]), lambda e: BKF(e)),
                All("the curves of the starts up to the current one are drawn", lambda e: Imp(And(g.KS[e], Not(after(e, cur))), g.W[e]), lambda e: g.KS[e]),
                All("the curves of the starts after the current one are not drawn", lambda e: Imp(And(g.KS[e], after(e, cur)), Not(g.W[e])), lambda e: g.KS[e]),
                All("starts of the curves drawn", lambda e: g.WS[e] == And(g.KS[e], Not(after(e, cur))), lambda e: g.WS[e], lambda e: g.KS[e]),
                All("closed curves drawn", lambda e: g.WC[e] == And(g.KC[e], Not(after(e, cur))), lambda e: g.WC[e], lambda e: g.KC[e]),
                One("the points drawn", And(ntotal == card(g.V) + card(g.KC), g.off == card(g.W) + card(g.WC), g.off >= 0))]

    def over(g):
        return [All("unvisited start marks", lambda e: Imp(g.marked(e), g.V[e]), lambda e: g.S0[e], lambda e: g.S1[e]),
                All("the final mark", lambda e: g.DONE[e] == (e == mk(False, i_(g.last), j_(g.last))), lambda e: g.DONE[e])]

    def inv2(g, cur, ntotal):
        return g.kept_inv() + g.over() + g.drawn_inv(cur, ntotal)


class Tracer2(Tracer):
    """one call of curve_tracer in the second pass"""

    def __init__(t, path, first, seen, values, once):
        t.first, t.seen, t.values, t.once = first, seen, values, once
        t.w = w = World(path, points=values)
        g = t.g = Ghost2()
        g.flags(w)
        FORWARD.know()
        unfold(ORIGIN)
        ENG.assume(And(i_(g.last) >= 0, i_(g.last) < X, j_(g.last) >= 0, j_(g.last) < Y))
        t.base = len(ENG.hyps)
        if first:
            t.cur, t.dir, left = ORIGIN, None, 0
        else:
            t.dir = ENG.choose(4)
            t.q, t.s = DIRS[t.dir]
            t.cur = mk(t.q, z3.Int("i0"), z3.Int("j0"))
            unfold(t.cur)
            ENG.assume(And(valid(t.cur), cut(t.cur), t.cur != ORIGIN, zex(t.cur, z3.BoolVal(t.s)), Or(bnd(t.cur), And(z3.BoolVal(not t.q), ori(t.cur) == z3.BoolVal(t.s)))))
            left = left_of(t.q, t.s)
        t.i0, t.j0 = parts(t.cur)[1:]
        t.ev0, t.idx0, t.cl0 = z3.Const("edge_of", EVT), z3.Const("point_of", INTOF), z3.Const("closing", CLOSING)
        suppose(g.inv2(t.cur, w.ntotal.t) + t.once_inv())
        unfold(g.last)
        w.site.f.update(edge0=0 if first else P2(S(t.i0), S(t.j0)), left0=left, edge00=0, count=0, edge=0, left=0, n=0, level0=0,
                        xcp=Ptr(w.bufs[0], S(g.off)), ycp=Ptr(w.bufs[1], S(g.off)), kcp=Ptr(w.bufs[2], S(g.off)))
        w.c.stubs["zone_crosser"] = t.crosser
        w.c.specs[("curve_tracer", 0)] = Climb(t)
        w.c.specs[("curve_tracer", 1)] = Scan(t)
        t.calls = 0

    def once_inv(t):
        return once_facts(t.g.W, t.ev0, t.idx0, t.cl0, t.g.off) if t.once else []

    def todo(t, e):
        return And(t.g.KS[e], after(e, t.cur))

    def top(t):
        return j_(t.g.last)

    def climb(t, a, b, ob):
        g, cur = t.g, t.cur
        H = lambda y: g.H(cur, y)
        l = [One("the climb goes up the column of the current start", And(a == t.i0, b >= t.j0)),
             All("the climb does not pass the row marks", lambda y: Imp(And(g.KS[y], pos_lt(cur, y)), b <= H(y)), lambda y: g.KS[y])]
        (show if ob else suppose)(l)
        if not ob:
            y = g.last
            ENG.require(And(g.KS[y], pos_lt(cur, y)), "there is a start to be found", tac=SMT, assume=False)
            know(And(g.KS[y], pos_lt(cur, y)))
            ENG.require(And(b <= H(y), H(y) <= j_(y)), "the climb ends before the last start", tac=SMT, assume=False)
            ENG.assume(b <= j_(y))

    def scan(t, a, b, ob):
        p, g = mk(False, a, b), t.g
        l = [All("no start is passed over", lambda e: Imp(t.todo(e), Or(pos_lt(p, e), e == p, e == mk(True, a, b))), lambda e: g.KS[e], places=True),
             One("the scan is after the current start", pos_lt(t.cur, p))]
        (show if ob else suppose)(l)
        if not ob:
            y = t.y = g.last
            ENG.require(pos_le(p, y), "the scan ends before the last start", tac=SMT, assume=False)
            ENG.assume(pos_le(p, y))

    def scan_enter(t, L):
        g, w = t.g, t.w
        n = g.copy()
        n.flags(w)
        ENG.require(And(g.KS[g.last], after(g.last, t.cur)), "there is a start to be found", tac=SMT, assume=False)
        show(n.inv2(t.cur, w.ntotal.t) + t.once_inv())
        for nm, b in zip(("xcp", "ycp", "kcp"), w.bufs):
            ENG.require(z3.BoolVal(t.at(w.site.get(nm), b, g.off)), "the place of the points", assume=False)

    def at(t, p, b, off):
        return isinstance(p, Ptr) and p.blk is b and z3.is_true(z3.simplify(term(F.num(p.off)) == off))

    def after_forget(t):
        w, g = t.w, t.g
        t.cur = z3.Const("current", Edge)
        w.site.f.update(edge00=F.Poison("edge00"), edge0=F.Poison("edge0"), left0=F.Poison("left0"), count=0)
        suppose(g.inv2(t.cur, w.ntotal.t) + t.once_inv())
        unfold(g.last)
        know(And(g.KS[g.last], after(g.last, t.cur)))

    def crosser(t, *args):
        w, g = t.w, t.g
        site = w.site
        t.calls += 1
        ENG.require(z3.BoolVal(t.calls == 1 and len(args) == 3 and args[0] is site), "zone_crosser is called once", assume=False)
        ENG.require(F.compare("==", args[1], 0), "zone_crosser: level", tac=SMT, assume=False)
        ENG.require(F.compare("!=", args[2], 0), "zone_crosser: pass", tac=SMT, assume=False)
        q, i, j, s = site_of(site.get("edge"), site.get("left"))
        e0 = mk(q, i, j)
        unfold(e0), FORWARD.at(e0)
        ENG.require(F.compare("==", site.get("edge0"), P2(S(i), S(j))), "the starting point", tac=SMT, assume=False)
        ENG.require(F.compare("==", site.get("left0"), left_of(q, s)), "the starting direction", tac=SMT, assume=False)
        ENG.require(F.compare("==", site.get("n"), 0), "a curve starts without points", tac=SMT, assume=False)
        for nm, b in zip(("xcp", "ycp", "kcp"), w.bufs):
            ENG.require(z3.BoolVal(t.at(site.get(nm), b, g.off)), "the place of the points", assume=False)
        inside = not ENG.decide(bnd(e0))
        ENG.require(F.compare("==", site.get("level0"), 0 if inside else 2), "level0", tac=SMT, assume=False)
        ENG.require(t.todo(e0), "the start was kept and its curve is not drawn yet", tac=SMT, assume=False)
        know(t.todo(e0))
        if inside:
            fwd = True
            ENG.require(ori(e0) == z3.BoolVal(s), "inside the grid the higher side is on the left", tac=SMT)
        else:
            fwd = bool(ENG.choose(2))
            ENG.assume((ori(e0) == z3.BoolVal(fwd)) == z3.BoolVal(s))
        k = t.k = At2(w, FORWARD if fwd else BACKWARD, q, i, j, s, g)
        k.values = t.values
        ENG.require(z3.BoolVal(all(b.arr.eq(a) for a, b in zip(t.arr0, w.bufs))), "the points drawn before stay as they are", assume=False)
        k.once = t.once
        k.drawn(t.ev0)
        k.idx0, k.cl0 = t.idx0, t.cl0
        k.D = ENG.fresh("D", SET)
        know(all_e(lambda e: k.D[e] == (And(g.V2[e], g.R[e] == e0) if inside else And(g.V[e], Not(g.V1[e]), Not(g.V2[e])) if fwd else g.V1[e]), lambda e: k.D[e]))
        for x in k.pre():
            if x.name == "edges counted, along the contour":
                e = z3.FreshConst(Edge, "any")
                know(k.D[k.NX(e)] == k.D[k.NX(e)])
            x.show()
        kind = t.kind = "closed" if inside else "boundary"
        t.T, t.WT, n = ENG.fresh("T", SET), ENG.fresh("WT", SET), ENG.fresh("n", I)
        site.f.update(n=S(n), edge=F.Poison("edge"), left=F.Poison("left"))
        suppose(walk2_post(k, kind, t.T, t.WT, n))
        for b in w.bufs:
            if not b.opaque:
                b.arr = ENG.fresh(b.name, b.arr.sort())
        t.ev = ENG.fresh("edge_of", EVT)
        t.idx, t.cl = ENG.fresh("point_of", INTOF), ENG.fresh("closing", CLOSING)
        suppose(drawn_post(k, t.ev, n, t.idx, t.cl, t.WT))
        t.arr1 = [b.arr for b in w.bufs]
        t.e0, t.q1, t.s1 = e0, q, s
        ENG.mark("a curve is drawn: " + kind)
        return 3 if kind == "closed" else 4

    def post(t, ret):
        g, w = t.g, t.w
        ENG.require(z3.BoolVal(all(w.saddle.arr[x].eq(y) for x, y in t.saddle0.items())), "the saddle array is left alone", assume=False)
        n = g.copy()
        n.flags(w)
        ENG.require(z3.BoolVal(all(b.arr.eq(a) for a, b in zip(t.arr1 if t.calls else t.arr0, w.bufs))), "the points drawn stay as they are", assume=False)
        if not t.calls:
            ENG.require(F.compare("==", ret, 0), "no more curves", tac=SMT, assume=False)
            show([All("every curve is drawn", lambda e: Imp(g.KS[e], g.W[e]), lambda e: g.KS[e], places=True)] + n.over())
            y = card_eq(g.WS, g.KS)
            unfold(y)
            know(y == mk(q_(y), i_(y), j_(y)))
            ENG.require(card(g.WS) == card(g.KS), "every curve counted is drawn", tac=SMT, assume=False)
            ENG.mark("the second pass ends")
            return
        e0 = t.e0
        n.W = t.WT
        if t.kind == "closed":
            n.WC = with_(g.WC, e0)
        n.WS = with_(g.WS, e0)
        r = term(F.num(ret))
        n.off = g.off + r
        for A, Bs in ((n.W, n.V), (n.WC, n.KC), (n.WS, n.KS)):
            card_sub(A, Bs)
        ENG.require(card(n.WS) == card(g.WS) + 1, "another curve is drawn", tac=SMT, assume=False)
        ENG.require(card(n.WS) <= card(n.KS), "no more curves are drawn than were counted", tac=SMT, assume=False)
        ENG.require(n.off <= w.ntotal.t, "no more points are drawn than were counted", tac=SMT, assume=False)
        ENG.require(r >= 2, "a curve has at least two points", tac=SMT, assume=False)
        show(drawn_post(t.k, t.ev, r, t.idx, t.cl, n.W))
        ENG.require(F.compare("==", w.site.get("edge0"), P2(S(i_(e0)), S(j_(e0)))), "the current start", tac=SMT, assume=False)
        ENG.require(F.compare("==", w.site.get("left0"), left_of(t.q1, t.s1)), "the current direction", tac=SMT, assume=False)
        l = n.inv2(e0, w.ntotal.t)
        for x in l:
            if x.name.startswith(("the curves of the starts", "starts of the curves")):
                x.places = True
        show(l)


def trace_pass2(path, first, values=False, once=False):
    seen = {}

    def body():
        t = Tracer2(path, first, seen, values, once)
        t.saddle0 = dict(t.w.saddle.arr)
        t.arr0 = [b.arr for b in t.w.bufs]
        t.post(t.w.c.run("curve_tracer", [t.w.site, 1]))
    return body
