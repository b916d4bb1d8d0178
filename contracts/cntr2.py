"""Contracts of data_init, cntr_trace and what puts the points together (trackeddy/src/cntr.c)."""
import z3
from engine import core, cfront as F
from engine.core import ENG, S, SB, Unsupported, term, And, Or, Not, TRUE, FALSE, I, R
from engine.cfront import mk, know, P2, IMAX, Ptr, Grid, Line, Obj, NULL, Spec, SMT
from contracts.cntr import *
from contracts.cntr import World, Ghost, first_inv

NAMES = ("Z0", "Z1", "EX", "IB", "JB", "S0", "S1", "ROW", "SU", "SD", "O", "DONE", "SDV")
RAW = [("Z0", False), ("Z1", False), ("EX", False), ("IB", False), ("JB", False), ("S0", False), ("S1", False), ("S0", True), ("S1", True),
       ("ROW", False), ("SU", False), ("SD", False), ("O", False), ("DONE", False), ("SDV", False)]
ORDER["data_init"] = ("site nchunk data imax jmax ijmax z zlev0 zlev1 two_levels reg count started ibndy jbndy i_was_chunk icsize jcsize ichunk jchunk irem jrem "
                      "i j ij inum jnum v0 vb va vc vd v0 vb").split()


def at(i, j):
    return mk(False, i, j)


def in_row(e):
    return And(i_(e) >= 0, i_(e) < X, j_(e) >= 0)


def start_rule(e):
    """data_init marks this I-edge inside the grid"""
    return on(e, lambda q, i, j: And(Not(q), above(i - 1, j) != above(i, j), Or(above(i + 1, j) != above(i, j), above(i + 1, j - 1) != above(i, j))))


class Init:
    """data_init; cover: the start marks cover what completeness needs"""

    def __init__(t, path, cover):
        t.cover = cover
        w = t.w = World(path)
        t.d = w.data = Grid("data", P2(1, S(Y) + 1), RAW)
        t.fresh()
        w.c.blocks = [w.data if b.name == "data" else b for b in w.c.blocks]
        t.saddle_writes = set()
        w.saddle.hook = None
        w.saddle.on_store = None
        w.site.f.update(data=Ptr(w.data), edge0=F.Poison("edge0"), edge00=F.Poison("edge00"), edge=F.Poison("edge"), left0=F.Poison("left0"), left=F.Poison("left"),
                        n=0, count=0, level0=F.Poison("level0"))
        w.c.externs["memset"] = w.c.externs["__builtin_memset"] = t.memset
        w.c.specs[("data_init", 0)] = RowLoop(t)
        w.c.specs[("data_init", 1)] = ColumnLoop(t)
        w.c.specs[("data_init", 2)] = Zero(t)
        t.jr = ENG.fresh("first_row", I)
        t.M = ENG.fresh("M", SET)

    def memset(t, c, a, n):
        p, v, b = (x() for x in a)
        w = t.w
        if not (isinstance(p, Ptr) and p.blk is w.saddle and p.off == 0 and isinstance(v, int) and v == 0 and isinstance(b, F.Bytes) and b.ty == "Saddle"):
            raise Unsupported("memset")
        ENG.require(F.compare("==", b.n, P2(0, S(Y))), "memset clears every centre and nothing else", tac=SMT, assume=False)
        for k in w.saddle.arr:
            A = w.saddle.arr[k] = ENG.fresh("saddle_" + k, SET)
            know(all_e(lambda e: Imp(And(Not(q_(e)), in_row(e), j_(e) < Y), Not(A[e])), lambda e: A[e]))
        ENG.mark("centres are reset")
        return p

    def fresh(t):
        t.d.arr = {k: ENG.fresh("data_" + k, SET) for k in NAMES}
        t.d.seen = set()

    def inv(t, h, M, count, started, jr, row):
        """before the position h; row: the row of the scan"""
        D = t.d.arr
        known = lambda e: And(in_row(e), Or(pos_le(e, h), And(pos_lt(at(0, 1), e), pos_le(e, at(i_(h), j_(h) + 1)))))
        node = lambda e: And(Not(q_(e)), known(e))
        pats = [lambda e, k=k: D[k][e] for k in NAMES]
        marked = lambda e: Or(D["S0"][e], D["S1"][e])
        l = [All("values, zones and boundaries", lambda e: Imp(node(e), And(
                D["Z0"][e] == And(pos_le(e, h), j_(e) < Y, above(i_(e), j_(e))), Not(D["Z1"][e]), D["EX"][e] == cell(i_(e), j_(e)),
                D["IB"][e] == And(pos_lt(e, h), Or(i_(e) == 0, i_(e) == X - 1)), D["JB"][e] == And(pos_lt(e, h), Or(j_(e) == 0, j_(e) == Y - 1)),
                Not(D["SU"][e]), Not(D["SD"][e]), Not(D["O"][e]), Not(D["DONE"][e]), Not(D["SDV"][e]))), *[lambda e, k=k: D[k][e] for k in NAMES if k not in ("S0", "S1", "ROW")], places=True)]
        for nm, s in (("S0", False), ("S1", True)):
            l.append(All("start marks (%s)" % nm, lambda e, nm=nm, s=s: Imp(And(known(e), D[nm][e]), And(pos_lt(e, h), valid(e), cut(e), z3.If(bnd(e), zex(e, z3.BoolVal(s)), And(Not(q_(e)), ori(e) == z3.BoolVal(s))))),
                         lambda e, nm=nm: D[nm][e], places=True))
        if t.cover:
            l.append(All("start marks that are needed", lambda e: Imp(And(valid(e), cut(e), pos_lt(e, h), Or(bnd(e), start_rule(e))), marked(e)), lambda e: D["S0"][e], lambda e: D["S1"][e], places=True))
        l += [All("the marks made so far", lambda e: M[e] == And(in_row(e), pos_lt(e, h), marked(e)), lambda e: M[e], lambda e: D["S0"][e], lambda e: D["S1"][e], places=True),
              One("the count of the marks", And(count == card(M), count >= 0)),
              One("the row of the first mark", Imp(started, And(jr >= 0, jr < Y, jr < j_(h) + 0 if row is None else jr < row, D["ROW"][at(z3.IntVal(0), jr)]))),
              All("no mark is before the first row mark", lambda e: Imp(M[e], z3.If(started, j_(e) >= jr, FALSE if row is None else j_(e) == row)), lambda e: M[e], places=True)]
        return l

    def head(t, h, row):
        """an arbitrary state at h"""
        t.fresh()
        t.M, t.count, t.started = ENG.fresh("M", SET), ENG.fresh("count", I), ENG.fresh("started", B)
        suppose(t.inv(h, t.M, t.count, t.started, t.jr, row))
        M = t.M
        know(all_e(lambda e: Imp(M[e], card(M) > 0), lambda e: M[e]))

    def check(t, L, h, M, jr, row, count, started):
        for x in t.inv(h, M, count, started, jr, row):
            x.show()


def bit(v, when):
    ENG.require(Or(F.compare("==", v, 0), F.compare("==", v, 1)), when + " is 0 or 1", tac=SMT, assume=False)


def number(v):
    return term(F.num(v))


class InitLoop(Spec):
    def __init__(s, t):
        s.t = t

    def ids(s, L):
        o = ORDER["data_init"]
        s.v = {n: L.var(n, o) for n in s.names}
        s.dead = {n for n, i in s.v.items() if i in L.unset}      # set by the body before it is read

    def put(s, L, nm, v):
        if nm in s.v and nm not in s.dead:
            L.env[s.v[nm]] = v

    def get(s, L, nm):
        return L.env[s.v[nm]]

    def frame(s, L):
        L.frame |= {("data", k) for k in NAMES}

    def same(s, L, nm, v, when):
        ENG.require(F.compare("==", s.get(L, nm), v), "%s: %s" % (when, nm), tac=SMT, assume=False)


class RowLoop(InitLoop):
    names = ("j", "ij", "jchunk", "count", "started")

    def state(s, L, j, when):
        """obligations at the head of row j"""
        t = s.t
        if "ij" not in s.dead:
            i, jj = F.canon(s.get(L, "ij"))
            ENG.require(And(term(i) == 0, term(jj) == j), when + ": ij", tac=SMT, assume=False)
        s.same(L, "j", S(j), when)
        s.same(L, "jchunk", S(z3.If(j == 0, z3.IntVal(0), z3.If(j <= Y - 1, Y - 1, 2 * Y - 2))), when)

    def enter(s, L):
        t = s.t
        s.ids(L)
        z = z3.IntVal(0)
        s.state(L, z, "first row")
        for nm in ("count", "started"):
            s.same(L, nm, 0, "first row")
        M = ENG.fresh("M0", SET)
        know(all_e(lambda e: Not(M[e]), lambda e: M[e]))
        know(card(M) == 0)
        t.check(L, at(0, 0), M, z, None, z, FALSE)

    def havoc(s, L):
        t = s.t
        j = s.j = ENG.fresh("j", I)
        ENG.assume(And(j >= 0, j <= Y))
        kase = ENG.choose(4)
        ENG.assume([j == 0, And(j >= 1, j < Y - 1), And(j >= 1, j == Y - 1), j == Y][kase])
        s.put(L, "j", S(j))
        s.put(L, "ij", P2(0, S(j)))
        s.put(L, "jchunk", 0 if kase == 0 else S(Y - 1) if kase < 3 else S(2 * Y - 2))
        t.head(at(0, j), None)
        s.put(L, "count", S(t.count))
        s.put(L, "started", SB(t.started))
        s.frame(L)

    def end(s, L):
        t = s.t
        j1 = z3.simplify(s.j + 1)
        s.state(L, j1, "next row")
        count, started = number(s.get(L, "count")), F.truth(s.get(L, "started"))
        bit(s.get(L, "started"), "started")
        jr = z3.If(t.started, t.jr, s.j)
        t.check(L, at(0, j1), t.M, jr, None, count, started)
        decreases([Y - s.j], [Y - j1], "the rows")

    def exit(s, L):
        ENG.mark("every row is scanned")


class ColumnLoop(InitLoop):
    names = ("i", "ij", "ichunk", "count")

    def state(s, L, i, when):
        t = s.t
        a, b = F.canon(s.get(L, "ij"))
        wrap = term(i) == X
        ENG.require(z3.If(wrap, And(term(a) == 0, term(b) == s.row + 1), And(term(a) == i, term(b) == s.row)), when + ": ij", tac=SMT, assume=False)
        ENG.require(F.compare("==", s.get(L, "i"), S(i)), when + ": i", tac=SMT, assume=False)

    def chunk(s, L, v, when):
        ENG.require(F.compare("==", s.get(L, "ichunk"), v), when + ": ichunk", tac=SMT, assume=False)

    def enter(s, L):
        t = s.t
        s.ids(L)
        a, b = F.canon(s.get(L, "ij"))
        s.row = term(b)
        s.state(L, z3.IntVal(0), "first column")
        s.chunk(L, 0, "first column")
        t.check(L, at(0, s.row), t.M, t.jr, s.row, number(s.get(L, "count")), t.started)

    def havoc(s, L):
        t = s.t
        kase = s.kase = ENG.choose(4)
        i = s.i = z3.IntVal(0) if kase == 0 else X if kase == 3 else ENG.fresh("i", I)
        if kase in (1, 2):
            ENG.assume(And(i >= 1, i < X - 1 if kase == 1 else i == X - 1))
        s.put(L, "i", S(z3.simplify(i)) if kase else 0)
        if kase == 3:
            s.put(L, "i", S(X))
        s.put(L, "ij", P2(0, S(s.row + 1)) if kase == 3 else P2(S(i) if kase else 0, S(s.row)))
        s.put(L, "ichunk", 0 if kase == 0 else P2(-1, 1) if kase < 3 else P2(-2, 2))
        s.h = at(0, s.row + 1) if kase == 3 else at(i, s.row)
        st = t.started
        t.head(s.h, s.row)
        ENG.assume(t.started == st)
        s.put(L, "count", S(t.count))
        s.frame(L)

    def end(s, L):
        t = s.t
        i1 = z3.simplify(s.i + 1)
        s.state(L, i1, "next column")
        s.chunk(L, P2(-1, 1) if s.kase < 2 else P2(-2, 2), "next column")
        D = t.d.arr
        A = t.M
        for q in (False, True):
            e = mk(q, s.i, s.row)
            m = Or(D["S0"][e], D["S1"][e])
            A1 = ENG.fresh("M_", SET)
            know(all_e(lambda x, A=A, A1=A1, m=m, e=e: A1[x] == Or(A[x], And(m, x == e)), lambda x, A1=A1: A1[x], lambda x, A=A: A[x]))
            know(card(A1) == card(A) + z3.If(And(m, Not(A[e])), 1, 0))
            A = A1
        h1 = at(0, s.row + 1) if s.kase == 2 else at(i1, s.row)
        t.check(L, h1, A, t.jr, s.row, number(s.get(L, "count")), t.started)
        decreases([X - s.i], [X - i1], "the columns")
        ENG.mark("an edge is looked at")


class Zero(InitLoop):
    names = ("i",)

    def inv(s, p):
        A = s.t.w.saddle.arr["SET"]
        done = (lambda e: And(pos_lt(p, e), j_(e) < Y)) if s.down else lambda e: pos_lt(e, p)
        return [All("centres of cells are not decided", lambda e: Imp(And(Not(q_(e)), in_row(e), done(e)), Not(A[e])), lambda e: A[e], places=True)]

    def enter(s, L):
        s.ids(L)
        s.down = not (isinstance(s.get(L, "i"), int) and s.get(L, "i") == 0)
        s.same(L, "i", P2(-1, S(Y)) if s.down else 0, "first centre")

    def havoc(s, L):
        i, j = s.i, s.j = ENG.fresh("i", I), ENG.fresh("j", I)
        if s.down:
            over = ENG.choose(2)
            ENG.assume(And(i == X - 1, j == -1) if over else And(i >= 0, i < X, j >= 0, j < Y))
            L.env[s.v["i"]] = -1 if over else P2(S(i), S(j))
        else:
            ENG.assume(And(i >= 0, i < X, j >= 0, j <= Y, Imp(j == Y, i == 0)))
            L.env[s.v["i"]] = P2(S(i), S(j))
        for k in s.t.w.saddle.arr:
            s.t.w.saddle.arr[k] = ENG.fresh("saddle_" + k, SET)
            L.frame.add(("saddle", k))
        suppose(s.inv(at(i, j)))

    def end(s, L):
        a, b = F.canon(s.get(L, "i"))
        if s.down:
            a, b = term(a), term(b)
            wrap = s.i == 0
            a, b = z3.simplify(z3.If(a == -1, X - 1, a)), z3.simplify(z3.If(a == -1, b - 1, b))
            ENG.require(And(a == z3.If(wrap, X - 1, s.i - 1), b == z3.If(wrap, s.j - 1, s.j)), "the centres follow each other", tac=SMT, assume=False)
        else:
            ENG.require(And(term(a) == z3.If(s.i == X - 1, 0, s.i + 1), term(b) == z3.If(s.i == X - 1, s.j + 1, s.j)), "the centres follow each other", tac=SMT, assume=False)
        show(s.inv(at(term(a), term(b))))
        m = (lambda i, j: [j + 1, i]) if s.down else (lambda i, j: [Y - j, X - i])
        decreases(m(s.i, s.j), m(term(a), term(b)), "the centres")

    def exit(s, L):
        ENG.mark("centres are reset")


def init(path, cover):
    def body():
        t = Init(path, cover)
        w = t.w
        sd0 = dict(w.saddle.arr)
        z0 = w.zlevel_cells()
        w.c.run("data_init", [w.site, S(z3.Int("nchunk"))])
        site = w.site
        for f in ("edge0", "edge00", "edge", "left0", "left", "n"):
            ENG.require(F.compare("==", site.get(f), 0), "the site starts at the beginning (%s)" % f, tac=SMT, assume=False)
        ENG.require(F.compare("==", site.get("count"), S(t.count)), "the count of the start marks", tac=SMT, assume=False)
        ENG.require(z3.BoolVal(z0 == w.zlevel_cells()), "the level stays as it is", assume=False)
        D = {}
        for nm, v in t.d.arr.items():
            D[nm] = v
            if not z3.is_const(v):              # a branch was joined
                D[nm] = ENG.fresh("end_" + nm, SET)
                ENG.assume(D[nm] == v)
        # the arrays, over the grid
        g = Ghost()
        for nm in ("S0", "S1", "O", "ROW", "DONE"):
            A = ENG.fresh("grid_" + nm, SET)
            know(all_e(lambda e, A=A, nm=nm: A[e] == And(in_row(e), j_(e) < Y, D[nm][e]) if nm in ("S0", "S1") else Imp(And(in_row(e), j_(e) < Y, Not(q_(e))), A[e] == D[nm][e]), lambda e, A=A: A[e], lambda e, nm=nm: D[nm][e]))
            if nm in ("O", "DONE"):
                know(all_e(lambda e, A=A: Imp(Not(And(in_row(e), j_(e) < Y, Not(q_(e)))), Not(A[e])), lambda e, A=A: A[e]))
            setattr(g, nm, A)
        e = z3.Const("e", Edge)
        for nm in ("V", "V1", "V2", "KS", "KC"):
            know(all_e(lambda e, nm=nm: Not(getattr(g, nm)[e]), lambda e, nm=nm: getattr(g, nm)[e]))
        know(g.last == ORIGIN)
        g.U = t.M
        l = [All("every node has its flags", lambda e: Imp(And(in_row(e), j_(e) < Y, Not(q_(e))), And(D["Z0"][e] == above(i_(e), j_(e)), Not(D["Z1"][e]), D["EX"][e] == cell(i_(e), j_(e)),
                 D["IB"][e] == Or(i_(e) == 0, i_(e) == X - 1), D["JB"][e] == Or(j_(e) == 0, j_(e) == Y - 1))), lambda e: D["Z0"][e], places=True),
             One("centres are reset when there is something to trace", Or(t.count == 0, z3.BoolVal(not any(w.saddle.arr[k].eq(sd0[k]) for k in ("SET",)))))]
        show(l)
        if not w.saddle.arr["SET"].eq(sd0["SET"]):
            A = w.saddle.arr["SET"]
            show([All("no centre is decided yet", lambda e: Imp(And(Not(q_(e)), in_row(e), j_(e) < Y), Not(A[e])), lambda e: A[e], places=True)])
        know(all_e(lambda e: crossed(e) == And(valid(e), cut(e)), lambda e: crossed(e)))
        for x in first_inv(g, t.count, t.jr):
            if isinstance(x, All):
                x.places = True
            x.show()
        if cover:
            marked = lambda e: g.U[e]
            show([All("start marks that are needed", lambda e: Imp(And(valid(e), cut(e), Or(bnd(e), start_rule(e))), g.U[e]), lambda e: g.U[e], places=True)])
        ENG.mark("the data are initialised")
    return body


# ------------------------------------------------------------------ memory
class Heap:
    """what is allocated; an allocation succeeds"""

    def __init__(s, c, real):
        s.c, s.real, s.blocks = c, real, []
        c.allocator = s.allocate
        for f in ("PyMem_Malloc", "malloc"):
            c.externs[f] = lambda c, a, n: F.Raw(a[0]())
        for f in ("PyMem_Free", "free"):
            c.externs[f] = s.free

    def allocate(s, n, ty):
        k = len(s.blocks)
        n = F.num(n)
        if isinstance(n, P2) or ty in ("Cdata", "Saddle", "char"):
            raise Unsupported("allocation of " + ty)
        b = Line("%s_%d" % (ty, k), n if not isinstance(n, S) else F.simp(n), (R if s.real else None) if ty == "double" else I)
        s.blocks.append(b)
        s.c.blocks = list(s.c.blocks) + [b]
        return Ptr(b, 0)

    def free(s, c, a, n):
        p = a[0]()
        if isinstance(p, F.Null):
            return None
        if isinstance(p, int) and p == 0:
            return None
        if not isinstance(p, Ptr):
            raise Unsupported("free of something else than an array")
        ENG.require(And(z3.BoolVal(p.blk in s.blocks and p.blk.alive), F.compare("==", p.off, 0)), "memory is freed once, by its address", assume=False)
        p.blk.alive = False
        return None


def line(name, n, sort, off=0):
    return Ptr(Line(name, n, sort), off)


# ------------------------------------------------------------------ reorder
ORDER["reorder"] = "xpp ypp kpp xy c npts i0 i1 subp isp nsp iseg nsegs isegplus i k started maxnsegs xend yend first istart iend".split()


class Segments(Spec):
    """the first loop of reorder: one segment, from the first point to the last"""
    names = ("i", "started", "iseg")

    def __init__(s, t):
        s.t = t

    def case(s, L, i, st, sg, when):
        g = lambda x: L.env[s.v[x]]
        for nm, v in (("i", i), ("started", st), ("iseg", sg)):
            ENG.require(F.compare("==", g(nm), v), "%s: %s" % (when, nm), tac=SMT, assume=False)

    def blocks(s):
        b = s.t.heap.blocks
        if len(b) != 2:
            raise Unsupported("the arrays of the segments")
        return b

    def enter(s, L):
        s.v = {n: L.var(n, ORDER["reorder"]) for n in s.names}
        s.case(L, 0, 0, 0, "first point")

    def havoc(s, L):
        npts = s.t.npts
        k = s.k = ENG.choose(3)
        i = s.i = ENG.fresh("i", I)
        ENG.assume([i == 0, And(i >= 1, i < npts), i == npts][k])
        for nm, v in (("i", 0 if k == 0 else S(i)), ("started", 1 if k == 1 else 0), ("iseg", 1 if k == 2 else 0)):
            L.env[s.v[nm]] = v
        for b in s.blocks():
            b.arr = ENG.fresh(b.name, b.arr.sort())
            L.frame.add((b.name, ""))
        s.content(k, False)

    def content(s, k, ob):
        first, last = s.blocks()
        f = []
        if k >= 1:
            f.append(first.arr[z3.IntVal(0)] == 0)
        if k == 2:
            f.append(last.arr[z3.IntVal(0)] == s.t.npts - 1)
        for c in f:
            if ob:
                ENG.require(c, "the ends of the segment", tac=SMT, assume=False)
            else:
                ENG.assume(c)

    def end(s, L):
        i1 = z3.simplify(s.i + 1)
        if s.k == 0:
            s.case(L, S(i1), 1, 0, "inside the segment")
            s.content(1, True)
        else:
            last = ENG.decide(i1 == s.t.npts)
            s.case(L, S(i1), 0 if last else 1, 1 if last else 0, "the segment goes on")
            s.content(2 if last else 1, True)
        decreases([s.t.npts - s.i], [s.t.npts - i1], "the segments")

    def exit(s, L):
        ENG.mark("the points form one segment")


class Copy(Spec):
    """the last loop of reorder: the points in order"""
    names = ("i", "k", "first")

    def __init__(s, t):
        s.t = t

    def inv(s, k):
        t = s.t
        l = [Each("codes", lambda m: Imp(And(0 <= m, m < k), t.c.arr[m] == z3.If(m == 0, z3.IntVal(1), z3.IntVal(2))), lambda m: t.c.arr[m])]
        if t.real:
            l += [Each("coordinates", lambda m: Imp(And(0 <= m, m < k), And(t.xy.arr[2 * m] == t.x.arr[t.base + m], t.xy.arr[2 * m + 1] == t.y.arr[t.base + m])),
                       lambda m: t.xy.arr[2 * m], lambda m: t.xy.arr[2 * m + 1])]
        return l

    def state(s, L, i, when):
        g = lambda x: L.env[s.v[x]]
        for nm in ("i", "k"):
            ENG.require(F.compare("==", g(nm), i), "%s: %s" % (when, nm), tac=SMT, assume=False)
        ENG.require(F.truth(g("first")) == F.compare("==", i, 0), when + ": first", tac=SMT, assume=False)
        bit(g("first"), when + ": first")

    def enter(s, L):
        s.v = {n: L.var(n, ORDER["reorder"]) for n in s.names}
        s.state(L, 0, "first point")
        show(s.inv(z3.IntVal(0)))

    def havoc(s, L):
        t = s.t
        i = s.i = ENG.fresh("i", I)
        ENG.assume(And(i >= 0, i <= t.npts))
        L.env[s.v["i"]] = L.env[s.v["k"]] = S(i)
        L.env[s.v["first"]] = SB(i == 0)
        for b in (t.xy, t.c):
            b.arr = ENG.fresh(b.name, b.arr.sort())
            L.frame.add((b.name, ""))
        suppose(s.inv(i))

    def end(s, L):
        s.state(L, S(z3.simplify(s.i + 1)), "next point")
        show(s.inv(s.i + 1))
        decreases([s.t.npts - s.i], [s.t.npts - (s.i + 1)], "the copy")
        ENG.mark("a point is copied")


class Reorder:
    """points base, base + 1, ... of the buffers, all of kind 0"""

    def __init__(t, path, real):
        t.real = real
        t.c_ = c = F.C(path)
        t.heap = Heap(c, real)
        t.npts, t.base, t.ntotal = z3.Int("npts"), z3.Int("base"), z3.Int("ntotal")
        ENG.assume(And(t.npts >= 2, t.base >= 0, t.base + t.npts <= t.ntotal))
        n = S(t.ntotal)
        t.x, t.y, t.kinds = Line("x", n, R if real else None), Line("y", n, R if real else None), Line("kinds", n, I)
        know(z3.ForAll([z3.Const("m", I)], Imp(And(z3.Const("m", I) >= t.base, z3.Const("m", I) < t.base + t.npts), t.kinds.arr[z3.Const("m", I)] == 0), patterns=[t.kinds.arr[z3.Const("m", I)]]))
        k0 = t.kinds.arr
        t.kinds.on_read = lambda i: ENG.assume(Imp(And(term(i) >= t.base, term(i) < t.base + t.npts), k0[term(i)] == 0))
        t.xy, t.c = Line("xy", S(2 * t.npts), R if real else None), Line("codes", S(t.npts), I)
        c.blocks = [t.x, t.y, t.kinds, t.xy, t.c]
        c.specs[("reorder", 0)] = Segments(t)
        c.specs[("reorder", 6)] = Copy(t)
        b = S(t.base)
        x0 = [l.arr for l in (t.x, t.y, t.kinds)]
        r = c.run("reorder", [Ptr(t.x, b), Ptr(t.y, b), Ptr(t.kinds, b), Ptr(t.xy, 0), Ptr(t.c, 0), S(t.npts)])
        ENG.require(F.compare("==", r, S(t.npts)), "every point is kept", tac=SMT, assume=False)
        ENG.require(z3.BoolVal(all(a.eq(l.arr) for a, l in zip(x0, (t.x, t.y, t.kinds)))), "the buffers stay as they are", assume=False)
        show(Copy(t).inv(t.npts))
        ENG.mark("points are put in order")


def reorder(path, real):
    return lambda: Reorder(path, real)


def parts_facts(NP, PS, n, total):
    """curve number k has NP[k] points from PS[k] on"""
    return [One("the first curve starts at the first point", PS[z3.IntVal(0)] == 0), One("the last curve ends where the points end", And(PS[n] == total, n >= 0)),
            Each("the curves follow each other", lambda k: Imp(And(0 <= k, k < n), And(NP[k] >= 2, PS[k + 1] == PS[k] + NP[k])), lambda k: NP[k], lambda k: PS[k]),
            Each("the curves are inside the buffers", lambda k: Imp(And(0 <= k, k <= n), And(PS[k] >= 0, PS[k] <= total)), lambda k: PS[k])]


INTARR = z3.ArraySort(I, I)


# ------------------------------------------------------------------ build_cntr_list_v2
ORDER["build_cntr_list_v2"] = "np xp yp kp nparts ntotal all_contours xyv kv dims kdims i k newshape xpp ypp kpp n".split()


class Numpy:
    """the part of numpy and of Python lists that cntr.c uses; allocations succeed"""

    def __init__(s, c, real):
        s.c, s.real = c, real
        c.api[93], c.api[80] = s.new, s.resize
        c.externs["PyList_New"], c.externs["PyList_SetItem"] = s.new_list, s.set_item
        s.items = []

    def new(s, c, a, n):
        nd, dims, ty = a[1](), a[2](), a[3]()
        if not isinstance(nd, int) or not all(isinstance(x, F.Null) or x == 0 for x in (a[4](), a[5](), a[8]())):
            raise Unsupported("an array over other memory")
        d = [dims.blk.read(F.add(dims.off, k)) for k in range(nd)]
        size = 1
        for x in d:
            ENG.require(F.compare(">=", x, 0), "the size of an array is not negative", tac=SMT, assume=False)
            size = F.mul(size, x)
        if ty not in (12, 2):
            raise Unsupported("array of type %r" % (ty,))
        b = Line("array_%d" % len(s.items), size, (R if s.real else None) if ty == 12 else I)
        b.cells = None
        dl = Line("dims", nd, I)
        dl.cells = dict(enumerate(d))
        o = Obj("PyArrayObject", nd=nd, dimensions=Ptr(dl, 0), data=Ptr(b, 0), type=ty)
        c.blocks = list(c.blocks) + [b]
        return o

    def resize(s, c, a, n):
        o, sh = a[0](), a[1]()
        nd, p = sh.get("len"), sh.get("ptr")
        if nd != o.get("nd"):
            raise Unsupported("another number of dimensions")
        for k in range(nd):
            ENG.require(F.compare("==", p.blk.read(F.add(p.off, k)), o.get("dimensions").blk.cells[k]), "the array keeps its size", tac=SMT, assume=False)
        return Obj("None")

    def new_list(s, c, a, n):
        return Obj("list", size=a[0]())

    def set_item(s, c, a, n):
        l, i, v = a[0](), a[1](), a[2]()
        ENG.require(And(F.compare(">=", i, 0), F.compare("<", i, l.get("size"))), "the list has this place", tac=SMT, assume=False)
        s.items.append((l, i, v))
        return 0


class Build:
    """real: the coordinates are followed to the arrays of curve number k0"""

    def __init__(t, path, real):
        t.real = real
        c = t.c = F.C(path)
        t.np_ = Numpy(c, real)
        t.n, t.total, t.ntotal, t.k0 = z3.Int("nparts"), z3.Int("points"), z3.Int("ntotal"), z3.Int("k0")
        t.NP, t.PS = Line("np", S(t.n), I), z3.Const("first_point", INTARR)
        t.x, t.y, t.kinds = (Line(nm, S(t.ntotal), so if so is not False else None) for nm, so in (("x", R if real else None), ("y", R if real else None), ("kinds", I)))
        NP = t.NP.arr
        ENG.assume(And(t.n >= 0, t.total <= t.ntotal))
        suppose(parts_facts(NP, t.PS, t.n, t.total) + zeros(t.kinds.arr, z3.IntVal(0), t.total))
        t.NP.on_read = lambda i: ENG.assume(Imp(And(term(i) >= 0, term(i) < t.n), And(NP[term(i)] >= 2, t.PS[term(i) + 1] == t.PS[term(i)] + NP[term(i)], t.PS[term(i)] >= 0, t.PS[term(i) + 1] <= t.total)))
        if real:
            ENG.assume(And(t.k0 >= 0, t.k0 < t.n))
        c.blocks = [t.NP, t.x, t.y, t.kinds]
        c.stubs["reorder"] = t.reorder
        c.specs[("build_cntr_list_v2", 0)] = Parts(t)
        kept = [b.arr for b in c.blocks]
        r = c.run("build_cntr_list_v2", [Ptr(t.NP, 0), Ptr(t.x, 0), Ptr(t.y, 0), Ptr(t.kinds, 0), S(t.n), S(t.ntotal)])
        ENG.require(z3.BoolVal(isinstance(r, Obj) and r.name == "list"), "a list is returned", assume=False)
        ENG.require(F.compare("==", r.get("size"), S(2 * t.n)), "the list has two arrays for each curve", tac=SMT, assume=False)
        ENG.require(z3.BoolVal(all(a.eq(b.arr) for a, b in zip(kept, c.blocks))), "the buffers stay as they are", assume=False)
        if real:
            show(t.result(t.n))
        ENG.mark("the list is built")

    def result(t, i):
        """the arrays of curve k0 are in the list"""
        n, p = t.NP.arr[t.k0], t.PS[t.k0]
        return [One("the length of the array", Imp(t.k0 < i, t.N0 == n)),
                Each("the rows of the array", lambda m: Imp(And(t.k0 < i, 0 <= m, m < n), And(t.XY0[2 * m] == t.x.arr[p + m], t.XY0[2 * m + 1] == t.y.arr[p + m])), lambda m: t.XY0[2 * m], lambda m: t.XY0[2 * m + 1])]

    def reorder(t, x, y, k, xy, c, n):
        i = t.i
        ok = all(isinstance(p, Ptr) for p in (x, y, k, xy, c)) and (x.blk, y.blk, k.blk) == (t.x, t.y, t.kinds)
        ENG.require(z3.BoolVal(ok), "reorder: the buffers", assume=False)
        for p in (x, y, k):
            ENG.require(F.compare("==", p.off, S(t.PS[i])), "reorder: the points of the curve", tac=SMT, assume=False)
        ENG.require(F.compare("==", n, S(t.NP.arr[i])), "reorder: the number of points", tac=SMT, assume=False)
        n = term(F.num(n))
        base = t.PS[i]
        ENG.require(And(n >= 2, base >= 0, base + n <= t.ntotal), "reorder: the points are in the buffers", tac=SMT, assume=False)
        show(zeros(t.kinds.arr, base, base + n, "reorder: the kind of the points"))
        ENG.require(And(F.compare("==", xy.off, 0), F.compare("==", c.off, 0), F.compare(">=", xy.blk.size, S(2 * n)), F.compare(">=", c.blk.size, S(n))), "reorder: room for the points", tac=SMT, assume=False)
        for b in (xy.blk, c.blk):
            b.arr = ENG.fresh(b.name, b.arr.sort())
        if t.real:
            A, X0, Y0 = xy.blk.arr, t.x.arr, t.y.arr
            suppose([Each("", lambda m: Imp(And(0 <= m, m < n), And(A[2 * m] == X0[base + m], A[2 * m + 1] == Y0[base + m])), lambda m: A[2 * m], lambda m: A[2 * m + 1])])
        t.done = (xy.blk, c.blk)
        return S(n)


class Parts(Spec):
    def __init__(s, t):
        s.t = t

    def state(s, L, i, when):
        g = lambda x: L.env[s.v[x]]
        ENG.require(F.compare("==", g("i"), S(i)), when + ": the number of the curve", tac=SMT, assume=False)
        ENG.require(F.compare("==", g("k"), S(s.t.PS[i])), when + ": its first point", tac=SMT, assume=False)

    def enter(s, L):
        t = s.t
        s.v = {n: L.var(n, ORDER["build_cntr_list_v2"]) for n in ("i", "k")}
        s.state(L, z3.IntVal(0), "first curve")
        t.N0, t.XY0 = ENG.fresh("length", I), ENG.fresh("rows", z3.ArraySort(I, R))
        if t.real:
            show(t.result(z3.IntVal(0)))

    def havoc(s, L):
        t = s.t
        i = t.i = ENG.fresh("i", I)
        ENG.assume(And(i >= 0, i <= t.n))
        L.env[s.v["i"]], L.env[s.v["k"]] = S(i), S(t.PS[i])
        ENG.assume(Imp(i < t.n, And(t.NP.arr[i] >= 2, t.PS[i + 1] == t.PS[i] + t.NP.arr[i], t.PS[i] >= 0, t.PS[i + 1] <= t.total)))
        t.N0, t.XY0 = ENG.fresh("length", I), ENG.fresh("rows", z3.ArraySort(I, R))
        if t.real:
            suppose(t.result(i))
        t.np_.items, t.done = [], None

    def end(s, L):
        t = s.t
        s.state(L, t.i + 1, "next curve")
        it = t.np_.items
        ENG.require(z3.BoolVal(t.done is not None and len(it) == 2 and it[0][0] is it[1][0]), "two arrays are put in the list", assume=False)
        (l, i0, a), (_, i1, b) = it
        if not (isinstance(a, Obj) and a.f.get("type") == 12):
            (i0, a), (i1, b) = (i1, b), (i0, a)
        ENG.require(And(F.compare("==", i0, S(t.i)), F.compare("==", i1, S(t.n + t.i))), "their places in the list", tac=SMT, assume=False)
        ENG.require(z3.BoolVal(a.get("data").blk is t.done[0] and b.get("data").blk is t.done[1] and a.get("nd") == 2 and b.get("nd") == 1), "the arrays are those that were filled", assume=False)
        d = a.get("dimensions").blk.cells
        ENG.require(And(F.compare("==", d[0], S(t.NP.arr[t.i])), F.compare("==", d[1], 2)), "one row for each point", tac=SMT, assume=False)
        if t.real:
            me = t.i == t.k0
            t.N0 = z3.If(me, term(F.num(d[0])), t.N0)
            old, new = t.XY0, ENG.fresh("rows", z3.ArraySort(I, R))
            know(z3.ForAll([z3.Const("m", I)], new[z3.Const("m", I)] == z3.If(me, t.done[0].arr[z3.Const("m", I)], old[z3.Const("m", I)]), patterns=[new[z3.Const("m", I)]]))
            t.XY0 = new
            show(t.result(t.i + 1))
        decreases([t.n - t.i], [t.n - (t.i + 1)], "the list")
        ENG.mark("a curve is put in the list")


def build(path, real):
    return lambda: Build(path, real)


# ------------------------------------------------------------------ cntr_trace
ORDER["cntr_trace"] = "site levels nlevels nchunk c_list xp0 yp0 kp0 nseg0 iseg n nparts ntotal nparts2 ntotal2".split()


class Trace:
    """cntr_trace with one level: data_init, curve_tracer and build_cntr_list_v2 by their contracts"""

    def __init__(t, path, real, once=False):
        t.real, t.once = real, once
        c = t.c = F.C(path)
        t.heap = Heap(c, real)
        c.externs["PyErr_SetString"] = t.error
        t.stage = "start"
        lev = Line("levels", 2, R)
        t.level = S(z3.Real("level")) if real else Dbl(("level",))
        lev.cells = {0: t.level, 1: Dbl() if not real else S(z3.Real("other"))}
        zl = Line("zlevel", 2, R)
        zl.cells = {0: Dbl(), 1: Dbl()}
        t.zl = zl
        keep = {k: Obj(k) for k in ("data", "saddle", "x", "y", "z")}
        t.site = site = Obj("site", imax=IMAX, jmax=S(Y), reg=NULL, zlevel=Ptr(zl, 0), xcp=NULL, ycp=NULL, kcp=NULL, n=0, count=0, **keep,
                            **{k: F.Poison(k) for k in ("edge", "left", "edge0", "left0", "edge00", "level0")})
        c.blocks = [zl]
        c.structs_alive = [site]
        c.stubs.update(data_init=t.data_init, curve_tracer=t.tracer, build_cntr_list_v2=t.build)
        c.specs[("cntr_trace", 0)] = Sizing(t)
        c.specs[("cntr_trace", 1)] = Drawing(t)
        t.tot = t.ks = z3.IntVal(0)
        t.k0 = z3.Int("k0")
        r = c.run("cntr_trace", [site, Ptr(lev, 0), 1, S(z3.Int("nchunk"))])
        ENG.require(z3.BoolVal(t.stage == "built" and r is t.list), "the list is returned", assume=False)
        for f in ("xcp", "ycp", "kcp"):
            ENG.require(z3.BoolVal(isinstance(site.f[f], F.Null)), "the site does not keep the buffers", assume=False)
        ENG.mark("the contours are returned")

    STATE = ("edge0", "left0", "edge00", "imax", "jmax", "reg", "zlevel", "data", "saddle", "x", "y", "z")

    def snap(t):
        t.state = {k: t.site.f[k] for k in t.STATE}
        t.lev = dict(t.zl.cells)

    def untouched(t):
        ENG.require(z3.BoolVal(all(t.site.f[k] is v for k, v in t.state.items()) and all(t.zl.cells[k] is v for k, v in t.lev.items())), "the state of the tracer stays as it is between two curves", assume=False)

    def error(t, c, a, n):
        ENG.require(FALSE, "no error is raised", tac=SMT, assume=False)

    def data_init(t, site, nchunk):
        ENG.require(z3.BoolVal(t.stage == "start" and site is t.site), "data_init comes first", assume=False)
        ENG.require(z3.BoolVal(all(t.zl.cells[k] is t.level for k in (0, 1))), "there is one level", assume=False)
        for k in ("edge0", "left0", "edge00"):
            site.f[k] = Obj("token " + k)
        t.count = Obj("token count")
        site.f.update(n=0, count=t.count)
        t.stage = "sizing"
        t.snap()

    def tracer(t, site, pass2):
        ENG.require(z3.BoolVal(site is t.site), "the site", assume=False)
        t.untouched()
        site.f["n"] = F.Poison("n")
        if not isinstance(pass2, int):
            raise Unsupported("the pass")
        if not pass2:
            ENG.require(z3.BoolVal(t.stage == "sizing" and site.f["count"] is t.count), "the first pass", assume=False)
            k = ENG.choose(3)
            if k == 0:
                t.stage = "sized"
                return 0
            r = ENG.fresh("n", I)
            ENG.assume(r >= 1 if k == 1 else r <= -1)
            ENG.assume(t.tot + (r if k == 1 else -r) <= 2 * card(ALL))
            t.tot, t.ks = t.tot + (r if k == 1 else -r), t.ks + (1 if k == 1 else 0)
            return S(r)
        ENG.require(z3.BoolVal(t.stage == "drawing"), "the second pass", assume=False)
        for p, b in zip((site.get("xcp"), site.get("ycp"), site.get("kcp")), t.bufs):
            ENG.require(z3.BoolVal(isinstance(p, Ptr) and p.blk is b and b.alive), "the buffers", assume=False)
            ENG.require(F.compare("==", p.off, S(t.off)), "the place of the points", tac=SMT, assume=False)
            ENG.require(F.compare("==", b.size, S(t.tot)), "the size of the buffers", tac=SMT, assume=False)
        if ENG.choose(2) == 0:
            ENG.assume(t.parts == t.ks)
            t.stage = "drawn"
            if t.once:          # completeness
                know(all_e(lambda e: t.W[e] == crossed(e), lambda e: t.W[e], lambda e: crossed(e)))
            return 0
        r = ENG.fresh("n", I)
        ENG.assume(And(r >= 2, t.off + r <= t.tot, t.parts + 1 <= t.ks))
        old = [b.arr for b in t.bufs]
        for b in t.bufs:
            b.arr = ENG.fresh(b.name, b.arr.sort())
        suppose(kept_facts(t.bufs[2].arr, old[2], t.off) + zeros(t.bufs[2].arr, t.off, t.off + r))
        if t.real:
            ev, t.EV = t.EV, ENG.fresh("edge_of", EVT)
            for a, b in ((t.bufs[0].arr, old[0]), (t.bufs[1].arr, old[1]), (t.EV, ev)):
                suppose(kept_facts(a, b, t.off))
            suppose(curve_facts(t.bufs[0].arr, t.bufs[1].arr, t.EV, t.off, r))
        if t.once:
            cl, t.CL = t.CL, ENG.fresh("closing", CLOSING)
            t.IDX, t.W = ENG.fresh("point_of", INTOF), ENG.fresh("W", SET)
            suppose(once_facts(t.W, t.EV, t.IDX, t.CL, t.off + r) + kept_facts(t.CL, cl, t.off) + closing_facts(t.EV, t.CL, t.off, r))
        t.off, t.parts = t.off + r, t.parts + 1
        return S(r)

    def start(t):
        """the buffers are there"""
        site = t.site
        ENG.require(z3.BoolVal(t.stage == "sized"), "the second pass follows the first", assume=False)
        p = [site.f[k] for k in ("xcp", "ycp", "kcp")]
        if not all(isinstance(x, Ptr) for x in p) or len({id(x.blk) for x in p}) != 3:
            raise Unsupported("the buffers of the site")
        t.bufs = [x.blk for x in p]
        rest = [b for b in t.heap.blocks if b not in t.bufs]
        if len(rest) != 1:
            raise Unsupported("the array of the numbers of points")
        t.nseg = rest[0]
        t.off = t.parts = z3.IntVal(0)
        t.EV, t.PS = ENG.fresh("edge_of", EVT), ENG.fresh("first_point", INTARR)
        ENG.assume(t.PS[z3.IntVal(0)] == 0)
        t.IDX, t.W, t.CL = ENG.fresh("point_of", INTOF), ENG.fresh("W", SET), ENG.fresh("closing", CLOSING)
        if t.once:              # nothing is drawn yet
            know(all_e(lambda e: Not(t.W[e]), lambda e: t.W[e]))
        t.stage = "drawing"

    def facts(t, W=None):
        l = (once_facts(W or t.W, t.EV, t.IDX, t.CL, t.off) if t.once else []) + parts_facts(t.nseg.arr, t.PS, t.parts, t.off) + zeros(t.bufs[2].arr, z3.IntVal(0), t.off)
        if t.real:
            n, p = t.nseg.arr[t.k0], t.PS[t.k0]
            on_ = And(0 <= t.k0, t.k0 < t.parts)
            for x in curve_facts(t.bufs[0].arr, t.bufs[1].arr, t.EV, p, n) + (closing_facts(t.EV, t.CL, p, n) if t.once else []):
                if isinstance(x, Each):
                    l.append(Each(x.name, lambda m, x=x: Imp(on_, x.f(m)), *x.pats))
                else:
                    l.append(One(x.name, Imp(on_, x.c)))
        return l

    def build(t, np, xp, yp, kp, nparts, ntotal):
        ENG.require(z3.BoolVal(t.stage == "drawn"), "the list is built when every curve is drawn", assume=False)
        for p, b in zip((xp, yp, kp, np), t.bufs + [t.nseg]):
            ENG.require(z3.BoolVal(isinstance(p, Ptr) and p.blk is b and b.alive), "build: the buffers", assume=False)
            ENG.require(F.compare("==", p.off, 0), "build: the start of the buffers", tac=SMT, assume=False)
        ENG.require(And(F.compare("==", nparts, S(t.parts)), t.parts >= 0, t.off <= t.tot), "build: every curve", tac=SMT, assume=False)
        for b in t.bufs:
            ENG.require(F.compare("==", b.size, S(t.tot)), "build: the size of the buffers", tac=SMT, assume=False)
        show(t.facts())
        if t.once:
            e, m = z3.FreshConst(Edge, "any"), z3.FreshConst(I, "m")
            ENG.require(Imp(crossed(e), And(0 <= t.IDX[e], t.IDX[e] < t.off, t.EV[t.IDX[e]] == e)), "every crossed edge has its point", tac=SMT, assume=False)
            ENG.require(Imp(And(0 <= m, m < t.off), And(crossed(t.EV[m]), Or(t.IDX[t.EV[m]] == m, t.CL[m]))), "every point is the only one of a crossed edge, or closes a curve", tac=SMT, assume=False)
        t.stage = "built"
        t.list = Obj("list")
        return t.list


class Sizing(Spec):
    names = ("nparts", "ntotal")

    def __init__(s, t):
        s.t = t

    def state(s, L, when):
        t = s.t
        for nm, v in (("nparts", t.ks), ("ntotal", t.tot)):
            ENG.require(F.compare("==", L.env[s.v[nm]], S(v)), "%s: %s" % (when, nm), tac=SMT, assume=False)
        ENG.require(z3.BoolVal(t.stage == "sizing"), when + ": the first pass", assume=False)

    def enter(s, L):
        s.v = {n: L.var(n, ORDER["cntr_trace"]) for n in s.names}
        s.state(L, "before the first curve")

    def havoc(s, L):
        t = s.t
        t.ks, t.tot = ENG.fresh("curves", I), ENG.fresh("points", I)
        ENG.assume(And(t.ks >= 0, t.tot >= 0))
        L.env[s.v["nparts"]], L.env[s.v["ntotal"]] = S(t.ks), S(t.tot)
        L.frame.add(("site", "n"))
        s.tot, s.most = t.tot, 2 * card(ALL)

    def end(s, L):
        s.state(L, "after a curve")
        decreases([s.most - s.tot], [s.most - s.t.tot], "the first pass")
        ENG.require(And(s.t.ks >= 0, s.t.tot >= 0), "counts", tac=SMT, assume=False)
        ENG.mark("a curve is counted")


class Drawing(Spec):
    def __init__(s, t):
        s.t = t

    def ids(s, L):
        """the number of points, and the counters of the curves"""
        o = ORDER["cntr_trace"]
        s.total, s.counters = L.var("ntotal2", o), []
        for n in ("iseg", "nparts2"):
            try:
                s.counters.append((n, L.var(n, o)))
            except Unsupported:
                pass
        if not s.counters:
            raise Unsupported("the number of the curve")

    def state(s, L, when):
        t = s.t
        for nm, i, v in [(n, i, t.parts) for n, i in s.counters] + [("ntotal2", s.total, t.off)]:
            ENG.require(F.compare("==", L.env[i], S(v)), "%s: %s" % (when, nm), tac=SMT, assume=False)
        for k, b in zip(("xcp", "ycp", "kcp"), t.bufs):
            p = t.site.get(k)
            ENG.require(And(z3.BoolVal(isinstance(p, Ptr) and p.blk is b), F.compare("==", p.off, S(t.off))), "%s: %s" % (when, k), tac=SMT, assume=False)
        ENG.require(And(t.parts >= 0, t.parts <= t.ks, t.off >= 0, t.off <= t.tot), when + ": counts", tac=SMT, assume=False)

    def enter(s, L):
        t = s.t
        s.ids(L)
        t.start()
        s.state(L, "before the first curve")
        show(t.facts())

    def havoc(s, L):
        t = s.t
        t.off, t.parts = ENG.fresh("drawn_points", I), ENG.fresh("drawn", I)
        ENG.assume(And(t.parts >= 0, t.parts <= t.ks, t.off >= 0, t.off <= t.tot))
        for n, i in s.counters:
            L.env[i] = S(t.parts)
        L.env[s.total] = S(t.off)
        for k, b in zip(("xcp", "ycp", "kcp"), t.bufs):
            t.site.f[k] = Ptr(b, S(t.off))
            b.arr = ENG.fresh(b.name, b.arr.sort())
            L.frame |= {("site", k), (b.name, "")}
        t.nseg.arr = ENG.fresh("long", t.nseg.arr.sort())
        t.EV, t.PS = ENG.fresh("edge_of", EVT), ENG.fresh("first_point", INTARR)
        t.IDX, t.W, t.CL = ENG.fresh("point_of", INTOF), ENG.fresh("W", SET), ENG.fresh("closing", CLOSING)
        L.frame |= {("site", "n"), (t.nseg.name, "")}
        suppose(t.facts())
        s.parts = t.parts

    def end(s, L):
        t = s.t
        ENG.require(z3.BoolVal(t.stage == "drawing"), "one curve at a time", assume=False)
        PS1 = ENG.fresh("first_point", INTARR)
        m = z3.Const("m", I)
        know(z3.ForAll([m], PS1[m] == z3.If(m == t.parts, t.off, t.PS[m]), patterns=[PS1[m]]))
        know(z3.ForAll([m], PS1[m] == z3.If(m == t.parts, t.off, t.PS[m]), patterns=[t.PS[m]]))
        t.PS = PS1
        s.state(L, "after a curve")
        show(t.facts())
        decreases([t.ks - s.parts], [t.ks - t.parts], "the second pass")
        ENG.mark("a curve is drawn")


def trace(path, real, once=False):
    return lambda: Trace(path, real, once)


# ------------------------------------------------------------------ the Python type
class Made:
    """Cntr(x, y, z): Cntr_new with cntr_new, Cntr_init with cntr_init, and Cntr_dealloc with Cntr_clear and cntr_del"""

    def __init__(t, path):
        c = t.c = F.C(path)
        ENG.assume(size())
        t.errors = 0
        c.allocator = t.allocate
        c.externs["PyMem_Malloc"] = lambda c, a, n: F.Raw(a[0]())
        c.externs["PyArg_ParseTupleAndKeywords"] = t.parse
        c.externs["PyObject_TypeCheck"] = lambda c, a, n: 1
        c.externs["PyErr_SetString"] = t.error
        c.externs["Py_XDECREF"] = lambda c, a, n: t.release(a[0]())
        for f_ in ("PyMem_Free", "free"):
            c.externs[f_] = t.free
        c.externs["Py_TYPE"] = lambda c, a, n: a[0]().get("ob_type")
        t.freed, t.released, t.gone, t.blocks = [], [], [], []
        c.api[45] = lambda c, a, n: Obj("descr", type=a[0]())
        c.api[69] = t.from_any
        c.new_objects = t.objects = []
        t.arrays = {}
        t.dims = {n: (ENG.fresh(n + "_rows", I), ENG.fresh(n + "_columns", I)) for n in "xy"}
        t.args = {n: Obj("argument " + n) for n in "xyz"}
        t.me = me = Obj("Cntr")
        ty = Obj("type", tp_alloc=F.Method(lambda ty, n: me), tp_free=F.Method(t.tp_free))
        me.f["ob_type"] = ty
        r = c.run("Cntr_new", [ty, Obj("args"), NULL])
        ENG.require(z3.BoolVal(r is me), "a new object is returned", assume=False)
        site = me.f.get("site")
        ENG.require(z3.BoolVal(isinstance(site, Obj) and site in t.objects), "a new object has a site", assume=False)
        for f in ("xpa", "ypa", "zpa", "mpa"):
            ENG.require(z3.BoolVal(isinstance(me.f.get(f), F.Null)), "a new object has no arrays (%s)" % f, assume=False)
        for f in ("data", "reg", "saddle", "xcp", "ycp", "kcp", "x", "y", "z"):
            ENG.require(z3.BoolVal(isinstance(site.f.get(f), F.Null)), "a new site has no arrays (%s)" % f, assume=False)
        zl = Line("zlevel", 2, R)
        site.f["zlevel"] = Ptr(zl, 0)
        t.site = site
        c.structs_alive = [site]
        r = c.run("Cntr_init", [me, Obj("args"), NULL])
        bad = ENG.decide(Not(And(*[And(a == Y, b == X) for a, b in t.dims.values()])))
        ENG.require(F.compare("==", r, -1 if bad else 0), "the three arrays have one shape", tac=SMT, assume=False)
        ENG.require(z3.BoolVal((t.errors > 0) == bad), "an error is raised when they have not, and only then", assume=False)
        if bad:
            ENG.mark("arrays of different shapes are refused")
            ENG.require(z3.BoolVal(me.f["site"] is site and not t.freed), "a site without arrays remains", assume=False)
            t.end()
            return
        g = site.get
        ENG.require(And(F.compare("==", g("imax"), IMAX), F.compare("==", g("jmax"), S(Y))), "the size of the grid", tac=SMT, assume=False)
        for nm, n in (("data", P2(1, S(Y) + 1)), ("saddle", P2(0, S(Y)))):
            p = g(nm)
            ok = isinstance(p, Ptr) and isinstance(p.blk, Grid) and p.blk.name.startswith({"data": "Cdata", "saddle": "Saddle"}[nm])
            ENG.require(z3.BoolVal(ok), "the array " + nm, assume=False)
            ENG.require(And(F.compare("==", p.off, 0), F.compare("==", p.blk.size, n)), "room in the array " + nm, tac=SMT, assume=False)
        ENG.require(z3.BoolVal(isinstance(site.f["reg"], F.Null)), "there is no mask", assume=False)
        for n in "xyz":
            p, o = g(n), me.f[n + "pa"]
            ENG.require(z3.BoolVal(isinstance(p, Ptr) and p.blk is t.arrays[n].f["data"].blk and o is t.arrays[n]), "the array %s belongs to the object and is kept" % n, assume=False)
            ENG.require(F.compare("==", p.off, 0), "the start of the array " + n, tac=SMT, assume=False)
        ENG.require(z3.BoolVal(not t.released and not t.freed), "the arrays are kept", assume=False)
        ENG.mark("a site is made")
        t.end()

    def end(t):
        """the object is released: nothing is released twice, nothing is used afterwards"""
        t.c.run("Cntr_dealloc", [t.me])           # memory that is not freed at all would be lost, not misused
        ENG.require(z3.BoolVal(len(t.gone) == 1), "the object is freed", assume=False)
        ENG.mark("an object is released")

    def release(t, p):
        if isinstance(p, F.Null) or (isinstance(p, int) and p == 0):
            return
        ENG.require(z3.BoolVal(any(p is x for x in t.arrays.values()) and not any(p is x for x in t.released)), "a reference is given back once", assume=False)
        t.released.append(p)

    def free(t, c, a, n):
        p = a[0]()
        if isinstance(p, F.Null) or (isinstance(p, int) and p == 0):
            return
        x = p.blk if isinstance(p, Ptr) else p
        ok = any(x is y for y in t.blocks + [t.site]) and not any(x is y for y in t.freed)
        ENG.require(z3.BoolVal(ok), "memory is freed once", assume=False)
        if isinstance(p, Ptr):
            ENG.require(F.compare("==", p.off, 0), "memory is freed by its address", tac=SMT, assume=False)
        t.freed.append(x)
        if isinstance(x, Obj):
            x.f = {}

    def tp_free(t, me):
        ENG.require(z3.BoolVal(me is t.me and not t.gone), "the object is freed once", assume=False)
        t.gone.append(me)
        me.f = {}

    def allocate(t, n, ty):
        if ty not in ("Cdata", "Saddle"):
            raise Unsupported("allocation of " + ty)
        t.blocks.append(Grid(ty, n, []))
        return Ptr(t.blocks[-1], 0)

    def error(t, c, a, n):
        t.errors += 1

    def parse(t, c, a, n):
        out = [x() for x in a[2:]]
        fmt = out[0].get("text") if isinstance(out[0], Obj) else None
        if not fmt or fmt.strip('"') != "OOO|O" or len(out) != 6:
            raise Unsupported("the arguments of Cntr")
        for o, k in zip(out[2:5], "xyz"):
            o.get("var").set(t.args[k])
        return 1

    def from_any(t, c, a, n):
        op, d, lo, hi, fl = [x() for x in a[:5]]
        nm = [k for k, v in t.args.items() if v is op]
        if not nm or d.get("type") != 12 or (lo, hi) != (2, 2) or fl & 0x101 != 0x101:
            raise Unsupported("the conversion of an argument")
        nm = nm[0]
        dl = Line("dims", 2, I)
        dl.cells = {0: S(Y), 1: IMAX} if nm == "z" else {k: S(v) for k, v in enumerate(t.dims[nm])}
        t.arrays[nm] = Obj("PyArrayObject", nd=2, dimensions=Ptr(dl, 0), data=Ptr(Line("array " + nm, 1, None), 0))
        return t.arrays[nm]


def made(path):
    return lambda: Made(path)


class Called:
    """Cntr.trace(level)"""

    def __init__(t, path):
        c = t.c = F.C(path)
        level = Dbl(("level",))
        site, out = Obj("site"), Obj("list")

        def parse(c, a, n):
            o = [x() for x in a[2:]]
            if o[0].get("text").strip('"') != "d|dl" or not isinstance(o[2], Ptr) or o[2].off != 0:
                raise Unsupported("the arguments of trace")
            t.lev = o[2].blk
            t.lev.cells[0] = level
            return 1

        def trace(s, levels, n, nchunk):
            ENG.require(z3.BoolVal(s is site and isinstance(levels, Ptr) and levels.blk.cells[levels.off] is level), "the site and the level", assume=False)
            ENG.require(F.compare("==", n, 1), "one level is traced", tac=SMT, assume=False)
            return out
        c.externs["PyArg_ParseTupleAndKeywords"] = parse
        c.stubs["cntr_trace"] = trace
        r = c.run("Cntr_trace", [Obj("Cntr", site=site), Obj("args"), NULL])
        ENG.require(z3.BoolVal(r is out), "the list is returned", assume=False)
        ENG.mark("the level is traced")


def called(path):
    return lambda: Called(path)


# ------------------------------------------------------------------ completeness
RULE = z3.Function("start_rule", Edge, B)


def key_lt(e, f):
    """e is before f: row by row from below, vertical edges of a row before the horizontal ones above them, from the left"""
    a = lambda e: 2 * j_(e) + z3.If(q_(e), 1, 0)
    return Or(a(e) < a(f), And(a(e) == a(f), i_(e) < i_(f)))


def least_lemma():
    """the first edge of a contour without ends on the boundary is one where data_init puts a start mark"""
    ENG.assume(size())
    q = bool(ENG.choose(2))
    e = mk(q, z3.Int("i"), z3.Int("j"))
    ENG.assume(And(valid(e), cut(e), Not(bnd(e))))
    o = ori(e)
    f, b = step(e, o)[0], step(e, Not(o))[0]
    ENG.require(Not(And(key_lt(e, f), key_lt(e, b), Not(start_rule(e)))), "the first edge of a contour that stays inside the grid gets a start mark", tac=SMT, assume=False)
    e1, e2 = z3.Const("e1", Edge), z3.Const("e2", Edge)
    ENG.require(Or(key_lt(e1, e2), key_lt(e2, e1), And(q_(e1) == q_(e2), i_(e1) == i_(e2), j_(e1) == j_(e2))), "the order is total", tac=SMT, assume=False)
    ENG.mark("a least edge")


def complete():
    """what the first pass and the second pass leave behind: every crossed edge is drawn"""
    ENG.assume(size())
    FORWARD.know()
    V, V1, KS, O, M0, W, S0, S1 = (z3.Const(n, SET) for n in ("V", "V1", "KS", "O", "M0", "W", "S0", "S1"))
    g = Ghost()
    U = ENG.fresh("U", SET)
    g.V, g.V1, g.KS, g.O, g.M0, g.U, g.S0, g.S1 = V, V1, KS, O, M0, U, S0, S1
    Dst, lo = g.Dst, g.lo
    suppose(visited_inv(FORWARD, V, O))
    suppose([All("every start mark is visited", lambda e: Not(U[e]), lambda e: U[e])] + g.cover())
    suppose([All("start marks that are needed", lambda e: Imp(And(crossed(e), Or(BN(e), RULE(e))), M0[e]), lambda e: BN(e), lambda e: RULE(e)),
             All("edges drawn were counted", lambda e: Imp(W[e], V[e]), lambda e: W[e]),
             All("contours drawn are complete (1)", lambda e: Imp(And(W[e], ZF(e)), W[FWF(e)]), lambda e: FWF(e)),
             All("contours drawn are complete (2)", lambda e: Imp(And(W[e], ZB(e)), W[BKF(e)]), lambda e: BKF(e)),
             All("every curve is drawn", lambda e: Imp(KS[e], W[e]), lambda e: KS[e])])
    C_ = lambda e: And(crossed(e), Not(V[e]))
    know(all_e(lambda e: Imp(crossed(e), And(Or(Z0(e), Z1(e)), BN(e) == Not(And(Z0(e), Z1(e))))), lambda e: crossed(e)))
    case = ENG.choose(3)
    e, f = z3.Const("e", Edge), z3.Const("f", Edge)
    if case == 0:
        # BK maps the crossed edges that were not visited to such edges, one to one
        know(And(C_(e), C_(f)))
        ENG.require(And(Not(BN(e)), C_(BKF(e))), "the contour before an edge not visited is not visited", tac=SMT, assume=False)
        ENG.require(Imp(BKF(e) == BKF(f), FWF(BKF(e)) == FWF(BKF(f))), "one to one (1)", tac=SMT, assume=False)
        ENG.require(Imp(BKF(e) == BKF(f), e == f), "one to one", tac=SMT, assume=False)
        ENG.mark("edges not visited, backward")
    elif case == 1:
        # finite: BK is also onto, so that FW leads to edges not visited; e: the least of them
        know(C_(e))
        know(all_e(lambda x: Imp(C_(x), C_(BKF(x))), lambda x: BKF(x)))
        know(all_e(lambda x: Imp(C_(x), C_(FWF(x))), lambda x: FWF(x)))
        least = lambda x: Or(x == e, key_lt(e, x))
        for x in (FWF(e), BKF(e)):
            know(Imp(C_(x), least(x)))
        know(And(FWF(e) == FWF(e), BKF(e) == BKF(e)))
        know(Imp(And(crossed(e), Not(BN(e)), key_lt(e, FWF(e)), key_lt(e, BKF(e))), RULE(e)))      # least_lemma
        know(Or(RULE(e), Not(RULE(e))))
        ENG.require(FALSE, "every crossed edge is visited", tac=SMT, assume=False)
    else:
        know(all_e(lambda x: Imp(crossed(x), V[x]), lambda x: crossed(x)))
        know(And(crossed(e), Not(W[e])))
        know(jt(e) >= 0)
        for x in (FWF(e), BKF(e)):                      # e: one of the least rank
            know(Imp(And(V[x], Not(W[x])), Dst[x] >= Dst[e]))
        FORWARD.at(e)
        ENG.require(FALSE, "every crossed edge is drawn", tac=SMT, assume=False)
