"""C17: contracts of _update_better_eddy, _update_counter, _merge_reindex_eddies and of the level loop of _detect_snapshot.

Rows carry a ghost column ("<tag>", not visible to the code) that names the row of the input they come
from; the postcondition is about the table obtained after the two calls the level loop makes."""
from contracts.util import *
from engine import tables as TB, xr
from engine.shims import Lazy

NUM = ("contour_ellipse_error", "contour_gaussian_error", "maxima_y", "maxima_x", "radius_eddy", "other")


def rec(base, ids, sign, m=None):
    """an arbitrary table of eddies 0..m-1, each with one row of index 0 and any number of others"""
    n = count(base + "_rows", 1)
    m = count(base + "_eddies", 1)
    fn = {}
    for c in NUM:
        g = ENG.fresh_fn(base + "_" + c, I, R)
        fn[c] = lambda r, g=g: S(g(term(r)))
    for c in ids:
        g = ENG.fresh_fn(base + "_" + c, I, I)
        fn[c] = lambda r, g=g: S(g(term(r)))
    head = ENG.fresh_fn(base + "_head", I, I)
    e = z3.Int("e!")
    idf, ixf = fn["identifier"], fn["index"]
    h = S(head(e))
    ENG.assume(z3.ForAll([e], z3.Implies(And(e >= 0, e < m.t), And(h.t >= 0, h.t < n.t, idf(h).t == e, ixf(h).t == 0)), patterns=[head(e)]))
    ENG.assume(And(head(0) >= 0, head(0) < n.t, idf(S(head(0))).t == 0, ixf(S(head(0))).t == 0))     # the case e = 0
    ENG.assume(A.forall(n, lambda r: And(idf(r).t >= 0, idf(r).t < m.t, ixf(r).t >= 0, z3.Implies(ixf(r).t == 0, head(idf(r).t) == term(r)))))
    fn["<tag>"] = (lambda r: S(term(r))) if sign > 0 else (lambda r: S(-1 - term(r)))
    t = TB.table(n, {c: fn[c] for c in NUM + ("<tag>",)}, [(c, fn[c]) for c in ids])
    return t, n, m, fn, (lambda v: S(head(term(v))))


def matching(n_new, n_old):
    """what _detect_nearest returns (C16): increasing positions, distinct old identifiers"""
    K = count("matched", 0)
    near, idx, jof, owner = (ENG.fresh_fn(k, I, I) for k in ("near", "idx", "place_of", "owner_of"))
    j, l = z3.Ints("j! l!")
    ENG.assume(z3.ForAll([j], z3.Implies(And(j >= 0, j < K.t), And(near(j) >= 0, near(j) < n_new.t, jof(near(j)) == j, idx(near(j)) >= 0, idx(near(j)) < n_old.t,
                                                                  owner(idx(near(j))) == j)), patterns=[near(j)]))
    ENG.assume(z3.ForAll([j, l], z3.Implies(And(0 <= j, j < l, l < K.t), near(j) < near(l)), patterns=[z3.MultiPattern(near(j), near(l))]))
    index_ = Arr((n_new, 1), lambda i: S(idx(term(i[0]))), "i")
    nearest = Arr((K,), lambda i: S(near(term(i[0]))), "i")
    ma = lambda a, k=K: And(jof(a) >= 0, jof(a) < term(k), near(jof(a)) == a)          # new eddy a is matched
    mo = lambda v, k=K: And(owner(v) >= 0, owner(v) < term(k), idx(near(owner(v))) == v)  # old eddy v is matched
    return NS(K=K, near=near, idx=idx, jof=jof, owner=owner, index=index_, nearest=nearest, ma=ma, mo=mo)


def backwards(loop, M):
    """the matches are visited from the last to the first"""
    if not loop.is_for or isinstance(loop.n, int):
        return False
    i = S(ENG.fresh("visit", I))
    with A.pure():
        it = loop.get(i)
    it = [core.unwrap0(x) for x in it] if isinstance(it, (tuple, list)) else [core.unwrap0(it)]
    inside = And(i.t >= 0, i.t < term(loop.n), M.near(M.K.t - 1 - i.t) >= 0)
    for x in it:
        if isinstance(x, S) and x.isint:
            for want in (M.near(M.K.t - 1 - i.t), M.K.t - 1 - i.t):
                if not ENG.feasible(And(inside, x.t != want)):
                    return True
    return False


def run(V):
    V.functions |= {"trackeddy.utils." + f for f in ("_update_better_eddy", "_update_counter", "_merge_reindex_eddies")}
    V.functions.add("trackeddy.trackeddy.TrackEddy._detect_snapshot")
    V.assumed.add("pandas: xs, loc, drop, rename, concat, set_index, reset_index, sort_index, index.levels and set_levels as modelled in engine/tables.py (levels may hold unused values; rename computes them again, drop and concat keep them)")
    shims = {"pandas": TB.make()}
    mod = V.loader(shims=shims).load("trackeddy.utils")

    def steps():
        p, np_, q, P, hp = rec("old", ("identifier", "index"), 1)
        n, nn, m, N, hn = rec("new", ("identifier", "index"), -1)
        # the levels of the earlier table may keep identifiers that are no longer used
        p._levels[0].lv = TB.LVAny(p.rows, P["identifier"])
        M = matching(m, q)
        j = z3.Int("j!")
        ENG.assume(z3.ForAll([j], z3.Implies(And(j >= 0, j < M.K.t), And(hp(S(M.idx(M.near(j)))).t >= 0, hn(S(M.near(j))).t >= 0)), patterns=[M.near(j)]))     # follows; names the rows
        better = lambda j: And(*[real(P[c](hp(S(M.idx(M.near(j)))))) > real(N[c](hn(S(M.near(j))))) for c in NUM[:2]])
        replaced = lambda v, k=M.K: And(M.mo(term(v), k), better(M.owner(term(v))))
        st = {}

        def bag(k):
            if st.get("back"):
                return (lambda v: And(replaced(v), M.owner(term(v)) >= M.K.t - term(k))), A.exists(k, lambda j: better(M.K.t - 1 - term(j)))
            return (lambda v: replaced(v, k)), A.exists(k, lambda j: better(term(j)))

        def form(loop):
            out = {}
            for nm in loop.names:
                e = loop.locs.get(nm)
                if isinstance(e, TB.DataFrame) and "<tag>" in e.cols:
                    idf = e._levels[0].fn

                    def at(k, locs, e=e, idf=idf, back=backwards(loop, M)):
                        st["back"] = back
                        hit = lambda r: M.ma(N["identifier"](r).t, k) if not back else And(M.ma(N["identifier"](r).t), jj(r) >= M.K.t - term(k))
                        jj = lambda r: M.jof(N["identifier"](r).t)
                        rows = e.rows.filter(lambda r: Not(And(hit(r), Not(better(jj(r))))))
                        f = lambda r: core.ite(SB(And(hit(r), better(jj(r)))), S(M.idx(N["identifier"](r).t)), idf(r))
                        return e._make(rows, levels=[TB.Level(e._levels[0].name, f, TB.LVAny(rows, f))] + e._levels[1:])
                    out[nm] = NS(base=lambda locs, at=at: at(0, locs), at=at, step=lambda k, locs, at=at: at(k + 1, locs))
            if len(out) > 1:
                raise Unsupported("%d tables change in %s" % (len(out), loop.lid))
            return out
        ENG.loop_specs["trackeddy.utils:_update_better_eddy#0"] = NS(form=form, bag=bag)
        ENG.mark("entry")
        p2, n2 = mod._update_better_eddy(p, n, M.index, M.nearest)
        F = mod._merge_reindex_eddies(p2, n2)
        ENG.mark("return")
        check_merge(F, P, N, np_, nn, q, m, M, hp, hn, replaced, better)
    V.explore("_update_better_eddy, _merge_reindex_eddies", steps)
    levels_in_order(V)


class Tok:
    """a table of which only the identity matters; ghost: a term naming it"""

    def __init__(s, g):
        s.g = g

    @property
    def empty(s):
        return SB(EMPTY(s.g))

    def _len(s):
        n = S(LEN(s.g))
        ENG.assume(And(n.t >= 0, (n.t == 0) == EMPTY(s.g)))
        return n

    def _veq(s, o):
        return s.g == o.g if isinstance(o, Tok) else z3.BoolVal(False)

    def __getattr__(s, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported("table.%s" % k)


TABLE = z3.DeclareSort("Table")
EMPTY = z3.Function("empty", TABLE, z3.BoolSort())
LEN = z3.Function("rows", TABLE, I)
FOUND = z3.Function("found_at", R, TABLE)
UPD_P = z3.Function("updated_earlier", TABLE, TABLE, I, I, TABLE)
UPD_N = z3.Function("updated_later", TABLE, TABLE, I, I, TABLE)
MERGE = z3.Function("merged", TABLE, TABLE, TABLE)
NEAR = [z3.Function("nearest_%d" % j, TABLE, TABLE, I) for j in (0, 1)]


def merged(j, c):
    w = [f(j, c) for f in NEAR]
    return MERGE(UPD_P(j, c, *w), UPD_N(j, c, *w))


class Match:
    def __init__(s, g):
        s.g = g

    def __getattr__(s, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported("use of the matches of two tables outside _update_better_eddy")


def levels_in_order(V):
    """the level loop of _detect_snapshot: callees by their contracts"""
    L = V.loader(shims={"pandas": TB.make()})
    mod = L.load("trackeddy.trackeddy")
    st = {}

    def tok(*ts):
        for t in ts:
            if not isinstance(t, Tok):
                raise Unsupported("a table that is not the result of _detect_one_level, _update_better_eddy or _merge_reindex_eddies")

    def one_level(self, level, *a, **k):
        if a or k or not ENG.loopstack:
            raise Unsupported("_detect_one_level with other arguments, or outside a loop")
        ENG.require(z3.BoolVal(st["filtered"] == 1), "the snapshot is filtered once, before the levels", assume=False)
        return Tok(FOUND(real(level))), Match(None)

    def nearest(p, n):
        tok(p, n)
        ENG.require(And(Not(EMPTY(p.g)), Not(EMPTY(n.g))), "pre of _detect_nearest: tables with eddies", assume=False)
        return tuple(Match(f(p.g, n.g)) for f in NEAR)

    def update(p, n, index, near):
        tok(p, n)
        ENG.require(And(index.g == NEAR[0](p.g, n.g), near.g == NEAR[1](p.g, n.g)), "pre of _update_better_eddy: the matches are those of the two tables", assume=False)
        return Tok(UPD_P(p.g, n.g, index.g, near.g)), Tok(UPD_N(p.g, n.g, index.g, near.g))

    def merge(p, n):
        tok(p, n)
        t = MERGE(p.g, n.g)
        ENG.assume(Not(EMPTY(t)))                # the merged table has the eddies of the earlier levels (above)
        return Tok(t)
    mod._detect_nearest, mod._update_better_eddy, mod._merge_reindex_eddies = nearest, update, merge
    T = mod.TrackEddy
    T._detect_one_level = one_level

    def filt(self, data, *a, **k):
        st["filtered"] = st.get("filtered", 0) + 1
        f = k.get("filter", a[0] if a else None)
        ENG.require(z3.BoolVal(f is self.filter), "the filter of the tracker is used", assume=False)
    T._filter_data_ = filt

    def body():
        st.clear()
        st["filtered"] = 0
        nt, n, m, nl = count("times", 1), count("rows", 2), count("cols", 2), count("levels", 0)
        lev = array("levels", (nl,))
        raw = xr.DA(nanarray("field", (nt, n, m)), ("time", "lat", "lon"), name="ssh")
        self = object.__new__(T)
        self.__dict__.update(rawdata=raw, coords={"time": "time", "x": "lon", "y": "lat"}, filter="space")
        t = index("t", nt)
        used = lev[lev != 0]
        J, HAS = ENG.fresh_fn("joint", I, TABLE), ENG.fresh_fn("any_found", I, z3.BoolSort())

        def form(loop):
            if loop.n is None:
                raise Unsupported("the levels are not the items of a for loop")
            whole = core.same(loop.n, lev.shape[0])
            src = lev if whole else used
            ENG.require(term(loop.n) == term(src.shape[0]), "all levels other than zero are used", assume=False)
            i = index("i", loop.n)
            ENG.require(real(loop.get(i)) == real(src.at(i)), "the levels are used in order", assume=False)
            ENG.assume(z3.Not(HAS(0)))
            st["steps"] = st.get("steps", 0) + 1
            st["n"] = loop.n

            def at(k, locs, base):
                if ENG.decide(HAS(term(k))):
                    ENG.assume(Not(EMPTY(J(term(k)))))
                    return Tok(J(term(k)))
                return base

            def step(k, locs, base):
                x = real(loop.get(k))
                c, k = FOUND(x), term(k)
                new = And(Not(EMPTY(c)), x != 0)
                ENG.assume(HAS(k + 1) == Or(HAS(k), new))
                ENG.assume(J(k + 1) == z3.If(new, z3.If(HAS(k), merged(J(k), c), c), J(k)))
                if ENG.decide(HAS(k + 1)):
                    return Tok(J(k + 1))
                return base
            out = {}
            for nm in loop.names:
                e = loop.locs.get(nm, 0)
                if e is None or hasattr(e, "_table"):
                    out[nm] = NS(base=lambda locs, e=e: e, at=lambda k, locs, e=e: at(k, locs, e), step=lambda k, locs, e=e: step(k, locs, e))
            return out
        for k in range(3):
            ENG.loop_specs["trackeddy.trackeddy:TrackEddy._detect_snapshot#%d" % k] = NS(form=form)
        ENG.mark("entry")
        out = self._detect_snapshot(t, lev)
        ENG.mark("return")
        ENG.require(z3.BoolVal(st.get("steps") == 1), "the levels are scanned once")
        N = st["n"]
        if isinstance(out, Tok):
            ENG.require(And(HAS(term(N)), out.g == J(term(N))), "post: the eddies of all levels, merged in their order")
        else:
            ENG.require(Not(HAS(term(N))), "post: no eddies only if none is found at any level")
            ENG.require(z3.BoolVal(hasattr(out, "_table") and bool(out.empty)), "post: an empty table if none is found at any level")
    V.explore("_detect_snapshot: levels", body)


def check_merge(F, P, N, np_, nn, q, m, M, hp, hn, replaced, better):
    if not isinstance(F, TB.DataFrame) or [l.name for l in F._levels] != ["identifier", "index"]:
        raise Unsupported("a table indexed by identifier and index was expected")
    ENG.require(z3.BoolVal(set(F.cols) == set(NUM) | {"<tag>"}), "post: the columns are kept")
    idF, ixF, tag = F._levels[0].fn, F._levels[1].fn, F.cols["<tag>"]

    def row(base):
        s = S(ENG.fresh(base, I))
        ENG.assume(F.rows.inside(s))
        return s

    def key(t):
        """old identifiers come first, then the new eddies in order"""
        a = N["identifier"](S(-1 - t)).t
        return z3.If(t >= 0, P["identifier"](S(t)).t, z3.If(M.ma(a), M.idx(a), q.t + a))
    s, s2 = row("row"), row("other_row")
    t = term(tag(s))
    a = N["identifier"](S(-1 - t)).t
    old, new = t >= 0, t < 0
    ENG.require(z3.Implies(old, t < np_.t), "post: rows of the result are rows of the tables (old)")
    ENG.require(z3.Implies(new, -1 - t < nn.t), "post: rows of the result are rows of the tables (new)")
    ENG.require(z3.Implies(old, Not(replaced(P["identifier"](S(t))))), "post: rows of replaced eddies are gone")
    ENG.require(z3.Implies(new, Or(Not(M.ma(a)), better(M.jof(a)))), "post: a matched eddy that is not better is dropped")
    for c in NUM:
        v = real(F.cols[c](s))
        ENG.require(z3.Implies(old, v == real(P[c](S(t)))), "post: %s of the kept rows" % c, assume=False)
        ENG.require(z3.Implies(new, v == real(N[c](S(-1 - t)))), "post: %s of the added rows" % c, assume=False)
    ENG.require(term(ixF(s)) == z3.If(old, P["index"](S(t)).t, N["index"](S(-1 - t)).t), "post: vertex index of the rows")
    ENG.require(z3.Implies(s.t != s2.t, term(tag(s)) != term(tag(s2))), "post: no row is repeated", assume=False)
    # completeness
    r, r2 = index("old_row", np_), index("new_row", nn)
    at = lambda x, g: And(F.rows.inside(x), term(tag(x)) == g)
    ENG.require(z3.Implies(Not(replaced(P["identifier"](r))), Or(at(r, r.t), at(S(nn.t + r.t), r.t))), "post: every row of the kept eddies is kept", assume=False)
    a2 = N["identifier"](r2).t
    ENG.require(z3.Implies(Or(Not(M.ma(a2)), better(M.jof(a2))), Or(at(S(np_.t + r2.t), -1 - r2.t), at(r2, -1 - r2.t))), "post: every row of the added eddies is there", assume=False)
    # identifiers
    i1, i2 = term(idF(s)), term(idF(s2))
    k1, k2 = key(term(tag(s))), key(term(tag(s2)))
    for r in F.rows._rank.values():
        m1, m2 = term(r[3](s)), term(r[3](s2))
        ENG.require((m1 == m2) == (k1 == k2), "lemma: one number for each eddy before they are numbered again")
        ENG.require((m1 < m2) == (k1 < k2), "lemma: their order before they are numbered again")
    ENG.require((i1 == i2) == (k1 == k2), "post: one identifier for each eddy")
    ENG.require((i1 < i2) == (k1 < k2), "post: identifiers keep the order")
    ENG.require(i1 >= 0, "post: identifiers are not negative")
    # the witness of the ranking, where one was made, else any row
    w = [r[2](S(i1 - 1)) for r in F.rows._rank.values()]
    has = Or(*[And(F.rows.inside(x), term(idF(x)) == i1 - 1) for x in w]) if w else F.rows.exists(lambda x: term(idF(x)) == i1 - 1)
    ENG.require(z3.Implies(i1 > 0, has), "post: identifiers have no gaps", assume=False)
    # an old identifier keeps its number: induction
    def slot(v):
        o, w = term(hp(v)), term(hn(S(M.near(M.owner(term(v))))))
        pick = lambda g, a, b: z3.If(at(S(a), g), a, b)         # either table may come first
        return S(z3.If(replaced(v), pick(-1 - w, np_.t + w, w), pick(o, o, nn.t + o)))
    v = index("v", q)
    ENG.require(And(F.rows.inside(slot(v)), key(term(tag(slot(v)))) == v.t), "lemma: every old identifier is in use")
    fid = lambda x: term(idF(x))
    kk = lambda x: key(term(tag(x)))

    def order(x, y):
        """what was proved above for two arbitrary rows"""
        ENG.assume(z3.Implies(And(F.rows.inside(x), F.rows.inside(y)), And((fid(x) < fid(y)) == (kk(x) < kk(y)), (fid(x) == fid(y)) == (kk(x) == kk(y)))))

    def below(x):
        """a row with the identifier just below that of x"""
        y = S(ENG.fresh("below", I))
        ENG.assume(z3.Implies(And(F.rows.inside(x), fid(x) > 0), And(F.rows.inside(y), fid(y) == fid(x) - 1)))
        return y

    def inuse(v):
        ENG.assume(z3.Implies(And(v.t >= 0, v.t < q.t), And(F.rows.inside(slot(v)), kk(slot(v)) == v.t)))
    zero = S(z3.IntVal(0))
    y = below(slot(zero))
    inuse(zero)
    order(y, slot(zero))
    ENG.require(z3.Implies(F.rows.inside(y), kk(y) >= 0), "lemma: keys are not negative")
    ENG.require(fid(slot(zero)) == 0, "an old eddy keeps its identifier: the first")
    v1 = v + 1
    inuse(v1)
    y = below(slot(v1))
    order(y, slot(v1))
    order(slot(v), slot(v1))
    order(slot(v), y)
    ENG.require(z3.Implies(And(v1.t < q.t, fid(slot(v)) == v.t), fid(slot(v1)) == v1.t), "an old eddy keeps its identifier: the next one")
    last = q - 1
    for u in (S(k1), last):                      # by induction
        inuse(u)
        ENG.assume(z3.Implies(And(u.t >= 0, u.t < q.t), fid(slot(u)) == u.t))
        order(slot(u), s)
    ENG.require(z3.Implies(k1 < q.t, i1 == k1), "post: an eddy that is kept, or replaces one, has the identifier of the earlier level")
    ENG.require(z3.Implies(k1 >= q.t, i1 >= q.t), "post: new eddies come after those of the earlier level")
    x1, x2 = term(ixF(s)), term(ixF(s2))
    ENG.require(z3.Implies(F.rows.before(s, s2), Or(i1 < i2, And(i1 == i2, x1 <= x2))), "post: rows are sorted by identifier and vertex")
