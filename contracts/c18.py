"""C18: track_online, with _update_counter, _rename_eddies_in_time and _merge_reindex_eddies, on arbitrary tables.

The table of tracks grows by one snapshot; the claim about histories is the induction whose step this is:
the table it returns has the shape it requires of the table it receives (see also C20, time_tracking)."""
from contracts.linking import *
from contracts.c17 import backwards


def run(V):
    V.functions |= {"trackeddy.utils." + f for f in ("unlink_eddies_in_previous_times", "track_online", "_update_counter", "_rename_eddies_in_time", "_merge_reindex_eddies")}
    V.assumed.add("pandas: rename, concat, set_index, reset_index, sort_index, index.levels and set_levels as modelled in engine/tables.py")
    V.assumed.add("_detect_nearest by its contract (C16): increasing positions of new eddies, a different candidate for each")
    mod = V.loader(shims={"pandas": TB.make()}).load("trackeddy.utils")

    def body():
        st = {}
        O = tracks()
        N = snapshot(O.t)
        nt = count("ntimes", 0)

        def nearest(p, n):
            if "M" in st:
                raise Unsupported("_detect_nearest is called twice")
            positions(n, N)
            M = st["M"] = matching(N.m, O.q)
            j = z3.Int("j!")
            # a predecessor is the identifier of a candidate
            ENG.assume(z3.ForAll([j], z3.Implies(And(j >= 0, j < M.K.t), And(N.head(M.near(j)).t >= 0, candidate(O, nt, O.wit(M.idx(M.near(j)))))), patterns=[M.near(j)]))
            return M.index, M.nearest
        mod._detect_nearest = nearest

        def form(loop):
            out = {}
            back = "M" in st and backwards(loop, st["M"])

            def matched(a, k):
                M = st["M"]
                return And(M.ma(a), M.jof(a) >= M.K.t - term(k)) if back else M.ma(a, k)
            for nm in loop.names:
                e = loop.locs.get(nm)
                if isinstance(e, TB.DataFrame) and "<tag>" in e.cols:
                    j = [l.name for l in e._levels].index("identifier")
                    idf = e._levels[j].fn

                    def at(k, locs, e=e, idf=idf, j=j):
                        f = (lambda r: core.ite(SB(matched(N.fn["identifier"](r).t, k)), S(st["M"].idx(N.fn["identifier"](r).t)), idf(r))) if "M" in st else idf
                        ls = [TB.Level(l.name, f if i == j else l.fn, TB.LVAny(e.rows, f if i == j else l.fn)) for i, l in enumerate(e._levels)]
                        return e._make(levels=ls)
                    out[nm] = NS(base=lambda locs, at=at: at(0, locs), at=at, step=lambda k, locs, at=at: at(k + 1, locs))
            if len(out) > 1:
                raise Unsupported("%d tables change in %s" % (len(out), loop.lid))
            return out
        for f in ("_rename_eddies_in_time", "track_online"):
            ENG.loop_specs["trackeddy.utils:%s#0" % f] = NS(form=form)
        ENG.mark("entry")
        F = mod.track_online(O.table, N.table, O.t, nt)
        ENG.mark("return with candidates" if "M" in st else "return without candidates")
        check(F, O, N, st.get("M"))
    
    V.explore("track_online", body)


def positions(tab, N):
    """_detect_nearest gives positions in the table of eddies: they are the identifiers (induction)"""
    if not isinstance(tab, TB.DataFrame):
        raise Unsupported("_detect_nearest of something else than a table")
    E = tab.xs(0, level="index")
    cnt, pos, inv = E.rows.enum()
    idf = lambda k: term(E._levels[[l.name for l in E._levels].index("identifier")].fn(pos(k)))
    k = index("position", cnt)

    def place(e):
        p = inv(N.head(e))
        ENG.assume(z3.Implies(And(term(e) >= 0, term(e) < N.m.t), N.head(e).t >= 0))
        ENG.require(z3.Implies(And(term(e) >= 0, term(e) < N.m.t), And(p.t >= 0, p.t < term(cnt), idf(p) == term(e))), "pre of _detect_nearest: one row of index 0 for each new eddy")
        return p
    place(S(z3.IntVal(0)))
    ENG.require(idf(0) == 0, "pre of _detect_nearest: positions are identifiers: the first", assume=False)
    place(k + 1)
    ENG.require(z3.Implies(And(k.t + 1 < term(cnt), idf(k) == k.t), idf(k + 1) == k.t + 1), "pre of _detect_nearest: positions are identifiers: the next one", assume=False)


def check(F, O, N, M):
    if not isinstance(F, TB.DataFrame) or [l.name for l in F._levels] != list(KEYS):
        raise Unsupported("a table indexed by identifier, time and index was expected")
    ENG.require(z3.BoolVal(set(F.cols) == set(NUM) | {"<tag>"}), "post: the columns are kept")
    idF, tmF, ixF = [l.fn for l in F._levels]
    tag = F.cols["<tag>"]
    for l in F._levels:
        ENG.require(z3.BoolVal(isinstance(l.lv, TB.LV) and l.lv.rows.n is F.rows.n), "post: no unused values in the levels of the index", assume=False)
    q, np_, nn = O.q, O.n, N.n
    oid, nid = O.fn["identifier"], N.fn["identifier"]

    def key(g):
        """the identifier before they are numbered again: that of the track, else a new one"""
        a = nid(S(-1 - g)).t
        return z3.If(g >= 0, oid(S(g)).t, z3.If(M.ma(a), M.idx(a), q.t + a) if M is not None else q.t + a)

    def row(base):
        s = S(ENG.fresh(base, I))
        ENG.assume(F.rows.inside(s))
        return s
    s, s2 = row("row"), row("other_row")
    t, t2 = term(tag(s)), term(tag(s2))
    old, new = t >= 0, t < 0
    ENG.require(z3.Implies(old, t < np_.t), "post: rows of the result are rows of the tables (old)")
    ENG.require(z3.Implies(new, -1 - t < nn.t), "post: rows of the result are rows of the tables (new)")
    for c in NUM:
        v = real(F.cols[c](s))
        ENG.require(z3.Implies(old, v == real(O.fn[c](S(t)))), "post: %s of the earlier rows" % c, assume=False)
        ENG.require(z3.Implies(new, v == real(N.fn[c](S(-1 - t)))), "post: %s of the added rows" % c, assume=False)
    for f, c in ((tmF, "time"), (ixF, "index")):
        ENG.require(term(f(s)) == z3.If(old, O.fn[c](S(t)).t, N.fn[c](S(-1 - t)).t), "post: %s of the rows" % c)
    ENG.require(z3.Implies(s.t != s2.t, t != t2), "post: no row is repeated", assume=False)
    r, r2 = index("old_row", np_), index("new_row", nn)
    at = lambda x, g: And(F.rows.inside(x), term(tag(x)) == g)
    there = lambda g, *xs: Or(*[at(S(x), g) for x in xs], F.rows.exists(lambda x: term(tag(x)) == g))
    ENG.require(there(r.t, r.t, nn.t + r.t), "post: every earlier row is there", assume=False)
    ENG.require(there(-1 - r2.t, np_.t + r2.t, r2.t), "post: every row of the snapshot is there", assume=False)
    # identifiers
    i1, i2 = term(idF(s)), term(idF(s2))
    k1, k2 = key(t), key(t2)
    for rk in F.rows._rank.values():
        m1, m2 = term(rk[3](s)), term(rk[3](s2))
        ENG.require((m1 == m2) == (k1 == k2), "lemma: one number for each track before they are numbered again")
        ENG.require((m1 < m2) == (k1 < k2), "lemma: their order before they are numbered again")
    ENG.require((i1 == i2) == (k1 == k2), "post: one identifier for each track")
    ENG.require((i1 < i2) == (k1 < k2), "post: identifiers keep the order")
    ENG.require(i1 >= 0, "post: identifiers are not negative")
    a, a2 = nid(S(-1 - t)).t, nid(S(-1 - t2)).t
    ENG.require(z3.Implies(And(new, t2 < 0, i1 == i2), a == a2), "post: no track has two eddies in the snapshot", assume=False)
    ENG.require(z3.Implies(And(old, t2 < 0, i1 == i2), term(tmF(s)) < term(tmF(s2))), "post: a track has one eddy in the snapshot", assume=False)
    ENG.require(z3.Implies(new, term(tmF(s)) == O.t.t), "post: the added rows have the time of the snapshot", assume=False)
    w = [rk[2](S(i1 - 1)) for rk in F.rows._rank.values()]
    has = Or(*[And(F.rows.inside(x), term(idF(x)) == i1 - 1) for x in w]) if w else F.rows.exists(lambda x: term(idF(x)) == i1 - 1)
    ENG.require(z3.Implies(i1 > 0, has), "post: identifiers have no gaps", assume=False)

    # a track keeps its identifier: induction
    def slot(v):
        o = term(O.wit(v))
        return S(z3.If(at(S(o), o), o, nn.t + o))            # either table may come first
    v = index("v", q)
    ENG.require(And(F.rows.inside(slot(v)), key(term(tag(slot(v)))) == v.t), "lemma: every identifier is still in use")
    fid, kk = (lambda x: term(idF(x))), (lambda x: key(term(tag(x))))

    def order(x, y):
        ENG.assume(z3.Implies(And(F.rows.inside(x), F.rows.inside(y)), And((fid(x) < fid(y)) == (kk(x) < kk(y)), (fid(x) == fid(y)) == (kk(x) == kk(y)))))

    def below(x):
        y = S(ENG.fresh("below", I))
        ENG.assume(z3.Implies(And(F.rows.inside(x), fid(x) > 0), And(F.rows.inside(y), fid(y) == fid(x) - 1)))
        return y

    def inuse(v):
        ENG.assume(z3.Implies(And(v.t >= 0, v.t < q.t), And(F.rows.inside(slot(v)), kk(slot(v)) == v.t)))
    zero = S(z3.IntVal(0))
    y = below(slot(zero))
    inuse(zero)
    order(y, slot(zero))
    ENG.require(z3.Implies(F.rows.inside(y), kk(y) >= 0), "lemma: keys are not negative")
    ENG.require(fid(slot(zero)) == 0, "a track keeps its identifier: the first")
    v1 = v + 1
    inuse(v1)
    y = below(slot(v1))
    order(y, slot(v1))
    order(slot(v), slot(v1))
    order(slot(v), y)
    ENG.require(z3.Implies(And(v1.t < q.t, fid(slot(v)) == v.t), fid(slot(v1)) == v1.t), "a track keeps its identifier: the next one")
    for u in (S(k1), q - 1):                      # by induction
        inuse(u)
        ENG.assume(z3.Implies(And(u.t >= 0, u.t < q.t), fid(slot(u)) == u.t))
        order(slot(u), s)
    ENG.require(z3.Implies(old, i1 == oid(S(t)).t), "post: earlier rows keep their identifier", assume=False)
    if M is not None:
        ENG.require(z3.Implies(And(new, M.ma(a)), i1 == M.idx(a)), "post: a matched eddy has the identifier of its candidate", assume=False)
    ENG.require(z3.Implies(And(new, Not(M.ma(a)) if M is not None else TRUE), i1 >= q.t), "post: the others have identifiers never used before", assume=False)
    x1, x2, z1, z2 = term(ixF(s)), term(ixF(s2)), term(tmF(s)), term(tmF(s2))
    ENG.require(z3.Implies(F.rows.before(s, s2), Or(i1 < i2, And(i1 == i2, Or(z1 < z2, And(z1 == z2, x1 <= x2))))), "post: rows are sorted by identifier, time and vertex")
