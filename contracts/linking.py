"""track_online on an arbitrary table of tracks and an arbitrary snapshot (C18, C19)."""
from contracts.util import *
from contracts.c17 import NUM, matching
from engine import tables as TB

KEYS = ("identifier", "time", "index")


def tracks():
    """tracks 0..q-1, each with a record (rows from index 0 on) in some of the earlier snapshots; sorted"""
    n, q, t = count("rows", 1), count("tracks", 1), count("t", 1)
    fn = {c: (lambda r, g=ENG.fresh_fn("old_" + c, I, R): S(g(term(r)))) for c in NUM}
    fn.update({c: (lambda r, g=ENG.fresh_fn("old_" + c, I, I): S(g(term(r)))) for c in KEYS})
    idf, tm, ix = [fn[c] for c in KEYS]
    fn["<tag>"] = lambda r: S(term(r))
    last, wit = ENG.fresh_fn("last_time", I, I), ENG.fresh_fn("last_row", I, I)
    v = z3.Int("v!")
    ENG.assume(A.forall(n, lambda r: And(idf(r).t >= 0, idf(r).t < q.t, tm(r).t >= 0, tm(r).t < t.t, ix(r).t >= 0, tm(r).t <= last(idf(r).t))))
    w = S(wit(v))
    ENG.assume(z3.ForAll([v], z3.Implies(And(v >= 0, v < q.t), And(w.t >= 0, w.t < n.t, idf(w).t == v, tm(w).t == last(v), ix(w).t == 0)), patterns=[wit(v)]))
    w = S(wit(z3.IntVal(0)))
    ENG.assume(And(w.t >= 0, w.t < n.t, idf(w).t == 0, tm(w).t == last(0), ix(w).t == 0))
    order = lambda a, b: TB.lexless([fn[c](a) for c in KEYS], [fn[c](b) for c in KEYS])
    ENG.assume(A.forallN((n, n), lambda a, b: z3.Implies(term(a) < term(b), Not(order(S(term(b)), S(term(a)))))))
    tab = TB.table(n, {c: fn[c] for c in NUM + ("<tag>",)}, [(c, fn[c]) for c in KEYS])
    return NS(table=tab, n=n, q=q, t=t, fn=fn, last=lambda v: last(term(v)), wit=lambda v: S(wit(term(v))))


def snapshot(t):
    """eddies 0..m-1 of snapshot t, each with a row of index 0; sorted"""
    n, m = count("new_rows", 1), count("new_eddies", 1)
    fn = {c: (lambda r, g=ENG.fresh_fn("new_" + c, I, R): S(g(term(r)))) for c in NUM}
    fn.update({c: (lambda r, g=ENG.fresh_fn("new_" + c, I, I): S(g(term(r)))) for c in ("identifier", "index")})
    fn["time"] = lambda r: t
    fn["<tag>"] = lambda r: S(-1 - term(r))
    idf, ix = fn["identifier"], fn["index"]
    head = ENG.fresh_fn("head", I, I)
    e = z3.Int("e!")
    h = S(head(e))
    ENG.assume(z3.ForAll([e], z3.Implies(And(e >= 0, e < m.t), And(h.t >= 0, h.t < n.t, idf(h).t == e, ix(h).t == 0)), patterns=[head(e)]))
    ENG.assume(A.forall(n, lambda r: And(idf(r).t >= 0, idf(r).t < m.t, ix(r).t >= 0, z3.Implies(ix(r).t == 0, head(idf(r).t) == term(r)))))
    ENG.assume(A.forallN((n, n), lambda a, b: z3.Implies(term(a) < term(b), Not(TB.lexless([idf(S(term(b))), ix(S(term(b)))], [idf(S(term(a))), ix(S(term(a)))])))))
    tab = TB.table(n, {c: fn[c] for c in NUM + ("<tag>",)}, [(c, fn[c]) for c in KEYS])
    return NS(table=tab, n=n, m=m, fn=fn, head=lambda v: S(head(term(v))))


def candidate(O, ntimes, r):
    """row r belongs to the latest record of a track that can be continued"""
    v = O.fn["identifier"](r)
    return And(O.fn["time"](r).t == O.last(v), O.last(v) >= O.t.t - 1 - term(ntimes))


def rows_kept(tab, fn, what, pred, n, sign, levels):
    """tab holds exactly the rows with pred of the table fn describes, unchanged"""
    if not isinstance(tab, TB.DataFrame) or "<tag>" not in tab.cols:
        raise Unsupported("%s: a table made of rows of the inputs was expected" % what)
    names = [l.name for l in tab._levels]
    ENG.require(z3.BoolVal(set(levels) <= set(names)), "%s: index" % what)
    s, s2 = S(ENG.fresh("row", I)), S(ENG.fresh("other_row", I))
    back = (lambda g: g) if sign > 0 else (lambda g: -1 - g)
    tag = lambda x: back(term(tab.cols["<tag>"](x)))
    with A.pure():
        i1, i2 = tab.rows.inside(s), tab.rows.inside(s2)
    r = S(tag(s))
    ENG.require(z3.Implies(i1, And(r.t >= 0, r.t < n.t)), "%s: rows of the table" % what, assume=False)
    ENG.require(z3.Implies(i1, pred(r)), "%s: no other rows" % what, assume=False)
    ENG.require(z3.Implies(And(i1, i2, s.t != s2.t), r.t != tag(s2)), "%s: no row twice" % what, assume=False)
    for l in tab._levels:
        if l.name in KEYS:
            ENG.require(z3.Implies(i1, term(l.fn(s)) == term(fn[l.name](r))), "%s: %s of the rows" % (what, l.name), assume=False)
    ENG.require(z3.BoolVal({"maxima_y", "maxima_x", "radius_eddy"} <= set(tab.cols)), "%s: columns" % what)
    for c in tab.cols:
        if c in NUM:
            ENG.require(z3.Implies(i1, real(tab.cols[c](s)) == real(fn[c](r))), "%s: %s of the rows" % (what, c), assume=False)
    g = index("kept_row", n)
    ENG.require(z3.Implies(pred(g), Or(And(tab.rows.inside(g), tag(g) == g.t), tab.rows.exists(lambda x: tag(x) == g.t))), "%s: every such row" % what, assume=False)
