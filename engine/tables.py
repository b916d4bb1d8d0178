"""Contract model of pandas tables with any number of rows.

A table is a set of rows (slots 0..n-1 restricted by a predicate, in an order), columns (functions of the
slot) and levels of the index (functions of the slot with the set of values pandas keeps in index.levels,
which may hold unused values)."""
import z3
from . import core, arr as A
from .core import ENG, S, SB, I, R, And, Or, Not, TRUE, FALSE, term, real, bterm, is_scalar, conc, Unsupported, okof
from .arr import Arr
from .seq import SList, seqof, choose_value
from .shims import Lazy


def T(x):
    return term(x)


def eqv(a, b):
    return bterm(A.cmp("==", a, b)) if is_scalar(core.unwrap0(a)) and is_scalar(core.unwrap0(b)) else z3.BoolVal(a is b or (isinstance(a, (str, type(None))) and a == b))


class Rows:
    def __init__(s, n, alive=None, order=None):
        s.n = conc(n)
        s.alive, s.order = alive, order
        s._enum = None
        s._rank = {}
        s._filters = []
        s.unique = False

    def inside(s, r):
        r = S(T(r)) if not isinstance(r, S) else r
        c = And(r.t >= 0, r.t < T(s.n))
        return c if s.alive is None else And(c, s.alive(r))

    def forall(s, f):
        return A.forall(s.n, lambda r: z3.Implies(TRUE if s.alive is None else s.alive(S(T(r))), f(S(T(r)))))

    def forall2(s, f):
        al = (lambda r: TRUE) if s.alive is None else (lambda r: s.alive(r))
        return A.forallN((s.n, s.n), lambda a, b: z3.Implies(And(al(S(T(a))), al(S(T(b)))), f(S(T(a)), S(T(b)))))

    def exists(s, f=None):
        return A.exists(s.n, lambda r: And(TRUE if s.alive is None else s.alive(S(T(r))), f(S(T(r))) if f else TRUE))

    def filter(s, pred):
        # the same condition selects the same rows
        with A.pure():
            t = z3.simplify(bterm(pred(S(z3.Int("fq!")))))
        for u, r in s._filters:
            if u.eq(t):
                return r
        a = s.alive
        r = Rows(s.n, (lambda r: And(a(r), pred(r))) if a is not None else pred, s.order)
        s._filters.append((t, r))
        return r

    def sorted(s, keys):
        tie = ENG.fresh_fn("tie", I, I)
        a, b = z3.Ints("ta! tb!")
        ENG.assume(z3.ForAll([a, b], z3.Implies(a != b, tie(a) != tie(b)), patterns=[z3.MultiPattern(tie(a), tie(b))]))
        r = Rows(s.n, s.alive, list(keys) + [lambda r: S(tie(T(r)))])
        r._rank = s._rank                        # the same rows
        return r

    def before(s, a, b):
        a, b = S(T(a)), S(T(b))
        if s.order is None:
            return a.t < b.t
        return lexless([k(a) for k in s.order], [k(b) for k in s.order])

    def plain(s):
        return s.alive is None and s.order is None

    def enum(s):
        """(number of rows, slot of the k-th row, place of a slot)"""
        if s.plain():
            return s.n, (lambda k: S(T(k))), (lambda r: S(T(r)))
        if s._enum is None and s.unique and not ENG.qctx:
            a, b = S(ENG.fresh("one", I)), S(ENG.fresh("two", I))
            with A.pure():
                ca, cb = s.inside(a), s.inside(b)
            if not ENG.feasible(And(ca, cb, a.t != b.t)) and not ENG.feasible(Not(s.exists())):
                ENG.assume(ca)
                s._enum = (1, lambda q: a, lambda r: 0)
        if s._enum is None:
            m = S(ENG.fresh("nrows", I))
            pos, inv = ENG.fresh_fn("slot", I, I), ENG.fresh_fn("place", I, I)
            k, l = z3.Ints("k! l!")
            ENG.assume(m.t >= 0)
            ENG.assume(m.t <= T(s.n))
            with A.pure():
                ins = s.inside(S(pos(k)))
            ENG.assume(z3.ForAll([k], z3.Implies(And(k >= 0, k < m.t), And(ins, inv(pos(k)) == k)), patterns=[pos(k)]))
            with A.pure():
                ins = s.inside(S(l))
            ENG.assume(z3.ForAll([l], z3.Implies(ins, And(inv(l) >= 0, inv(l) < m.t, pos(inv(l)) == l))))
            with A.pure():
                b = s.before(S(pos(k)), S(pos(l)))
            ENG.assume(z3.ForAll([k, l], z3.Implies(And(0 <= k, k < l, l < m.t), b), patterns=[z3.MultiPattern(pos(k), pos(l))]))
            s._enum = (m, lambda q: S(pos(T(q))), lambda r: S(inv(T(r))))
        return s._enum

    def rank(s, fn):
        """ranks of the distinct values of fn: (how many, rank of the value of a row, a row for each rank)"""
        key = id(fn)
        if key not in s._rank:
            c = S(ENG.fresh("distinct", I))
            rk, w = ENG.fresh_fn("rank", I, I), ENG.fresh_fn("row_of_rank", I, I)
            ENG.assume(c.t >= 0)
            a, b, q = z3.Ints("ra! rb! q!")
            with A.pure():
                ia, ib, va, vb = s.inside(S(a)), s.inside(S(b)), T(fn(S(a))), T(fn(S(b)))
                iw = s.inside(S(w(q)))
            ENG.assume(z3.ForAll([a], z3.Implies(ia, And(rk(a) >= 0, rk(a) < c.t)), patterns=[rk(a)]))
            ENG.assume(z3.ForAll([a, b], z3.Implies(And(ia, ib), And((va < vb) == (rk(a) < rk(b)), (va == vb) == (rk(a) == rk(b)))), patterns=[z3.MultiPattern(rk(a), rk(b))]))
            ENG.assume(z3.ForAll([q], z3.Implies(And(q >= 0, q < c.t), And(iw, rk(w(q)) == q)), patterns=[w(q)]))
            s._rank[key] = (c, lambda r: S(rk(T(r))), lambda q: S(w(T(q))), fn)
        return s._rank[key][:3]


def lexless(a, b):
    if not a:
        return FALSE
    x, y = T(a[0]), T(b[0])
    if len(a) == 1:
        return x < y
    return Or(x < y, And(x == y, lexless(a[1:], b[1:])))


def equal_tables(a, b):
    """the same rows, index and columns, in the same order"""
    if a.rows.n is not b.rows.n and not core.same(a.rows.n, b.rows.n):
        return FALSE
    if (a.rows.order is None) != (b.rows.order is None) or a.rows.order is not None and not all(x is y for x, y in zip(a.rows.order, b.rows.order)):
        return FALSE
    if [l.name for l in a._levels] != [l.name for l in b._levels] or list(a.cols) != list(b.cols):
        return FALSE
    r = S(A.gvar("row"))
    with A.pure():
        ia, ib = a.rows.inside(r), b.rows.inside(r)
        cs = []
        for f, g in [(x.fn, y.fn) for x, y in zip(a._levels, b._levels)] + [(a.cols[c], b.cols[c]) for c in a.cols]:
            if f is not g:
                cs.append(eqv(f(r), g(r)))
    return z3.ForAll([r.t], And(ia == ib, z3.Implies(ia, And(*cs))))


# ------------------------------------------------------------------ values kept in index.levels
class LVAny:
    """any set that holds the values in use"""
    exact = False

    def __init__(s, rows, fn):
        s.rows, s.fn = rows, fn
        h = ENG.fresh_fn("kept", I, z3.BoolSort())
        s.h = h
        ENG.assume(rows.forall(lambda r: h(T(fn(r)))))
        s._max = {}

    def has(s, v):
        return s.h(T(v))

    def extreme(s, what):
        if what not in s._max:
            if not ENG.decide(s.rows.exists()):
                return S(ENG.fresh("nan", I), FALSE)             # NaN
            m = S(ENG.fresh("level_" + what, I))
            v = z3.Int("v!")
            ENG.assume(s.h(m.t))
            ENG.assume(z3.ForAll([v], z3.Implies(s.h(v), v <= m.t if what == "max" else v >= m.t), patterns=[s.h(v)]))
            s._max[what] = m
        return s._max[what]


class LV:
    """exact: the values of fn over rows"""

    def __init__(s, rows, fn):
        s.rows, s.fn = rows, fn
        s._max = None

    exact = True

    def has(s, v):
        return s.rows.exists(lambda r: eqv(s.fn(r), v))

    def extreme(s, what):
        if s._max is None:
            s._max = {}
        if what not in s._max:
            if not ENG.decide(s.rows.exists()):
                return S(ENG.fresh("nan", I), FALSE)             # NaN
            m = S(ENG.fresh("level_" + what, I))
            w = S(ENG.fresh("row_of_" + what, I))
            ENG.assume(And(s.rows.inside(w), T(s.fn(w)) == m.t))
            ENG.assume(s.rows.forall(lambda r: T(s.fn(r)) <= m.t if what == "max" else T(s.fn(r)) >= m.t))
            s._max[what] = m
        return s._max[what]


class LVUnion:
    exact = False

    def __init__(s, parts):
        s.parts = parts

    def has(s, v):
        return Or(*[p.has(v) for p in s.parts])

    def extreme(s, what):
        out = None
        for p in s.parts:
            m = p.extreme(what)
            out = m if out is None else (core.smax(out, m) if what == "max" else core.smin(out, m))
        return out


class LVShift:
    def __init__(s, lv, d):
        s.lv, s.d = lv, d
        s.exact = lv.exact

    def has(s, v):
        return s.lv.has(v - s.d)

    def extreme(s, what):
        return s.lv.extreme(what) + s.d


class LVArr:
    exact = False

    def __init__(s, a):
        s.a = a

    def has(s, v):
        return A.exists(s.a.shape[0], lambda k: eqv(s.a.at(k), v))

    def extreme(s, what):
        return A.extreme(s.a, what, False)


class LevelView:
    """index.levels[i]"""
    _isseries = False

    def __init__(s, rows, level, shift=0):
        s.rows, s.level, s.shift = rows, level, shift

    def max(s):
        return s.level.lv.extreme("max") + s.shift

    def min(s):
        return s.level.lv.extreme("min") + s.shift

    def _reduce(s, what, axis=None):
        if what not in ("max", "min"):
            raise Unsupported("%s of a level" % what)
        return getattr(s, what)()

    def __add__(s, d):
        d = core.unwrap0(d)
        if not is_scalar(d):
            raise Unsupported("level plus something else than a number")
        return LevelView(s.rows, s.level, s.shift + d)
    __radd__ = __add__

    def __sub__(s, d):
        return s + (-d)

    def _len(s):
        c, _, _ = s.rows.rank(s.level.fn)
        lv = s.level.lv
        if isinstance(lv, LV) and lv.rows is s.rows and lv.fn is s.level.fn:
            return c
        n = S(ENG.fresh("nlevels", I))
        ENG.assume(n.t >= c.t)           # the values in use are among those kept
        return n

    def __len__(s):
        n = conc(s._len())
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a level")

    @property
    def size(s):
        return s._len()

    def _contains(s, v):
        return SB(s.level.lv.has(v - s.shift))

    @property
    def values(s):
        raise Unsupported("values of a level")


class Level:
    def __init__(s, name, fn, lv=None):
        s.name, s.fn, s.lv = name, fn, lv


def number_of(levels, level):
    if isinstance(level, str):
        for k, l in enumerate(levels):
            if l.name == level:
                return k
        raise KeyError(level)
    level = conc(core.unwrap0(level))
    return level if level >= 0 else len(levels) + level


class Index:
    def __init__(s, rows, levels):
        s.rows, s._levels = rows, levels

    @property
    def levels(s):
        return [LevelView(s.rows, l) for l in s._levels]

    @property
    def names(s):
        return [l.name for l in s._levels]

    @property
    def name(s):
        return s._levels[0].name

    @property
    def nlevels(s):
        return len(s._levels)

    def get_level_values(s, k):
        l = s._levels[number_of(s._levels, k)]
        return Series(s.rows, l.fn, s._levels, l.name)

    def unique(s, level=None):
        if level is None and len(s._levels) > 1:
            raise Unsupported("unique rows of an index")
        l = s._levels[number_of(s._levels, 0 if level is None else level)]
        return LevelView(s.rows, Level(l.name, l.fn, LV(s.rows, l.fn)))

    def set_levels(s, values, level=0, **k):
        j = number_of(s._levels, level)
        l = s._levels[j]
        if isinstance(values, LevelView):
            if values.level is not l and values.level.fn is not l.fn:
                raise Unsupported("levels computed from another index")
            d = values.shift
            f = l.fn
            new = Level(l.name, lambda r: f(r) + d, LVShift(l.lv, d))
        else:
            a = A.asarr(values)
            lv = l.lv
            if not (isinstance(lv, LV) and lv.rows is s.rows and lv.fn is l.fn):
                raise Unsupported("new values for levels with unused values")
            c, rk, _ = s.rows.rank(l.fn)
            if not ENG.decide(T(a.shape[0]) >= c.t):
                raise ValueError("On level %d, code max >= length of level" % j)
            f = l.fn
            new = Level(l.name, lambda r: a.at(rk(r)), LVArr(a))
        ls = list(s._levels)
        ls[j] = new
        return Index(s.rows, ls)

    def __getattr__(s, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in ("max", "min", "values", "isin", "to_numpy", "astype"):
            if len(s._levels) != 1:
                raise Unsupported("%s of a table's index" % k)
            l = s._levels[0]
            if l.fn is None:
                raise Unsupported("positions as labels")
            return getattr(Series(s.rows, l.fn, s._levels, l.name), k)
        raise Unsupported("Index.%s" % k)

    def _len(s):
        return s.rows.enum()[0]


class Series:
    """values per row"""

    def __init__(s, rows, fn, levels, name=None):
        s.rows, s.fn, s.levels, s.name = rows, fn, levels, name

    def _op(s, o, f, rev=False):
        if isinstance(o, Series):
            if o.rows is not s.rows:
                raise Unsupported("operation between the columns of two tables")
            g = o.fn
            return Series(s.rows, (lambda r: f(g(r), s.fn(r))) if rev else (lambda r: f(s.fn(r), g(r))), s.levels, s.name)
        o = core.unwrap0(o)
        if isinstance(o, Arr):
            _, _, inv = s.rows.enum()
            g = lambda r: o.at(inv(r))
            return s._op(Series(s.rows, g, s.levels), f, rev)
        return Series(s.rows, (lambda r: f(o, s.fn(r))) if rev else (lambda r: f(s.fn(r), o)), s.levels, s.name)

    def __add__(s, o): return s._op(o, lambda a, b: a + b)
    def __radd__(s, o): return s._op(o, lambda a, b: a + b, True)
    def __sub__(s, o): return s._op(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._op(o, lambda a, b: a - b, True)
    def __mul__(s, o): return s._op(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(s, o): return s._op(o, lambda a, b: A.npdiv(a, b))
    def __lt__(s, o): return s._op(o, lambda a, b: A.cmp("<", a, b))
    def __le__(s, o): return s._op(o, lambda a, b: A.cmp("<=", a, b))
    def __gt__(s, o): return s._op(o, lambda a, b: A.cmp(">", a, b))
    def __ge__(s, o): return s._op(o, lambda a, b: A.cmp(">=", a, b))
    def __eq__(s, o): return s._op(o, lambda a, b: SB(eqv(a, b)))
    def __ne__(s, o): return s._op(o, lambda a, b: SB(Not(eqv(a, b))))
    def __and__(s, o): return s._op(o, lambda a, b: SB(And(bterm(a), bterm(b))))
    def __or__(s, o): return s._op(o, lambda a, b: SB(Or(bterm(a), bterm(b))))
    def __invert__(s): return Series(s.rows, lambda r: SB(Not(bterm(s.fn(r)))), s.levels, s.name)
    __hash__ = object.__hash__

    @property
    def values(s):
        m, pos, _ = s.rows.enum()
        with A.pure():
            v = s.fn(S(z3.Int("kind!")))
        kind = "b" if isinstance(v, SB) else "i" if isinstance(v, S) and v.isint or isinstance(v, int) else "f"
        return Arr((m,), lambda i: s.fn(pos(i[0])), kind)

    def to_numpy(s, *a, **k):
        return s.values

    def _asarr(s):
        return s.values

    def astype(s, ty):
        return s

    def copy(s, *a, **k):
        return s

    def _len(s):
        return s.rows.enum()[0]

    def isin(s, vals):
        n, g = seqof(vals)
        return Series(s.rows, lambda r: SB(A.exists(n, lambda k: eqv(g(k), s.fn(r)))), s.levels, s.name)

    def max(s):
        return A.extreme(s.values, "max", True)

    def min(s):
        return A.extreme(s.values, "min", True)

    def any(s):
        return SB(s.rows.exists(lambda r: bterm(s.fn(r))))

    def all(s):
        return SB(s.rows.forall(lambda r: bterm(s.fn(r))))

    def unique(s):
        return LevelView(s.rows, Level(s.name, s.fn, LV(s.rows, s.fn)))

    @property
    def index(s):
        return Index(s.rows, s.levels)

    @property
    def iloc(s):
        return _At(lambda k: s.values[k])

    @property
    def empty(s):
        return SB(Not(s.rows.exists()))

    def __getitem__(s, k):
        if isinstance(k, Series):
            return Series(filter_by(s.rows, k), s.fn, s.levels, s.name)
        raise Unsupported("an element of a column")

    def __bool__(s):
        raise ValueError("The truth value of a Series is ambiguous.")

    def __getattr__(s, k):
        if k.startswith("__") or k in ("_scalar0", "_seq", "_isarr", "_xr"):
            raise AttributeError(k)
        raise Unsupported("Series.%s" % k)


class _At:
    def __init__(s, f):
        s.f = f

    def __getitem__(s, k):
        return s.f(k)


def filter_by(rows, m):
    if isinstance(m, Series):
        if m.rows is not rows:
            raise Unsupported("a mask of another table")
        return rows.filter(lambda r: bterm(m.fn(r)))
    m = A.asarr(m)
    _, _, inv = rows.enum()
    ENG.require(T(m.shape[0]) == T(rows.enum()[0]), "a mask for every row")
    return rows.filter(lambda r: bterm(m.at(inv(r))))


class GroupBy:
    def __init__(s, df, key, name, col=None):
        s.df, s.key, s.name, s.col = df, key, name, col

    def __getitem__(s, col):
        if not isinstance(col, str):
            raise Unsupported("groups of several columns")
        return GroupBy(s.df, s.key, s.name, s.df._col(col))

    def _extreme(s, what):
        if s.col is None:
            raise Unsupported("%s of groups of every column" % what)
        rows, key, col = s.df.rows, s.key, s.col
        mx, w = ENG.fresh_fn("group_" + what, I, I), ENG.fresh_fn("row_of_group", I, I)
        le = (lambda a, b: T(a) <= T(b)) if what == "max" else (lambda a, b: T(a) >= T(b))
        ENG.assume(rows.forall(lambda r: And(le(col(r), S(mx(T(key(r))))), rows.inside(S(w(T(key(r))))), T(key(S(w(T(key(r)))))) == T(key(r)),
                                             T(col(S(w(T(key(r)))))) == mx(T(key(r))))))
        return mx

    def transform(s, what, *a, **k):
        if what not in ("max", "min") or a or k:
            raise Unsupported("groupby.transform(%r)" % (what,))
        mx, key = s._extreme(what), s.key
        return Series(s.df.rows, lambda r: S(mx(T(key(r)))), s.df._levels)

    def __getattr__(s, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("groupby.%s" % k)


class DataFrame:
    _table = True

    def __init__(s, data=None, index=None, columns=None, **k):
        s.__dict__.update(rows=Rows(0), cols={}, _levels=[Level(None, None)], ghost=None)
        if k:
            raise Unsupported("options of DataFrame")
        if data is None:
            return
        if isinstance(data, DataFrame):
            s.__dict__.update(data.__dict__, cols=dict(data.cols))
            return
        if not isinstance(data, dict):
            raise Unsupported("a DataFrame of these data")
        if data and all(isinstance(v, (list, tuple)) and not v for v in data.values()):
            s.cols.update({c: None for c in data})
            return
        one = None
        if index is not None:
            n, g = seqof(index)
            one = n
            s._levels[0] = Level(None, (lambda r: g(r) if not isinstance(conc(n), int) or conc(n) != 1 else g(0)))
            s._levels[0].lv = None
        n = None
        for c, v in data.items():
            v = core.unwrap0(v)
            if isinstance(v, Series):
                v = v.values
            if isinstance(v, (list, tuple, SList)):
                v = A.asarr(v)
            if isinstance(v, Arr) and v.ndim > 0:
                if v.ndim != 1:
                    raise ValueError("Per-column arrays must each be 1-dimensional")
                v = v.copy()
                if n is None:
                    n = v.shape[0]
                elif not core.same(n, v.shape[0]) and not ENG.decide(T(n) == T(v.shape[0])):
                    raise ValueError("All arrays must be of the same length")
                s.cols[c] = lambda r, v=v: v.at(r)
            else:
                if isinstance(v, Arr):
                    v = v.at()
                s.cols[c] = lambda r, v=v: v
        if n is None:
            n = one
        elif one is not None and not core.same(n, one) and not ENG.decide(T(n) == T(one)):
            raise ValueError("Length of values does not match length of index")
        if n is None:
            raise ValueError("If using all scalar values, you must pass an index")
        s.rows = Rows(n)
        if s._levels[0].fn is not None:
            s._levels[0].lv = LV(s.rows, s._levels[0].fn)
        if columns is not None:
            raise Unsupported("columns of a DataFrame")

    @staticmethod
    def from_dict(d, *a, **k):
        if a or k:
            raise Unsupported("options of from_dict")
        return DataFrame(d)

    # -- helpers
    def _make(s, rows=None, cols=None, levels=None):
        r = DataFrame()
        r.__dict__.update(rows=s.rows if rows is None else rows, cols=dict(s.cols if cols is None else cols),
                          _levels=list(s._levels if levels is None else levels), ghost=s.ghost)
        return r

    def _col(s, c):
        if c in s.cols:
            return s.cols[c]
        for l in s._levels:
            if l.name == c and c is not None:
                return l.fn
        raise KeyError(c)

    def _plain(s):
        """the same table with slots 0..n-1 in order"""
        if s.rows.plain():
            return s
        m, pos, _ = s.rows.enum()
        rows = Rows(m)

        def mv(f):
            return None if f is None else (lambda r: f(pos(r)))
        ls = []
        for l in s._levels:
            f = mv(l.fn)
            ls.append(Level(l.name, f, LVUnion([l.lv]) if l.lv is not None else None))
        return s._make(rows, {c: mv(f) for c, f in s.cols.items()}, ls)

    # -- columns
    @property
    def columns(s):
        return list(s.cols)

    def __getitem__(s, k):
        if isinstance(k, str):
            if k not in s.cols:
                raise KeyError(k)
            return Series(s.rows, s.cols[k], s._levels, k)
        if isinstance(k, (list, tuple)):
            return s._make(cols={c: s.cols[c] for c in k})
        if isinstance(k, (Series, Arr)):
            return s._make(filter_by(s.rows, k))
        raise Unsupported("indexing a table")

    def __setitem__(s, k, v):
        A.ENG_mutated(s) if hasattr(s, "oid") else None
        v = core.unwrap0(v)
        if isinstance(v, Series):
            if v.rows is not s.rows:
                raise Unsupported("a column of another table")
            s.cols[k] = v.fn
        elif isinstance(v, (Arr, list, SList)) and not (isinstance(v, Arr) and v.ndim == 0):
            v = A.asarr(v)
            _, _, inv = s.rows.enum()
            s.cols[k] = lambda r: v.at(inv(r))
        else:
            s.cols[k] = lambda r: v

    def __contains__(s, c):
        return c in s.cols

    def assign(s, **k):
        r = s.copy()
        for c, v in k.items():
            r[c] = v
        return r

    def copy(s, *a, **k):
        return s._make()

    def __getattr__(s, k):
        if k.startswith("_") or k in ("oid",):
            raise AttributeError(k)
        if k in s.__dict__.get("cols", {}):
            return s[k]
        raise (Unsupported("DataFrame.%s" % k) if k in KNOWN else AttributeError("'DataFrame' object has no attribute '%s'" % k))

    def __setattr__(s, k, v):
        if k == "index":
            if not isinstance(v, Index) or v.rows is not s.rows:
                raise Unsupported("an index of another table")
            s.__dict__["_levels"] = list(v._levels)
            return
        s.__dict__[k] = v

    @property
    def empty(s):
        if not s.cols:
            return True
        if isinstance(conc(s.rows.n), int) and conc(s.rows.n) == 0:
            return True
        return SB(T(s.rows.n) <= 0) if s.rows.alive is None else SB(Not(s.rows.exists()))

    def _len(s):
        return s.rows.enum()[0]

    def __len__(s):
        n = conc(s._len())
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a table")

    def __bool__(s):
        raise ValueError("The truth value of a DataFrame is ambiguous.")

    @property
    def shape(s):
        return (s._len(), len(s.cols))

    @property
    def values(s):
        m, pos, _ = s.rows.enum()
        cs = list(s.cols.values())
        return Arr((m, len(cs)), lambda i: A.pick_nd([c(pos(i[0])) for c in cs], (i[1],), (len(cs),)) if not isinstance(conc(i[1]), int) else cs[conc(i[1])](pos(i[0])), "f")

    def to_numpy(s):
        return s.values

    # -- index
    @property
    def index(s):
        return Index(s.rows, s._levels)

    def reset_index(s, level=None, drop=False, **k):
        if k:
            raise Unsupported("options of reset_index")
        if level is None and len(s._levels) == 1 and s._levels[0].name is None:
            p = s._plain()
            fn = p._levels[0].fn
            cols = {"index": fn if fn is not None else (lambda r: S(T(r)))} if not drop else {}
            cols.update(p.cols)
            return p._make(cols=cols, levels=[Level(None, None)])
        take = range(len(s._levels)) if level is None else [number_of(s._levels, x) for x in (level if isinstance(level, (list, tuple)) else [level])]
        cols = {} if drop else {s._levels[j].name: s._levels[j].fn for j in take}
        cols.update(s.cols)
        rest = [l for j, l in enumerate(s._levels) if j not in take]
        return s._make(cols=cols, levels=rest or [Level(None, None)])

    def set_index(s, names, **k):
        if k:
            raise Unsupported("options of set_index")
        names = [names] if isinstance(names, str) else list(names)
        for c in names:
            if c not in s.cols:
                raise KeyError("None of %r are in the columns" % names)
        if any(s.cols[c] is None for c in names):
            return s._make(cols={c: f for c, f in s.cols.items() if c not in names}, levels=[Level(c, None) for c in names])
        return s._make(cols={c: f for c, f in s.cols.items() if c not in names},
                       levels=[Level(c, s.cols[c], LV(s.rows, s.cols[c])) for c in names])

    def sort_index(s, level=None, **k):
        if k:
            raise Unsupported("options of sort_index")
        js = range(len(s._levels)) if level is None else [number_of(s._levels, x) for x in (level if isinstance(level, (list, tuple)) else [level])]
        js = list(js) + [j for j in range(len(s._levels)) if j not in js]
        if any(s._levels[j].fn is None for j in js):
            return s
        return s._make(s.rows.sorted([s._levels[j].fn for j in js]))

    def sort_values(s, by, **k):
        if k:
            raise Unsupported("options of sort_values")
        by = [by] if isinstance(by, str) else list(by)
        return s._make(s.rows.sorted([s._col(c) for c in by]))

    def _select(s, pairs, err):
        pred = lambda r: And(*[eqv(s._levels[j].fn(r), v) for j, v in pairs])
        if not ENG.decide(s.rows.exists(pred)):
            raise KeyError(err)
        rest = [l for j, l in enumerate(s._levels) if j not in [p[0] for p in pairs]]
        rows = s.rows.filter(pred)
        rows.unique = not rest
        return s._make(rows, levels=rest or s._levels)

    def xs(s, key, axis=0, level=None, drop_level=True):
        if axis != 0 or not drop_level:
            raise Unsupported("options of xs")
        if level is None:
            keys = list(key) if isinstance(key, tuple) else [key]
            lv = list(range(len(keys)))
        else:
            lv = list(level) if isinstance(level, (list, tuple)) else [level]
            keys = list(key) if isinstance(key, (tuple, list)) else [key]
        if len(keys) != len(lv):
            raise Unsupported("xs with %d keys for %d levels" % (len(keys), len(lv)))
        return s._select([(number_of(s._levels, l), core.unwrap0(k)) for l, k in zip(lv, keys)], key)

    @property
    def loc(s):
        return _At(s._loc)

    def _loc(s, k):
        k = core.unwrap0(k)
        if isinstance(k, tuple):
            if len(k) == 2 and (isinstance(k[1], str) or isinstance(k[1], list)):
                return s._loc(k[0])[k[1]]
            raise Unsupported("loc with several keys")
        if isinstance(k, Series) or (isinstance(k, Arr) and k.kind == "b"):
            return s[k]
        if isinstance(k, slice) and k == slice(None):
            return s
        if is_scalar(k):
            return s._select([(0, k)], k)
        raise Unsupported("loc with a %s" % type(k).__name__)

    def rename(s, mapper=None, index=None, columns=None, level=None, **k):
        if k or mapper is not None:
            raise Unsupported("options of rename")
        r = s._make()
        if columns is not None:
            r.__dict__["cols"] = {columns.get(c, c): f for c, f in s.cols.items()}
        if index is not None:
            if hasattr(index, "_symdict"):
                new = lambda v: core.ite(SB(index.has(v)), index.value(v), v)
            else:
                items = list(index.items())

                def new(v):
                    out = v
                    for a, b in reversed(items):
                        out = core.ite(SB(eqv(v, a)), b, out)
                    return out
            js = range(len(s._levels)) if level is None else [number_of(s._levels, level)]
            ls = list(s._levels)
            for j in js:
                f = ls[j].fn
                ls[j] = Level(ls[j].name, lambda r_, f=f: new(f(r_)), None)
            # from_arrays: every level is computed again
            r.__dict__["_levels"] = [Level(l.name, l.fn, LV(r.rows, l.fn)) for l in ls]
        return r

    def drop(s, labels=None, axis=0, index=None, columns=None, level=None, **k):
        if k:
            raise Unsupported("options of drop")
        if columns is not None or axis in (1, "columns"):
            cs = columns if columns is not None else labels
            cs = [cs] if isinstance(cs, str) else list(cs)
            for c in cs:
                if c not in s.cols:
                    raise KeyError(c)
            return s._make(cols={c: f for c, f in s.cols.items() if c not in cs})
        labels = index if labels is None else labels
        labels = core.unwrap0(labels)
        if level is None and len(s._levels) > 1:
            raise Unsupported("drop without a level")
        l = s._levels[number_of(s._levels, 0 if level is None else level)]
        if is_scalar(labels):
            labels = [labels]
        if not hasattr(labels, "_member"):
            n, g = seqof(labels)
        f = l.fn
        if hasattr(labels, "_member"):
            v = A.gvar("lab")
            with A.pure():
                c = z3.ForAll([v], z3.Implies(labels._member(S(v)), l.lv.has(S(v))))
            if not ENG.decide(c):
                raise KeyError("labels not found in level")
            mem = labels._member
            return s._make(s.rows.filter(lambda r: Not(mem(f(r)))))
        if not ENG.decide(A.forall(n, lambda q: l.lv.has(g(q)))):
            raise KeyError("labels not found in level")
        return s._make(s.rows.filter(lambda r: Not(A.exists(n, lambda q: eqv(g(q), f(r))))))

    def groupby(s, by=None, level=None, **k):
        if k:
            raise Unsupported("options of groupby")
        if by is not None and not isinstance(by, str) or by is None and level is None:
            raise Unsupported("groupby of several keys")
        f = s._col(by) if by is not None else s._levels[number_of(s._levels, level)].fn
        return GroupBy(s, f, by)

    def append(s, *a, **k):
        raise AttributeError("'DataFrame' object has no attribute 'append'")


KNOWN = set("iloc at iat merge join pivot stack unstack apply map agg aggregate transform mask where isin duplicated drop_duplicates droplevel swaplevel "
            "reindex query eval head tail nlargest nsmallest sum mean max min fillna dropna isna notna iterrows itertuples to_csv to_json to_hdf any all "
            "insert pop update combine_first T size ndim dtypes astype replace equals set_axis items".split())


def concat(ts, *a, **k):
    if a or k:
        raise Unsupported("options of concat")
    if not isinstance(ts, (list, tuple)):
        raise Unsupported("concat of a %s" % type(ts).__name__)
    out = None
    for t in ts:
        if not isinstance(t, DataFrame):
            raise TypeError("cannot concatenate object of type '%s'" % type(t))
        out = t if out is None else concat2(out, t)
    if out is None:
        raise ValueError("No objects to concatenate")
    return out if len(ts) > 1 else out.copy()


NAN = S(z3.RealVal(0), FALSE)


def concat2(p, q):
    if isinstance(conc(p.rows.n), int) and conc(p.rows.n) == 0 and len(p._levels) != len(q._levels):
        raise Unsupported("concat of tables with different levels")
    if len(p._levels) != len(q._levels):
        raise Unsupported("concat of tables with different levels")
    a = p if p.rows.order is None else p._plain()
    b = q if q.rows.order is None else q._plain()
    n, m = a.rows.n, b.rows.n
    tot = conc(n + m)
    al, bl = a.rows.alive, b.rows.alive
    alive = None
    if al is not None or bl is not None:
        def alive(r):
            x = al(r) if al is not None else TRUE
            y = bl(r - n) if bl is not None else TRUE
            return z3.If(r.t < T(n), x, y)

    def join(f, g):
        def h(r):
            r = S(T(r))
            if f is g and f is not None and isinstance(conc(n), int) and conc(n) == 0:
                return g(r)
            return choose_value(r.t < T(n), lambda: f(r) if f is not None else NAN, lambda: g(r - n) if g is not None else NAN)
        return h
    rows = Rows(tot, alive)
    cols = {}
    for c in list(a.cols) + [c for c in b.cols if c not in a.cols]:
        cols[c] = join(a.cols.get(c), b.cols.get(c))
    ls = []
    for x, y in zip(a._levels, b._levels):
        if x.fn is None and y.fn is None:
            ls.append(Level(None, None))
            continue
        fx = x.fn if x.fn is not None else (lambda r: S(T(r)))
        fy = y.fn if y.fn is not None else (lambda r: S(T(r)))
        ls.append(Level(x.name if x.name == y.name else None, join(fx, fy), LVUnion([x.lv, y.lv]) if x.lv is not None and y.lv is not None else None))
    r = DataFrame()
    r.__dict__.update(rows=rows, cols=cols, _levels=ls, ghost=None)
    r.__dict__["split"] = (n, m)
    return r


def table(n, cols, levels, order=None):
    """an arbitrary table, for specifications: cols and levels map names to functions of the row"""
    d = DataFrame()
    rows = Rows(n, None, order)
    d.__dict__.update(rows=rows, cols=dict(cols), _levels=[Level(k, f, LV(rows, f)) for k, f in levels])
    return d


def make():
    return Lazy("pandas", DataFrame=DataFrame, concat=concat, Series=Series, Index=Index)
