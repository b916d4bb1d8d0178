"""Symbolic-length sequences and ranges."""
import z3
from . import core
from .core import S, SB, ENG, I, Unsupported, term, conc, is_scalar, And, Or, Not, TRUE, FALSE, bterm, ite, must, okof
from . import arr as A


class SList:
    """A list of symbolic length: length + element function (of an index)."""

    def __init__(s, n, get):
        s.n = conc(n)
        s._get = get
        s.oid = ENG.newid()
        s.note = None

    def _seq(s):
        return s.n, s._get

    def _len(s):
        return s.n

    def __len__(s):
        if isinstance(s.n, int):
            return s.n
        raise Unsupported("native len() of a symbolic list")

    def __bool__(s):
        if isinstance(s.n, int):
            return s.n > 0
        return ENG.decide(s.n.t > 0)

    def __getitem__(s, k):
        if isinstance(k, slice):
            st, ln, step = A.slice_bounds(k, s.n)
            return SList(ln, lambda i: s._get(A.lin(st, step, i)))
        i = A.norm_index(core.unwrap0(k), s.n)
        return s._get(i)

    def __iter__(s):
        if isinstance(s.n, int):
            for i in range(s.n):
                yield s._get(i)
            return
        raise Unsupported("native iteration over a symbolic list")

    def append(s, x):
        A.ENG_mutated(s)
        n, g = s.n, s._get
        s.n = conc(n + 1)

        def get(i):
            if isinstance(i, int) and isinstance(n, int):
                return x if i == n else g(i)
            if A.eqt(i, n) is TRUE:
                return x
            return choose_value(A.eqt(i, n), lambda: x, lambda: g(i))
        s._get = get

    def extend(s, o):
        r = s + o
        A.ENG_mutated(s)
        s.n, s._get = r.n, r._get

    def __add__(s, o):
        n, g = s._seq()
        m, h = seqof(o)
        tot = conc(n + m)

        def get(i):
            if isinstance(i, int) and isinstance(n, int):
                return g(i) if i < n else h(i - n)
            return choose_value(A.lt(i, n), lambda: g(i), lambda: h(i - n))
        return SList(tot, get)

    def __radd__(s, o):
        n, g = seqof(o)
        return SList(n, g) + s

    def copy(s):
        return SList(s.n, s._get)

    def sort(s, *a, **k):
        raise Unsupported("sorting a symbolic list")

    def __contains__(s, x):
        return bool(SB(A.exists(s.n, lambda k: bterm(A.cmp("==", s._get(k), x)))))

    def index(s, x):
        raise Unsupported("index() on a symbolic list")

    def havoc(s):
        raise Unsupported("havoc of a symbolic list")

    def __repr__(s):
        return "SList(%s)" % (s.n,)


def choose_value(c, f, g):
    c = z3.simplify(c)
    if z3.is_true(c):
        return f()
    if z3.is_false(c):
        return g()
    if ENG.qctx:
        a, b = f(), g()
        return merge(c, a, b)
    a, b = None, None
    try:
        with A.pure():
            a, b = f(), g()
            return merge(c, a, b)
    except Unsupported:
        return f() if ENG.decide(c) else g()


def merge(c, a, b):
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        return ite(SB(c), a, b)
    if isinstance(a, A.Arr) and isinstance(b, A.Arr) and a.ndim == b.ndim:
        shp = [x if core.same(x, y) else ite(SB(c), x, y) for x, y in zip(a.shape, b.shape)]
        return A.Arr(shp, lambda i: ite(SB(c), a.at(*i), b.at(*i)), a.kind)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return type(a)(merge(c, x, y) for x, y in zip(a, b)) if type(a) in (tuple, list) else tuple(merge(c, x, y) for x, y in zip(a, b))
    raise Unsupported("merging values of types %s and %s" % (type(a).__name__, type(b).__name__))


def seqof(x):
    """(length, getter) of anything sequence-like."""
    if hasattr(x, "_seq"):
        return x._seq()
    if isinstance(x, A.Arr):
        return x.shape[0], lambda i: x[i] if x.ndim > 1 else x.at(i)
    if isinstance(x, (list, tuple, str)):
        return len(x), lambda i: x[i] if isinstance(conc(i), int) else pick_list(x, i)
    if isinstance(x, range):
        return len(x), lambda i: x[i] if isinstance(i, int) else x.start + x.step * i
    if isinstance(x, dict):
        return seqof(list(x))
    if hasattr(x, "__iter__"):
        l = list(x)
        return len(l), lambda i: l[i]
    raise TypeError("%r object is not iterable" % type(x).__name__)


def pick_list(x, i):
    i = conc(i)
    if isinstance(i, int):
        return x[i]
    v = x[-1]
    for j in range(len(x) - 2, -1, -1):
        v = merge(i.t == j, x[j], v)
    return v


class SRange:
    def __init__(s, a, b, step=1):
        s.a, s.b, s.step = a, b, step
        if isinstance(step, int) and step > 0:
            d = S(term(b)) - a if not (isinstance(a, int) and a == 0) else S(term(b))
            n = d if step == 1 else core.floordiv(d + (step - 1), step)
        elif isinstance(step, int) and step < 0:
            d = S(term(a)) - b
            n = d if step == -1 else core.floordiv(d + (-step - 1), -step)
        else:
            raise Unsupported("range with a symbolic step")
        n = conc(n)
        if isinstance(n, int):
            n = max(0, n)
        elif not must(n.t >= 0):
            n = core.smax(n, 0)
        s.n = n
        s.start, s.stop = a, b

    def _seq(s):
        return s.n, lambda i: A.lin(s.a, s.step, i)

    def _len(s):
        return s.n

    def __len__(s):
        if isinstance(s.n, int):
            return s.n
        raise Unsupported("native len() of a symbolic range")

    def __iter__(s):
        if isinstance(s.n, int):
            for i in range(s.n):
                yield A.lin(s.a, s.step, i)
            return
        raise Unsupported("native iteration over a symbolic range")

    def __getitem__(s, k):
        if isinstance(k, slice):
            st, ln, step = A.slice_bounds(k, s.n)
            return SList(ln, lambda i: A.lin(s.a, s.step, A.lin(st, step, i)))
        return A.lin(s.a, s.step, A.norm_index(k, s.n))

    def __contains__(s, x):
        if s.step != 1:
            raise Unsupported("in range with a step")
        return bool(SB(And(term(x) >= term(s.a), term(x) < term(s.b))))


def length(x):
    if hasattr(x, "_len"):
        return x._len()
    if isinstance(x, A.Arr):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, S):
        raise TypeError("object of type 'float' has no len()")
    return len(x)
