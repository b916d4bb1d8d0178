"""What the instrumented code calls: operators, comprehensions, builtins."""
import builtins as B
import operator
import re
import sys
import types
from fractions import Fraction
import z3
from . import core, arr as A
from .core import ENG, S, SB, Unsupported, term, conc, is_scalar, is_num, bterm, And, Or, Not, TRUE, FALSE, I, R
from .seq import SList, SRange, seqof, length, merge, choose_value
from .loops import Loop


class VList(list):
    """A list that reports its mutations (loops must know what they change)."""
    def __init__(s, *a):
        list.__init__(s, *a)
        s.oid = ENG.newid()
        ENG.objects[s.oid] = s

    def _m(s):
        A.ENG_mutated(s)

    def append(s, x):
        s._m(); list.append(s, x)

    def extend(s, x):
        s._m(); list.extend(s, x)

    def insert(s, *a):
        s._m(); list.insert(s, *a)

    def pop(s, *a):
        s._m(); return list.pop(s, *a)

    def remove(s, x):
        s._m(); list.remove(s, x)

    def __setitem__(s, k, v):
        s._m(); list.__setitem__(s, conck(k), v)

    def __delitem__(s, k):
        s._m(); list.__delitem__(s, conck(k))

    def __iadd__(s, o):
        s._m(); list.extend(s, list(o)); return s

    def sort(s, *a, **k):
        s._m(); list.sort(s, *a, **k)

    def __getitem__(s, k):
        k = core.unwrap0(k)
        if isinstance(k, slice):
            r = list.__getitem__(s, slice(*[conc(x) for x in (k.start, k.stop, k.step)]))
            return VList(r)
        k = conc(k)
        if isinstance(k, S):
            n, g = seqof(s)
            return g(A.norm_index(k, n))
        return list.__getitem__(s, k)

    def __add__(s, o):
        if isinstance(o, SList):
            return o.__radd__(s)
        return VList(list.__add__(s, list(o)))

    def __mul__(s, n):
        n = conc(n)
        if isinstance(n, S):
            return SList(n * len(s), lambda i: seqof(s)[1](core.mod(i, len(s))) if len(s) > 1 else list.__getitem__(s, 0))
        return VList(list.__mul__(s, n))
    __rmul__ = __mul__

    def __eq__(s, o):
        return list(s) == o
    __hash__ = None


class BagList(VList):
    """A list built by a loop: which values it holds (the invariant of the loop says so)."""

    def become(s, member, nonempty):
        list.clear(s)
        s.member, s.nonempty = member, nonempty

    def _member(s, v):
        return s.member(v)

    def __bool__(s):
        return ENG.decide(s.nonempty)

    def __len__(s):
        raise Unsupported("length of a list built by a loop")

    def append(s, x):
        s._m()
        m = s.member
        s.member, s.nonempty = (lambda v: Or(m(v), bterm(A.cmp("==", v, x)))), TRUE

    def _no(s, *a, **k):
        raise Unsupported("a list built by a loop")
    _seq = _len = __iter__ = __getitem__ = __setitem__ = extend = insert = pop = remove = sort = __add__ = __iadd__ = __contains__ = index = count = _no


class VDict(dict):
    def __init__(s, *a):
        dict.__init__(s, *a)
        s.oid = ENG.newid()
        ENG.objects[s.oid] = s

    def __setitem__(s, k, v):
        A.ENG_mutated(s)
        dict.__setitem__(s, k, v)

    def __delitem__(s, k):
        A.ENG_mutated(s)
        dict.__delitem__(s, k)

    def update(s, *a, **k):
        A.ENG_mutated(s)
        dict.update(s, *a, **k)

    def pop(s, *a):
        A.ENG_mutated(s)
        return dict.pop(s, *a)

    def setdefault(s, *a):
        A.ENG_mutated(s)
        return dict.setdefault(s, *a)


class PairDict:
    """a dictionary with one symbolic key"""

    def __init__(s, pairs):
        if len(pairs) != 1:
            raise Unsupported("dictionary with several symbolic keys")
        s.pairs = pairs

    def items(s):
        return list(s.pairs)

    def _no(s, *a, **k):
        raise Unsupported("this operation of a dictionary with a symbolic key")
    __getitem__ = __setitem__ = __contains__ = __iter__ = __len__ = get = keys = values = update = pop = setdefault = _no


class SymDict:
    """a dictionary made from a sequence of pairs (integer keys): the last pair of a key counts"""
    _symdict = True

    def __init__(s, l):
        s.n = l.n
        s.pair = l._get
        v = z3.Int("key!")
        s.hit, s.wit = ENG.fresh_fn("is_key", I, z3.BoolSort()), ENG.fresh_fn("pair_of", I, I)
        k = lambda j: core.term(core.unwrap0(s.pair(S(j))[0]))
        g = A.gvar("pair")
        with A.pure():
            kg, kw = k(g), k(s.wit(v))
            if kg.sort() != I:
                raise Unsupported("a dictionary with these keys")
        ENG.assume(A.forall(s.n, lambda j: And(s.hit(z3.substitute(kg, (g, core.term(j)))), s.wit(z3.substitute(kg, (g, core.term(j)))) >= core.term(j))))
        ENG.assume(z3.ForAll([v], z3.Implies(s.hit(v), And(s.wit(v) >= 0, s.wit(v) < core.term(s.n), kw == v)), patterns=[s.hit(v)]))

    def has(s, v):
        return s.hit(core.term(v))

    def value(s, v):
        return s.pair(S(s.wit(core.term(v))))[1]

    def get(s, v, d=None):
        return core.ite(SB(s.has(v)), s.value(v), d)

    def _no(s, *a, **k):
        raise Unsupported("this operation of a dictionary made from a symbolic sequence")
    __setitem__ = __contains__ = __iter__ = __len__ = keys = values = update = pop = setdefault = items = __bool__ = _no

    def _contains(s, v):
        return SB(s.has(v))

    def _len(s):
        raise Unsupported("the number of keys")

    def __getitem__(s, v):
        if not ENG.decide(s.has(v)):
            raise KeyError(v)
        return s.value(v)


def conck(k):
    k = core.unwrap0(k)
    return conc(k)


class VF:
    F = staticmethod(lambda t: fconst(t))

    @staticmethod
    def item(x, k):
        if type(x) is tuple and isinstance(core.unwrap0(k), S):
            n, g = seqof(x)
            return g(A.norm_index(core.unwrap0(k), n))
        return x[k]

    @staticmethod
    def extend(x, l):
        if isinstance(x, VList):
            for e in l:
                x.append(e)
        elif operator.iadd(x, l) is not x:
            raise Unsupported("+= of a list to a %s" % type(x).__name__)

    @staticmethod
    def mkdict(ks, vs):
        ks, vs = list(ks), list(vs)
        if any(isinstance(core.unwrap0(k), core.S) for k in ks):
            return PairDict([(core.unwrap0(k), v) for k, v in zip(ks, vs)])
        return VDict(zip(ks, vs))

    @staticmethod
    def mkdictcomp(l):
        if not isinstance(l, SList) or isinstance(conc(l.n), int):
            n, g = seqof(l)
            ps = [g(i) for i in range(conc(n))]
            return VF.mkdict([p[0] for p in ps], [p[1] for p in ps])
        return SymDict(l)

    @staticmethod
    def repeat(a, b):
        if isinstance(b, str):
            a, b = b, a
        b = core.unwrap0(b)
        if isinstance(b, S) and not isinstance(conc(b), int):
            if not b.isint:
                raise TypeError("can't multiply sequence by non-int of type 'float'")
            return "<%s * %s>" % (a, b.t)
        return a * (conc(b) if isinstance(b, S) else b)

    @staticmethod
    def mklist(l):
        return VList(l)

    # ---- operators
    @staticmethod
    def div(a, b):
        a0, b0 = core.unwrap0(a), core.unwrap0(b)
        if is_num(a0) and is_num(b0):
            if b0 == 0:
                if isinstance(a, A.Arr) or isinstance(b, A.Arr) or getattr(a, "_np", False):
                    return A.npdiv(a0, b0)
                raise ZeroDivisionError("division by zero")
            return core.frac(a0) / core.frac(b0)
        if isinstance(a, (SB, bool)) and is_scalar(b):
            a = A.num(a) if isinstance(a, SB) else int(a)
        if isinstance(b, SB):
            b = A.num(b)
        if is_scalar(a) and is_num(b) and b == 0:
            return A.npdiv(a, b)
        return operator.truediv(a, b)

    @staticmethod
    def mod(a, b):
        if isinstance(a, str):
            return strmod(a, b)
        return core.mod(a, b) if is_scalar(a) and is_scalar(b) else operator.mod(a, b)

    @staticmethod
    def floordiv(a, b):
        return core.floordiv(a, b) if is_scalar(a) and is_scalar(b) else operator.floordiv(a, b)

    @staticmethod
    def pow(a, b):
        a1, b1 = core.unwrap0(a), core.unwrap0(b)
        if is_scalar(a1) and is_scalar(b1):
            return core.power(A.num(a1), A.num(b1))
        return operator.pow(a, b)

    @staticmethod
    def and_(*fs):
        v = None
        for i, f in enumerate(fs):
            v = f()
            v0 = core.unwrap0(v)
            if i == len(fs) - 1:
                return v
            if ENG.qctx and isinstance(v0, (SB, S)):
                rest = VF.and_(*fs[i + 1:])
                rest = core.unwrap0(rest)
                if isinstance(rest, (SB, bool)) and isinstance(v0, SB):
                    return SB(And(v0.t, bterm(rest)))
                raise Unsupported("and of non-booleans at a generic index")
            if not truth(v):
                return v
        return v

    @staticmethod
    def or_(*fs):
        v = None
        for i, f in enumerate(fs):
            v = f()
            v0 = core.unwrap0(v)
            if i == len(fs) - 1:
                return v
            if ENG.qctx and isinstance(v0, (SB, S)):
                rest = core.unwrap0(VF.or_(*fs[i + 1:]))
                if isinstance(rest, (SB, bool)) and isinstance(v0, SB):
                    return SB(Or(v0.t, bterm(rest)))
                raise Unsupported("or of non-booleans at a generic index")
            if truth(v):
                return v
        return v

    @staticmethod
    def not_(x):
        x = core.unwrap0(x)
        if isinstance(x, SB):
            return SB(Not(x.t))
        if isinstance(x, S):
            return SB(And(x.ok, x.t == 0))
        return not x

    @staticmethod
    def ifexp(test, f, g):
        t = core.unwrap0(test)
        if isinstance(t, (SB, S)):
            c = bterm(t) if isinstance(t, SB) else Or(Not(t.ok), t.t != 0)
            c = z3.simplify(c)
            if z3.is_true(c):
                return f()
            if z3.is_false(c):
                return g()
            if ENG.qctx:
                return merge(c, f(), g())
            return f() if ENG.decide(c) else g()
        return f() if test else g()

    @staticmethod
    def in_(a, b):
        a = core.unwrap0(a)
        if isinstance(a, (S, SB)):
            if isinstance(b, (list, tuple, set)):
                return SB(Or(*[bterm(A.cmp("==", a, x)) for x in b]))
            if hasattr(b, "_contains"):
                return b._contains(a)
            if isinstance(b, (SRange,)):
                return b.__contains__(a)
            n, g = seqof(b)
            return SB(A.exists(n, lambda k: bterm(A.cmp("==", g(k), a))))
        if hasattr(b, "_contains"):
            return b._contains(a)
        if isinstance(b, (SList, A.Arr)):
            n, g = seqof(b)
            return SB(A.exists(n, lambda k: bterm(A.cmp("==", g(k), a))))
        if isinstance(b, (set, frozenset, dict)) and (hasattr(a, "_xs") or any(hasattr(x, "_xs") for x in b)):
            return any(x is a or x == a for x in b)        # symbolic names: hashing would not ask
        return operator.contains(b, a)

    @staticmethod
    def cmp(op, a, b):
        if (is_scalar(a) or (isinstance(a, A.Arr) and a.ndim == 0)) and (is_scalar(b) or (isinstance(b, A.Arr) and b.ndim == 0)):
            a, b = core.unwrap0(a), core.unwrap0(b)
            if is_scalar(a) and is_scalar(b):
                if isinstance(a, (bool,)) and isinstance(b, bool):
                    pass
                elif isinstance(a, SB) and isinstance(b, (SB, bool)) or isinstance(b, SB) and isinstance(a, bool):
                    if op == "==":
                        return SB(bterm(a) == bterm(b))
                    if op == "!=":
                        return SB(bterm(a) != bterm(b))
                else:
                    return A.cmp(op, int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b)
        if isinstance(b, A.Arr) and isinstance(a, (tuple, list)):
            a = A.asarr(a)
        return {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op](a, b)

    # ---- comprehensions
    @staticmethod
    def comp(it, elt, conds, kind):
        it = core.unwrap0(it) if not isinstance(it, A.Arr) else it
        symbolic = False
        if hasattr(it, "_seq") or isinstance(it, A.Arr):
            n, get = seqof(it)
            symbolic = not isinstance(conc(n), int)
        if not symbolic:
            out = VList()
            for x in (iter(it) if not (hasattr(it, "_seq")) else (get(i) for i in range(conc(n)))):
                if all(truth(c(x)) for c in conds):
                    list.append(out, elt(x))
            return out
        if conds:
            m = A.Arr((n,), lambda i: allb([c(get(i[0])) for c in conds]), "b")
            pos = A.positions(m)
            return SList(pos.n, lambda i: elt(get(pos.at(i)[0])))
        # the element at a generic index; evaluated now, since the names it uses may change later
        g = A.gvar("cp")
        hyps = list(ENG.hyps)
        ENG.solver.push()
        try:
            ENG.assume(And(g >= 0, g < core.term(n)))
            with A.pure():
                v = elt(get(S(g)))
        finally:
            ENG.hyps[:] = hyps
            ENG.solver.pop()
        v0 = core.unwrap0(v)
        if isinstance(v0, S):
            t, ok = v0.t, v0.ok
            return SList(n, lambda i: S(z3.substitute(t, (g, term(i))), TRUE if z3.is_true(ok) else z3.substitute(ok, (g, term(i)))))
        if isinstance(v0, SB):
            t = v0.t
            return SList(n, lambda i: SB(z3.substitute(t, (g, term(i)))))
        def item(i):
            ENG.muted += 1
            try:
                return elt(get(i))
            finally:
                ENG.muted -= 1
        return SList(n, item)

    @staticmethod
    def flatten(r):
        if isinstance(r, SList):
            raise Unsupported("nested comprehension over a symbolic sequence")
        out = VList()
        for x in r:
            for y in x:
                list.append(out, y)
        return out

    @staticmethod
    def unpack(src, i, n):
        if isinstance(src, (list, tuple)):
            if len(src) != n:
                raise ValueError("not enough values to unpack")
            return src[i]
        m, g = seqof(src)
        if isinstance(conc(m), int):
            if conc(m) != n:
                raise ValueError("unpacking")
        else:
            ENG.require(term(m) == n, "unpacking the right number of values")
        return g(i)

    @staticmethod
    def enter(lid, it, names, locs, is_for, steps={}):
        return Loop(lid, it, names, locs, is_for, steps)


def allb(cs):
    return SB(And(*[bterm(core.unwrap0(c)) for c in cs]))


def truth(v):
    v = core.unwrap0(v)
    return bool(v)


def fconst(t):
    if t in ("inf", "-inf", "nan") or "inf" in t or "nan" in t:
        return float(t)
    return Fraction(t)


class Text(str):
    """str(n) of a symbolic integer"""
    _num = None

    def _of(s, v):
        s._num = v
        return s

    def zfill(s, w):
        return format(s._num, "0%dd" % w) if w else s

    def rjust(s, w, c=" "):
        # the same as zfill for numbers that are not negative
        if c == "0":
            ENG.require(s._num.t >= 0, "str(n).rjust of a number that is not negative")
        return format(s._num, ("0%dd" if c == "0" else "%dd") % w)


_percent = re.compile(r"%(%|(0?\d*)([dis]))")


def strmod(a, b):
    bs = [core.unwrap0(x) for x in (b if isinstance(b, tuple) else (b,))]
    if isinstance(a, str) and any(isinstance(x, S) for x in bs):
        it = iter(bs)

        def sub(m):
            if m.group(1) == "%":
                return "%"
            x = next(it)
            if m.group(3) == "s" or not isinstance(x, S):
                return m.group(0) % x if not isinstance(x, S) else format(x, m.group(2))
            return format(x, m.group(2) + "d" if m.group(2) else "")
        r = _percent.sub(sub, a)
        if "%" not in r and next(it, it) is it:
            return r
    try:
        return operator.mod(a, b)
    except Exception:
        return a + "<formatted>"


_isinst_map = {}


def make_builtins(loader):
    d = dict(B.__dict__)

    def vlen(x):
        return length(x)

    def vrange(*a):
        a = [core.unwrap0(x) for x in a]
        for x in a:
            if isinstance(x, Fraction) or isinstance(x, float) or (isinstance(x, S) and not x.isint):
                raise TypeError("'float' object cannot be interpreted as an integer")
        a = [conc(x) for x in a]
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)

    def ext(op):
        def f(*a, **k):
            key, default = k.get("key"), k.get("default", ext)
            if key is not None:
                if len(a) == 1:
                    return getattr(B, op)(list(a[0]), **k)
                raise Unsupported("min/max with a key")
            if len(a) == 1:
                x = a[0]
                if isinstance(x, A.Arr):
                    if x.ndim > 1:
                        raise ValueError("ambiguous truth value")
                    return A.extreme(x, op)
                if type(x).__name__ == "LevelView":
                    return getattr(x, op)()
                n, g = seqof(x)
                n = conc(n)
                if not isinstance(n, int):
                    return A.extreme(A.asarr(x), op)
                a = [g(i) for i in range(n)]
                if not a:
                    if default is not ext:
                        return default
                    raise ValueError("%s() arg is an empty sequence" % op)
            a = [core.unwrap0(x) for x in a]
            if all(isinstance(x, str) for x in a):
                return getattr(B, op)(a)
            r = a[0]
            for x in a[1:]:
                if not (is_scalar(r) and is_scalar(x)):
                    raise Unsupported("%s of non-scalars" % op)
                if isinstance(x, float) and x in (float("inf"), float("-inf")) or isinstance(r, float) and r in (float("inf"), float("-inf")):
                    if is_num(x) and is_num(r):
                        r = getattr(B, op)(r, x)
                    else:
                        fin, inf = (r, x) if isinstance(x, float) and x in (float("inf"), float("-inf")) else (x, r)
                        r = fin if (inf > 0) == (op == "min") else inf
                    continue
                # Python keeps the first of equal values; equal numbers are equal
                r = core.smax(r, x) if op == "max" else core.smin(r, x)
            return r
        return f

    def vabs(x):
        if isinstance(x, (S, SB, A.Arr)) or hasattr(x, "__abs__"):
            return abs(x)
        return B.abs(x)

    def vsum(x, start=0):
        if isinstance(x, A.Arr):
            return A.reduce_(x, 0, "sum")
        n, g = seqof(x)
        n = conc(n)
        if isinstance(n, int):
            r = start
            for i in range(n):
                r = r + g(i)
            return r
        return start + A.bigsum(lambda k: g(k), 0, n)

    def vround(x, n=None):
        x = core.unwrap0(x)
        if n is None and isinstance(x, S) and not x.isint:
            ENG.require(x.ok, "round() of a valid number")
        return core.rounding(x, n) if is_scalar(x) else B.round(x, *([n] if n is not None else []))

    def venum(x, start=0):
        n, g = seqof(x)
        n = conc(n)
        if isinstance(n, int):
            return list((i + start, g(i)) for i in range(n))
        return SList(n, lambda i: (i + start, g(i)))

    def vzip(*xs, **k):
        sg = [seqof(x) for x in xs]
        ns = [conc(n) for n, _ in sg]
        if all(isinstance(n, int) for n in ns):
            n = min(ns) if ns else 0
            return [tuple(g(i) for _, g in sg) for i in range(n)]
        n = ns[0]
        for m in ns[1:]:
            if not core.same(n, m):
                n = core.smin(n, m)
        return SList(n, lambda i: tuple(g(i) for _, g in sg))

    def vany(x):
        if isinstance(x, A.Arr):
            return A.reduce_(x, None, "any")
        n, g = seqof(x)
        n = conc(n)
        if isinstance(n, int):
            for i in range(n):
                if truth(g(i)):
                    return True
            return False
        return SB(A.exists(n, lambda k: bterm(core.unwrap0(g(k)))))

    def vall(x):
        if isinstance(x, A.Arr):
            return A.reduce_(x, None, "all")
        n, g = seqof(x)
        n = conc(n)
        if isinstance(n, int):
            for i in range(n):
                if not truth(g(i)):
                    return False
            return True
        return SB(A.forall(n, lambda k: bterm(core.unwrap0(g(k)))))

    class TM(type):
        def __instancecheck__(c, x):
            return c._is(x)

        def __eq__(c, o):
            return c is o or o is c._t
        __hash__ = type.__hash__

    class Int(metaclass=TM):
        _isint = True
        _t = int

        def __new__(c, x=0, *a):
            x = core.unwrap0(x)
            if isinstance(x, (S, SB)):
                if isinstance(x, S):
                    ENG.require(x.ok, "int() of a valid number")
                return core.trunc(x)
            if isinstance(x, Fraction):
                return int(x)
            return int(x, *a) if a else int(x)

        @staticmethod
        def _is(x):
            return (isinstance(x, int)) or (isinstance(x, S) and x.isint and not getattr(x, "_npint", False))

    class Float(metaclass=TM):
        _isfloat = True
        _t = float

        def __new__(c, x=0):
            x = core.unwrap0(x)
            if isinstance(x, S):
                return S(core.real(x), x.ok)
            if isinstance(x, SB):
                return S(core.real(x))
            if isinstance(x, str):
                return fconst(x)
            if is_num(x):
                return Fraction(x) if not isinstance(x, float) else x
            return float(x)

        @staticmethod
        def _is(x):
            return isinstance(x, (float, Fraction)) or (isinstance(x, S) and not x.isint)

    class List(metaclass=TM):
        _t = list

        def __new__(c, x=()):
            if isinstance(x, dict):
                return VList(x)
            if hasattr(x, "_seq") or isinstance(x, A.Arr):
                n, g = seqof(x)
                if not isinstance(conc(n), int):
                    return SList(n, g)
                return VList([g(i) for i in range(conc(n))])
            return VList(x)

        @staticmethod
        def _is(x):
            return isinstance(x, (list, SList))

    class Tuple(metaclass=TM):
        _t = tuple

        def __new__(c, x=()):
            if hasattr(x, "_seq") or isinstance(x, A.Arr):
                n, g = seqof(x)
                if not isinstance(conc(n), int):
                    return SList(n, g)
                return tuple(g(i) for i in range(conc(n)))
            return tuple(x)

        @staticmethod
        def _is(x):
            return isinstance(x, tuple)

    class Dict(metaclass=TM):
        _t = dict

        def __new__(c, *a, **k):
            return VDict(dict(*a, **k))

        @staticmethod
        def _is(x):
            return isinstance(x, dict)

    class Str(metaclass=TM):
        _t = str

        def __new__(c, x=""):
            x = core.unwrap0(x)
            if isinstance(x, S) and x.isint:
                return Text(format(x, ""))._of(x)
            return str(x)

        @staticmethod
        def _is(x):
            return isinstance(x, str)
        join = str.join

    class Bool(metaclass=TM):
        _isbool = True
        _t = bool

        def __new__(c, x=False):
            return truth(x)

        @staticmethod
        def _is(x):
            return isinstance(x, (bool, SB))

    def visinstance(x, t):
        if isinstance(t, tuple):
            return any(visinstance(x, y) for y in t)
        return isinstance(x, t)

    def vtype(*a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, bool):
                return Bool
            if isinstance(x, S):
                return Int if x.isint else Float
            for c in (Bool, Int, Float, List, Tuple, Dict, Str):
                if type(x) is c._t or (c is List and isinstance(x, VList)) or (c is Dict and isinstance(x, VDict)):
                    return c
        return type(*a)

    def vsorted(x, **k):
        n, g = seqof(x)
        if not isinstance(conc(n), int):
            raise Unsupported("sorting a symbolic sequence")
        l = [g(i) for i in range(conc(n))]
        if any(isinstance(v, (S, SB)) for v in l):
            raise Unsupported("sorting symbolic values")
        return VList(sorted(l, **k))

    def vmap(f, *xs):
        z = vzip(*xs)
        if isinstance(z, SList):
            return SList(z.n, lambda i: f(*z._get(i)))
        return [f(*t) for t in z]

    def vprint(*a, **k):
        pass

    def vreversed(x):
        n, g = seqof(x)
        if isinstance(conc(n), int):
            return [g(i) for i in reversed(range(conc(n)))]
        return SList(n, lambda i: g(n - 1 - i))

    def vfilter(f, x):
        return VF.comp(x, lambda v: v, [f if f is not None else (lambda v: v)], "list")

    def vimport(name, globals=None, locals=None, fromlist=(), level=0):
        return loader.imp(name, globals, locals, fromlist, level)

    def vset(x=()):
        return set(x)
    d.update(len=vlen, range=vrange, min=ext("min"), max=ext("max"), abs=vabs, sum=vsum, round=vround, enumerate=venum,
             zip=vzip, any=vany, all=vall, int=Int, float=Float, list=List, tuple=Tuple, dict=Dict, str=Str, bool=Bool,
             isinstance=visinstance, type=vtype, sorted=vsorted, map=vmap, print=vprint, reversed=vreversed, filter=vfilter,
             __import__=vimport, pow=VF.pow, divmod=lambda a, b: (VF.floordiv(a, b), VF.mod(a, b)))
    return d
