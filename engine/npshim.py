"""Contract model of the parts of numpy the package uses (real arithmetic, row-major arrays)."""
import types
from fractions import Fraction
import z3
from . import core, arr as A, canon as C
from .core import ENG, S, SB, I, R, Unsupported, term, real, conc, is_scalar, is_num, bterm, TRUE, FALSE, And, Or, Not, okof, ite
from .arr import Arr, asarr, amap, broadcast, reduce_, same
from .seq import SList, seqof, length
from .rtlib import VList


class NS(types.SimpleNamespace):
    def __getattr__(s, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("numpy: %s is not modelled" % k)


PIS = S(core.PI)


def u1(f, kind="f"):
    def g(x, *a, **k):
        if hasattr(x, "_map"):
            return x._map(f)
        x0 = core.unwrap0(x)
        if is_scalar(x0):
            r = f(A.num(x0) if isinstance(x0, SB) else x0)
            return r
        return amap(lambda v: f(A.num(v)), asarr(x), kind=kind)
    return g


def bin2(f, kind=None):
    def g(a, b, *x, **k):
        a, b = core.unwrap0(a) if not isinstance(a, Arr) else a, core.unwrap0(b) if not isinstance(b, Arr) else b
        if is_scalar(a) and is_scalar(b):
            return f(a, b)
        if hasattr(a, "_xr") or hasattr(b, "_xr"):
            return (a if hasattr(a, "_xr") else b)._bin2(f, a, b)
        return broadcast(f, a, b, kind=kind)
    return g


def red(what):
    def g(x, axis=None, **k):
        if hasattr(x, "_reduce"):
            return x._reduce(what, axis)
        x = core.unwrap0(x) if is_scalar(x) else x
        if is_scalar(x):
            if what in ("any", "all"):
                return SB(bterm(x))
            return x
        if isinstance(x, (list, tuple)) and not x:
            if what == "sum":
                return Fraction(0)
            if what in ("max", "min"):
                raise ValueError("zero-size array to reduction operation %s which has no identity" % what)
        r = reduce_(asarr(x), axis if axis is None or isinstance(axis, tuple) else int(axis), what, k.get("keepdims"))
        return r
    return g


def array(x, dtype=None, *a, **k):
    if hasattr(x, "_xr"):
        return x.values.copy()
    r = asarr(x)
    if r is x:
        r = r.copy()
    dt = dtype
    if dt is not None:
        if getattr(dt, "_isint", False) or dt is int:
            return r.astype(dt)
        if getattr(dt, "_isbool", False) or dt is bool:
            return r.astype(dt)
        if r.kind in ("i",):
            r = amap(lambda v: v, r, kind="f")
    return r


def full(shape, v, dtype=None, **k):
    shape = shp(shape)
    isint = getattr(dtype, "_isint", False) or dtype is int or (dtype is None and core.isint(v))
    isb = getattr(dtype, "_isbool", False) or dtype is bool
    if isb:
        v = bool(v) if not isinstance(v, SB) else v
    return Arr(shape, lambda i: v, "b" if isb or isinstance(v, bool) else "i" if isint else "f")


def shp(s):
    if isinstance(s, (list, tuple)):
        out = [conc(core.unwrap0(x)) for x in s]
    elif isinstance(s, Arr) and s.ndim:
        out = [conc(s[j]) for j in range(s.shape[0])]
    else:
        out = [conc(core.unwrap0(s))]
    for d in out:
        if isinstance(d, S):
            if not d.isint:
                raise TypeError("'float' object cannot be interpreted as an integer")
            if not core.must(d.t >= 0):
                ENG.require(d.t >= 0, "array extent is not negative")
        elif not isinstance(d, int):
            raise TypeError("array extents must be integers")
        elif d < 0:
            raise ValueError("negative dimensions are not allowed")
    return tuple(out)


def zeros(shape, dtype=None, **k):
    isint = getattr(dtype, "_isint", False) or dtype is int
    isb = getattr(dtype, "_isbool", False) or dtype is bool
    return Arr(shp(shape), lambda i: False if isb else 0, "b" if isb else "i" if isint else "f")


def ones(shape, dtype=None, **k):
    isint = getattr(dtype, "_isint", False) or dtype is int
    isb = getattr(dtype, "_isbool", False) or dtype is bool
    return Arr(shp(shape), lambda i: True if isb else 1, "b" if isb else "i" if isint else "f")


def like(f):
    return lambda x, *a, **k: f(asarr(x).shape, *a, **k)


def arange(*a, **k):
    dtype = k.get("dtype", a[3] if len(a) > 3 else None)
    a = [core.unwrap0(x) for x in a[:3]]
    if dtype is not None:
        r = arange(*a)
        return r.astype(dtype) if r.kind != "f" or dtype is not float else r
    if len(a) == 1:
        st, en, step = 0, a[0], 1
    elif len(a) == 2:
        (st, en), step = a, 1
    else:
        st, en, step = a
    if core.isint(st) and core.isint(en) and core.isint(step):
        from .seq import SRange
        if all(isinstance(conc(x), int) for x in (st, en, step)):
            r = range(conc(st), conc(en), conc(step))
            return Arr((len(r),), lambda i: conc(st) + conc(step) * i[0] if not isinstance(i[0], int) else r[i[0]], "i")
        rr = SRange(st, en, step)
        n, g = rr._seq()
        return Arr((n,), lambda i: g(i[0]), "i")
    # ceil((en-st)/step) elements
    q = core.divide(en - st if not (is_num(st) and st == 0) else en, step)
    if is_num(q):
        import math
        n = max(0, math.ceil(q))
    else:
        n = S(-z3.ToInt(-real(q)))
        ENG.require(core.real(step) != 0, "arange with a non-zero step")
        if not core.must(n.t >= 0):
            n = core.smax(n, 0)
    return Arr((n,), lambda i: st + step * i[0], "f")


def linspace(a, b, n=50, **k):
    if set(k) - {"dtype"}:
        raise Unsupported("linspace with %s" % list(k))
    n = conc(core.unwrap0(n))
    a, b = core.unwrap0(a), core.unwrap0(b)
    if isinstance(n, int) and n == 1:
        return Arr((1,), lambda i: a, "f")
    d = n - 1

    def get(i):
        j = i[0]
        if isinstance(n, int):
            return a + (b - a) * core.divide(j, d)
        # a single point: numpy returns the start
        return a + (b - a) * S(z3.If(term(n) == 1, z3.RealVal(0), real(j) / real(d)))
    return Arr((n,), get, "f")


def concat(xs, axis=0, **k):
    if hasattr(xs, "_vstack"):
        return xs._vstack(axis)
    xs = [asarr(x) for x in xs] if isinstance(xs, (list, tuple)) else [asarr(seqof(xs)[1](i)) for i in range(len(xs))]
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    if any(x.ndim != nd for x in xs):
        raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    for x in xs[1:]:
        for j in range(nd):
            if j != axis and not same(x.shape[j], xs[0].shape[j]):
                if isinstance(x.shape[j], int) and isinstance(xs[0].shape[j], int):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
                ENG.require(term(x.shape[j]) == term(xs[0].shape[j]), "array shapes match")
    gs = [x._get if x.view is None else A.freeze_view(x) for x in xs]
    tot = 0
    offs = []
    for x in xs:
        offs.append(tot)
        tot = conc(tot + x.shape[axis])
    shape = xs[0].shape[:axis] + (tot,) + xs[0].shape[axis + 1:]

    def get(idx):
        i = conc(idx[axis])
        r = None
        for j in reversed(range(len(xs))):
            sub = tuple(idx[:axis]) + (conc(i - offs[j]) if not (isinstance(offs[j], int) and offs[j] == 0) else i,) + tuple(idx[axis + 1:])
            if isinstance(i, int) and isinstance(offs[j], int) and isinstance(conc(offs[j] + xs[j].shape[axis]), int):
                if offs[j] <= i < offs[j] + xs[j].shape[axis]:
                    return gs[j](sub)
                continue
            if r is None:
                r = gs[j](sub)
            else:
                c = A.lt(i, conc(offs[j] + xs[j].shape[axis]))
                r = ite(SB(c), gs[j](sub), r)
        return r
    kinds = {x.kind for x in xs}
    return Arr(shape, get, kinds.pop() if len(kinds) == 1 else "f")


def at1(x):
    x = asarr(x)
    return x.reshape(1) if x.ndim == 0 else x


def at2(x):
    x = asarr(x)
    if x.ndim == 0:
        return Arr((1, 1), lambda i: x.at(), x.kind)
    if x.ndim == 1:
        return Arr((1, x.shape[0]), lambda i: x.at(i[1]), x.kind)
    return x


def hstack(xs):
    xs = [at1(x) for x in list_of(xs)]
    return concat(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    if hasattr(xs, "_vstack"):
        return xs._vstack(0)
    return concat([at2(x) for x in list_of(xs)], 0)


def column_stack(xs):
    ys = []
    for x in list_of(xs):
        x = asarr(x)
        ys.append(at2(x).T if x.ndim < 2 else x)
    return concat(ys, 1)


def stack(xs, axis=0):
    xs = [asarr(x) for x in list_of(xs)]
    nd = xs[0].ndim + 1
    axis = axis % nd
    ys = [Arr(x.shape[:axis] + (1,) + x.shape[axis:], (lambda x: lambda i: x.at(*(tuple(i[:axis]) + tuple(i[axis + 1:]))))(x), x.kind) for x in xs]
    return concat(ys, axis)


def list_of(xs):
    if isinstance(xs, (list, tuple)):
        return list(xs)
    n, g = seqof(xs)
    if not isinstance(conc(n), int):
        raise Unsupported("stacking a symbolic number of arrays")
    return [g(i) for i in range(conc(n))]


def diff(x, n=1, axis=-1):
    x = asarr(x)
    if n != 1:
        raise Unsupported("diff of higher order")
    axis = int(axis) % x.ndim
    sl = [slice(None)] * x.ndim
    a, b = list(sl), list(sl)
    a[axis], b[axis] = slice(1, None), slice(None, -1)
    return x[tuple(a)] - x[tuple(b)]


def where(c, *xy):
    if not xy:
        return A.nonzero(c)
    c0 = core.unwrap0(c) if is_scalar(c) else c
    x, y = xy
    if hasattr(c, "_xr") or hasattr(x, "_xr"):
        raise Unsupported("np.where on labelled arrays")
    r = broadcast(lambda cc, a, b: ite(SB(bterm(cc)), a, b), asarr(c0), x if is_scalar(x) else asarr(x), y if is_scalar(y) else asarr(y), kind="f")
    return r


def argwhere(c):
    c = asarr(c)
    nz = A.nonzero(c)
    m = c if c.kind == "b" else A.amap(lambda x: SB(term(x) != 0), c, kind="b")
    nd = c.ndim
    r = Arr((nz[0].shape[0], nd), lambda i: A.pick([(lambda q: (lambda rest: q.at(i[0])))(q) for q in nz], i[1], ()), "i")
    return r


def unravel_index(ind, shape, **k):
    shape = shp(shape)
    i0 = core.unwrap0(ind) if is_scalar(ind) or isinstance(ind, Arr) else ind
    if isinstance(i0, A.FlatIndex) and len(i0.idx) == len(shape) and all(same(a, b) for a, b in zip(i0.shp, shape)):
        return tuple(i0.idx)
    tot = A.prod(shape)
    if is_scalar(i0):
        ENG.require(And(term(i0) >= 0, term(i0) < term(tot)), "unravel_index of an index in range")
        return tuple(A.unravel(i0, shape))
    a = asarr(i0)
    A.check_index_array(a, tot)
    return tuple(Arr(a.shape, (lambda j: lambda i: A.unravel(a.at(*i), shape)[j])(j), "i") for j in range(len(shape)))


def meshgrid(*xs, indexing="xy", **k):
    xs = [asarr(x) for x in xs]
    xs = [x.ravel() if x.ndim != 1 else x for x in xs]
    if len(xs) != 2:
        raise Unsupported("meshgrid of %d arrays" % len(xs))
    x, y = xs
    gx, gy = x._get if x.view is None else A.freeze_view(x), y._get if y.view is None else A.freeze_view(y)
    if indexing == "xy":
        sh = (y.shape[0], x.shape[0])
        return VList([Arr(sh, lambda i: gx((i[1],)), x.kind), Arr(sh, lambda i: gy((i[0],)), y.kind)])
    sh = (x.shape[0], y.shape[0])
    return VList([Arr(sh, lambda i: gx((i[0],)), x.kind), Arr(sh, lambda i: gy((i[1],)), y.kind)])


def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 100000000), **k):
    def f(x, y):
        x, y = A.num(x), A.num(y)
        d = core.absolute(x - y)
        lim = atol + rtol * core.absolute(y)
        return A.cmp("<=", d, lim)
    a, b = (x if is_scalar(x) else asarr(x) for x in (a, b))
    if is_scalar(a) and is_scalar(b):
        return f(a, b)
    return broadcast(f, a, b, kind="b")


def nanred(x, axis, what, f):
    if axis is None:
        return f(x)
    x = asarr(x)
    with A.pure():
        v = x.at(*[core.S(core.z3.Int("some%d!" % j)) for j in range(x.ndim)])
    if not core.z3.is_true(okof(v)):
        raise Unsupported("nan%s along an axis of an array with missing values" % what)
    return reduce_(x, axis, what)


def ptp(x, axis=None):
    return reduce_(asarr(x), axis, "max") - reduce_(asarr(x), axis, "min")


def norm(x, ord=None, axis=None):
    x = asarr(x)
    if ord not in (None, 2) or axis is not None or x.ndim != 1:
        raise Unsupported("norm")
    return core.sqrt(A.bigsum(lambda k: x.at(k) * x.at(k), 0, x.shape[0]))


class LinAlgError(ValueError):
    pass


def solve(a, b):
    """A x = b with A non-singular, or LinAlgError"""
    a, b = asarr(a), asarr(b)
    n = a.shape[0]
    if not isinstance(n, int) or a.ndim != 2 or b.ndim != 1:
        raise Unsupported("linear system of symbolic size")
    if not (isinstance(a.shape[1], int) and a.shape[1] == n and isinstance(b.shape[0], int) and b.shape[0] == n):
        raise LinAlgError("Last 2 dimensions of the array must be square")
    if ENG.opts.get("solve_may_fail", True) and ENG.choose(2, "singular") == 1:
        ENG.path_notes.append("singular")
        raise LinAlgError("Singular matrix")
    prev = [q for q in ENG.path_notes if isinstance(q, tuple) and q[0] == "solve"] if ENG.opts.get("solve_reuse") else []
    if prev:
        # the solution of a non-singular system is unique: same system, same solution
        _, pa, pb, x = prev[0]
        for i in range(n):
            ENG.require(real(b.at(i)) == real(pb.at(i)), "the second linear system is the first (right-hand side)", assume=False)
            for j in range(n):
                ENG.require(real(a.at(i, j)) == real(pa.at(i, j)), "the second linear system is the first (matrix)", assume=False)
        return Arr((n,), lambda i: A.pick([(lambda v: lambda rest: v)(v) for v in x], i[0], ()), "f")
    x = [S(ENG.fresh("sol", R)) for _ in range(n)]
    eqs = []
    for i in range(n):
        lhs = 0
        for j in range(n):
            lhs = lhs + a.at(i, j) * x[j]
        eqs.append((lhs, b.at(i)))
    ENG.path_notes.append(("solve", a, b, x))
    if not ENG.opts.get("solve_no_assume"):
        for l, r in eqs:
            ENG.assume(real(l) == real(r))
    return Arr((n,), lambda i: A.pick([(lambda v: lambda rest: v)(v) for v in x], i[0], ()), "f")


def lstsq(a, b, rcond=None):
    raise Unsupported("lstsq")


def isnan(x):
    if hasattr(x, "_map"):
        return x._map(lambda v: SB(Not(okof(v))))
    x0 = core.unwrap0(x)
    if is_scalar(x0):
        return SB(Not(okof(x0)))
    return amap(lambda v: SB(Not(okof(v))), asarr(x), kind="b")


def isfinite(x):
    x0 = core.unwrap0(x)
    if is_scalar(x0):
        return SB(okof(x0))
    return amap(lambda v: SB(okof(v)), asarr(x), kind="b")


def rnd(x, decimals=0, **k):
    x0 = core.unwrap0(x)
    if is_scalar(x0):
        return core.rounding(x0, decimals)
    return amap(lambda v: core.rounding(v, decimals), asarr(x))


def unique(x, **k):
    """sorted distinct values: only the first, the last and membership are known"""
    x = asarr(x)
    if k:
        raise Unsupported("unique with options")
    n = S(ENG.fresh("nun", I))
    f = ENG.fresh_fn("unq", I, I if x.kind == "i" else R)
    w = [ENG.fresh_fn("unqw", I, I) for _ in x.shape]
    r = ENG.fresh_fn("unqr", *([I] * x.ndim + [I]))
    ENG.require(And(*[term(d) >= 0 for d in x.shape]), "unique")
    ENG.assume(n.t >= 0)
    i, j = z3.Ints("ui uj")
    with A.pure():
        src = x.at(*[S(g(i)) for g in w])
    ENG.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.t), And(f(i) == core.term(src), *[And(g(i) >= 0, g(i) < term(d)) for g, d in zip(w, x.shape)])), patterns=[f(i)]))
    ENG.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n.t), f(i) < f(j))))
    vs = [z3.Int("uv%d" % q) for q in range(x.ndim)]
    with A.pure():
        e = x.at(*[S(v) for v in vs])
    ri = r(*vs)
    ENG.assume(z3.ForAll(vs, z3.Implies(And(*[And(v >= 0, v < term(d)) for v, d in zip(vs, x.shape)]), And(ri >= 0, ri < n.t, f(ri) == term(e)))))
    return Arr((n,), lambda k: S(f(term(k[0]))), x.kind)


def expand_dims(x, axis):
    x = asarr(x)
    axis = axis % (x.ndim + 1)
    return Arr(x.shape[:axis] + (1,) + x.shape[axis:], lambda i: x.at(*(tuple(i[:axis]) + tuple(i[axis + 1:]))), x.kind)


def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return Arr((a.shape[0], b.shape[0]), lambda i: a.at(i[0]) * b.at(i[1]))


def tile(x, reps):
    raise Unsupported("tile")


def searchsorted(*a, **k):
    raise Unsupported("searchsorted")


def allclose(a, b, **k):
    return SB(bterm(core.unwrap0(reduce_(isclose(a, b, **k), None, "all")))) if not is_scalar(a) or not is_scalar(b) else isclose(a, b, **k)


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    return reduce_(a == b, None, "all")


class DT:
    def __init__(s, n, isint=False, isbool=False):
        s.n, s._isint, s._isbool = n, isint, isbool

    def __call__(s, x=0):
        x0 = core.unwrap0(x)
        if isinstance(x, Arr) and x.ndim:
            return x.astype(s)
        if s._isint:
            return core.trunc(x0)
        if isinstance(x0, S):
            return S(real(x0), x0.ok)
        return Fraction(x0) if is_num(x0) and not isinstance(x0, float) else x0


def lstgetter(x):
    return x


def make():
    n = NS()
    n.pi = PIS
    n.nan = float("nan")
    n.NaN = float("nan")
    n.inf = float("inf")
    n.newaxis = None
    n.e = core.exp(S(z3.RealVal(1)))
    for k in ("float64", "float32", "float_"):
        setattr(n, k, DT(k))
    for k in ("int64", "int32", "int_", "intp"):
        setattr(n, k, DT(k, True))
    n.bool_ = DT("bool", False, True)
    n.integer = DT("integer", True)
    n.ndarray = Arr
    for k in ("sin", "cos", "exp", "tan", "tanh", "sinh", "cosh", "log", "sqrt", "floor", "ceil", "sign"):
        setattr(n, k, u1(getattr(core, k)))
    n.arctan, n.arcsin, n.arccos = u1(core.atan), u1(core.asin), u1(core.acos)
    n.arctan2 = bin2(core.atan2)
    n.hypot = bin2(lambda a, b: core.sqrt(a * a + b * b))
    n.abs = n.absolute = n.fabs = u1(core.absolute, "same")
    n.square = u1(lambda x: x * x)
    n.trunc = u1(core.trunc)
    n.degrees = n.rad2deg = u1(lambda x: x * 180 / PIS if not is_num(x) else x * 180 / PIS)
    n.radians = n.deg2rad = u1(lambda x: x * PIS / 180)
    n.power = bin2(lambda a, b: core.power(a, b))
    n.maximum = bin2(core.smax)
    n.minimum = bin2(core.smin)
    n.add = bin2(lambda a, b: A.num(a) + A.num(b))
    n.subtract = bin2(lambda a, b: A.num(a) - A.num(b))
    n.multiply = bin2(lambda a, b: a * b)
    n.divide = n.true_divide = bin2(A.npdiv)
    n.mod = n.remainder = bin2(core.mod)
    n.floor_divide = bin2(core.floordiv)
    n.logical_and = bin2(lambda a, b: SB(And(bterm(a), bterm(b))), "b")
    n.logical_or = bin2(lambda a, b: SB(Or(bterm(a), bterm(b))), "b")
    n.logical_not = u1(lambda a: SB(Not(bterm(a))), "b")
    n.less, n.greater = bin2(lambda a, b: A.cmp("<", a, b), "b"), bin2(lambda a, b: A.cmp(">", a, b), "b")
    n.less_equal, n.greater_equal = bin2(lambda a, b: A.cmp("<=", a, b), "b"), bin2(lambda a, b: A.cmp(">=", a, b), "b")
    n.equal, n.not_equal = bin2(lambda a, b: A.cmp("==", a, b), "b"), bin2(lambda a, b: A.cmp("!=", a, b), "b")
    for k in ("sum", "mean", "max", "min", "any", "all"):
        setattr(n, k, red(k))
    n.amax, n.amin = n.max, n.min
    n.average = n.mean
    n.std = lambda x, **k: A.std(asarr(x))
    n.nanstd = lambda x, **k: A.std(asarr(x), True)
    n.nanmean = lambda x, axis=None, **k: nanred(x, axis, "mean", A.nanmean, **k)
    n.nansum = lambda x, axis=None, **k: nanred(x, axis, "sum", A.nansum, **k)
    n.nanmax = lambda x, **k: A.extreme(asarr(x), "max", True)
    n.nanmin = lambda x, **k: A.extreme(asarr(x), "min", True)
    n.argmax = lambda x, axis=None: x.argmax() if hasattr(x, "_xr") else A.argext(x, axis, True)
    n.argmin = lambda x, axis=None: A.argext(x, axis, False)
    n.nanargmax = lambda x, axis=None: A.argext(x, axis, True, True)
    n.nanargmin = lambda x, axis=None: A.argext(x, axis, False, True)
    n.array = array
    n.asarray = n.asanyarray = n.ascontiguousarray = lambda x, dtype=None, **k: asarr(x) if dtype is None else array(x, dtype)
    n.copy = lambda x: asarr(x).copy()
    n.zeros, n.ones, n.full, n.empty = zeros, ones, full, zeros_unknown
    n.zeros_like, n.ones_like = like(zeros), like(ones)
    n.full_like = lambda x, v, **k: full(asarr(x).shape, v, **k)
    n.empty_like = like(zeros_unknown)
    n.arange, n.linspace = arange, linspace
    n.concatenate, n.hstack, n.vstack, n.column_stack, n.stack = concat, hstack, vstack, column_stack, stack
    n.append = lambda a, b, axis=None: concat([asarr(a).ravel() if axis is None else asarr(a), at1(b).ravel() if axis is None else asarr(b)], axis or 0)
    n.diff, n.where, n.argwhere, n.nonzero = diff, where, argwhere, A.nonzero
    n.flatnonzero = lambda x: A.nonzero(asarr(x).ravel())[0]
    n.unravel_index = unravel_index
    n.ravel_multi_index = lambda idx, shape: A.ravel_idx(list(idx), shp(shape))
    n.meshgrid, n.isclose, n.allclose, n.ptp = meshgrid, isclose, allclose, ptp
    n.array_equal = array_equal
    n.linalg = NS(norm=norm, solve=solve, lstsq=lstsq, LinAlgError=LinAlgError)
    n.isnan, n.isfinite = isnan, isfinite
    n.round = n.around = n.round_ = rnd
    n.unique, n.expand_dims, n.outer = unique, expand_dims, outer
    n.dot = n.matmul = lambda a, b: A.dot(a, b)
    n.shape = lambda x: x.shape if hasattr(x, "shape") else asarr(x).shape
    n.size = lambda x: asarr(x).size
    n.ndim = lambda x: asarr(x).ndim
    n.transpose = lambda x, axes=None: asarr(x).transpose(*(axes or ()))
    n.ravel = lambda x: asarr(x).ravel()
    n.reshape = lambda x, *s: asarr(x).reshape(*s)
    n.squeeze = lambda x, axis=None: asarr(x).squeeze(axis)
    n.sort = lambda x, axis=-1: A.sort(x, axis)
    n.cumsum = lambda x: asarr(x).cumsum()
    n.clip = lambda x, a, b: asarr(x).clip(a, b) if not is_scalar(x) else core.smin(core.smax(x, a), b)
    n.atleast_1d, n.atleast_2d = at1, at2
    n.flip = lambda x, axis=None: asarr(x)[::-1] if asarr(x).ndim == 1 else flip(asarr(x), axis)
    n.isin = lambda a, b: amap(lambda v: SB(A.exists(seqof(b)[0], lambda k: bterm(A.cmp("==", seqof(b)[1](k), v)))), asarr(a), kind="b")
    n.take = lambda x, i, axis=None: asarr(x).take(i, axis)
    n.split = split
    n.broadcast_to = lambda x, s: bto(asarr(x), shp(s))
    n.seterr = lambda **k: None
    n.errstate = _Ctx
    n.repeat = lambda x, k, axis=None: asarr(x).repeat(k, axis)
    n.count_nonzero = lambda x: A._reduce_all(asarr(x) if asarr(x).kind == "b" else amap(lambda v: SB(term(v) != 0), asarr(x), kind="b"), "sum")
    n.random = None
    return n


class _Ctx:
    def __init__(s, **k):
        pass

    def __enter__(s):
        return s

    def __exit__(s, *a):
        return False


def flip(x, axis):
    sl = [slice(None)] * x.ndim
    for a in (range(x.ndim) if axis is None else [axis]):
        sl[a] = slice(None, None, -1)
    return x[tuple(sl)]


def bto(x, s):
    return Arr(s, lambda i: x.at(*A.bidx(i, s, x.shape)), x.kind)


def split(x, parts, axis=0):
    x = asarr(x)
    if isinstance(parts, int):
        n = x.shape[axis]
        if isinstance(n, int) and n % parts == 0:
            k = n // parts
            return VList([x[tuple([slice(None)] * axis + [slice(j * k, (j + 1) * k)])] for j in range(parts)])
    raise Unsupported("split")


def zeros_unknown(shape, dtype=None, **k):
    """np.empty: contents unknown"""
    sh = shp(shape)
    isint = getattr(dtype, "_isint", False) or dtype is int
    f = ENG.fresh_fn("empty", *([I] * len(sh) + [I if isint else R]))
    return Arr(sh, lambda i: S(f(*[term(x) for x in i])), "i" if isint else "f")


def make_math():
    m = NS()
    m.pi = PIS
    m.inf = float("inf")
    m.nan = float("nan")
    for k in ("sin", "cos", "exp", "tan", "log", "sqrt", "tanh"):
        setattr(m, k, mscalar(getattr(core, k)))
    m.atan, m.asin, m.acos = mscalar(core.atan), mscalar(core.asin), mscalar(core.acos)
    m.atan2 = lambda a, b: core.atan2(core.unwrap0(a), core.unwrap0(b))
    m.hypot = lambda a, b: core.sqrt(a * a + b * b)
    m.fabs = mscalar(core.absolute)
    m.floor = lambda x: core.S(z3.ToInt(real(core.unwrap0(x)))) if not is_num(core.unwrap0(x)) else core.floor(core.unwrap0(x))
    m.ceil = lambda x: core.S(-z3.ToInt(-real(core.unwrap0(x)))) if not is_num(core.unwrap0(x)) else core.ceil(core.unwrap0(x))
    m.degrees = lambda x: core.unwrap0(x) * 180 / PIS
    m.radians = lambda x: core.unwrap0(x) * PIS / 180
    m.pow = lambda a, b: core.power(a, b)
    m.isnan = lambda x: SB(Not(okof(core.unwrap0(x))))

    def dist(a, b):
        a, b = asarr(a), asarr(b)
        n = a.shape[0]
        if not same(n, b.shape[0]):
            ENG.require(term(n) == term(b.shape[0]), "both points have the same number of dimensions")
        return core.sqrt(A.bigsum(lambda k: (a.at(k) - b.at(k)) * (a.at(k) - b.at(k)), 0, n))
    m.dist = dist
    return m


def mscalar(f):
    def g(x):
        x = core.unwrap0(x)
        if isinstance(x, SB):
            x = A.num(x)
        if f is core.sqrt and isinstance(x, S):
            ENG.require(And(x.ok, real(x) >= 0), "math.sqrt of a number that is not negative")
        return f(x)
    return g
