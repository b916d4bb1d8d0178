"""Contract models of the labelled arrays (xarray): an array plus the names of its dimensions.

Missing values are invalid elements; reductions skip them, like xarray's."""
import z3
from . import core, arr as A
from .core import ENG, S, SB, I, R, Unsupported, term, real, conc, is_scalar, okof, And, Or, Not, bterm
from .arr import Arr


class DA:
    _xr = True

    def __init__(s, a, dims, name=None, coords=None):
        s.a = a
        s.dims = tuple(dims)
        s.name = name
        s.coords_ = dict(coords or {})
        if len(s.dims) != a.ndim:
            raise Unsupported("labelled array with %d names for %d dimensions" % (len(s.dims), a.ndim))

    # -- plain access
    @property
    def shape(s):
        return s.a.shape

    @property
    def ndim(s):
        return s.a.ndim

    @property
    def size(s):
        return s.a.size

    @property
    def sizes(s):
        return dict(zip(s.dims, s.a.shape))

    @property
    def values(s):
        return s.a

    @property
    def data(s):
        return s.a

    def to_numpy(s):
        return s.a

    @property
    def dtype(s):
        return s.a.dtype

    def _asarr(s):
        return s.a

    def _scalar0(s):
        return s.a._scalar0() if s.a.ndim == 0 else None

    def _len(s):
        return s.a.shape[0]

    def __len__(s):
        return len(s.a)

    def _new(s, a, dims=None):
        return DA(a, s.dims if dims is None else dims, s.name)

    def load(s, *a, **k):
        return s

    compute = persist = load

    def copy(s, *a, **k):
        return s._new(s.a.copy())

    def astype(s, ty):
        return s._new(s.a.astype(ty))

    # -- selection
    def isel(s, indexers=None, drop=False, missing_dims="raise", **kw):
        sel = dict(indexers or {})
        sel.update(kw)
        key, dims = [], []
        for d in sel:
            if d not in s.dims:
                raise ValueError("Dimensions %r do not exist" % (d,))
        for d in s.dims:
            k = sel.get(d, slice(None))
            key.append(k)
            if isinstance(k, slice):
                dims.append(d)
            elif isinstance(core.unwrap0(k), Arr):
                raise Unsupported("isel with an array")
        r = s.a[tuple(key)]
        return s._new(A.asarr(r), dims)

    def __getitem__(s, k):
        if isinstance(k, dict):
            return s.isel(k)
        if not isinstance(k, tuple):
            k = (k,)
        if any(x is Ellipsis for x in k):
            raise Unsupported("labelled array indexed with ...")
        return s.isel(dict(zip(s.dims, k)))

    def __setitem__(s, k, v):
        s.a[k] = v._asarr() if isinstance(v, DA) else v

    def squeeze(s, dim=None, drop=False):
        keep, key = [], []
        for d, n in zip(s.dims, s.a.shape):
            n1 = conc(n)
            one = n1 == 1 if isinstance(n1, int) else ENG.decide(n1.t == 1)
            if one and (dim is None or d == dim or (isinstance(dim, (list, tuple)) and d in dim)):
                key.append(0)
            else:
                keep.append(d)
                key.append(slice(None))
        if len(keep) == len(s.dims):
            return s._new(s.a)
        return s._new(A.asarr(s.a[tuple(key)]), keep)

    def transpose(s, *dims, missing_dims="raise", **k):
        if not dims:
            dims = tuple(reversed(s.dims))
        given = [d for d in dims if d is not Ellipsis]
        for d in given:
            if d not in s.dims and missing_dims == "raise":
                raise ValueError("%r is not a dimension" % (d,))
        given = [d for d in given if d in s.dims]
        if Ellipsis in dims:
            rest = [d for d in s.dims if d not in given]
            out = []
            for d in dims:
                if d is Ellipsis:
                    out += rest
                elif d in s.dims:
                    out.append(d)
        else:
            out = given
            if set(out) != set(s.dims):
                raise ValueError("dimensions do not match")
        order = [s.dims.index(d) for d in out]
        if order == list(range(len(order))):
            return s._new(s.a)
        return s._new(s.a.transpose(*order), out)

    @property
    def T(s):
        return s.transpose()

    def rename(s, m=None):
        raise Unsupported("rename of a labelled array")

    # -- elementwise
    def _map(s, f, kind="same"):
        return s._new(A.amap(f, s.a) if kind == "same" else A.amap(f, s.a, kind=kind))

    def fillna(s, v):
        return s._map(lambda x: x if z3.is_true(okof(x)) else core.ite(SB(okof(x)), S(real(x)), core.unwrap0(v)))

    def isnull(s):
        return s._map(lambda x: SB(Not(okof(x))), kind="b")

    def notnull(s):
        return s._map(lambda x: SB(okof(x)), kind="b")

    def where(s, cond, other=None, drop=False):
        if drop:
            raise Unsupported("where with drop")
        if other is not None and is_scalar(core.unwrap0(other)) and not core.isnanc(core.unwrap0(other)):
            o = core.unwrap0(other)
            f = lambda x, c: core.ite(SB(bterm(c)), x, o)
        elif other is None or core.isnanc(core.unwrap0(other)):
            f = lambda x, c: S(term(x), And(okof(x), bterm(c)))
        else:
            raise Unsupported("where with an array of alternatives")
        if isinstance(cond, DA):
            if cond.dims != s.dims:
                cond = cond.transpose(*s.dims)
            cond = cond.a
        cond = A.asarr(cond)
        if len(cond.shape) != s.a.ndim:
            raise ValueError("condition of another number of dimensions")
        for x, y in zip(cond.shape, s.a.shape):
            if not core.same(x, y):
                ENG.require(term(x) == term(y), "array shapes match")
        return s._new(A.broadcast2(f, s.a, cond))

    def clip(s, *a, **k):
        return s._new(s.a.clip(*a, **k))

    def _bin2(s, f, a, b, kind=None):
        ad = a.dims if isinstance(a, DA) else None
        bd = b.dims if isinstance(b, DA) else None
        if ad is not None and bd is not None:
            out = list(ad) + [d for d in bd if d not in ad]
            if ad == bd:
                return DA(A.broadcast2(f, a.a, b.a, False, kind), ad, s.name)
            sizes = dict(b.sizes)
            sizes.update(a.sizes)
            for d in ad:
                if d in bd and not core.same(a.sizes[d], b.sizes[d]):
                    ENG.require(term(a.sizes[d]) == term(b.sizes[d]), "array shapes match")
            ia, ib = [out.index(d) for d in ad], [out.index(d) for d in bd]
            ga = a.a._get if a.a.view is None else A.freeze_view(a.a)
            gb = b.a._get if b.a.view is None else A.freeze_view(b.a)
            return DA(Arr(tuple(sizes[d] for d in out), lambda i: f(ga(tuple(i[j] for j in ia)), gb(tuple(i[j] for j in ib))), kind), out, s.name)
        d = a if ad is not None else b
        o = core.unwrap0(b if ad is not None else a)
        rev = ad is None
        if is_scalar(o):
            g = (lambda x: f(o, x)) if rev else (lambda x: f(x, o))
            return d._new(A.amap(g, d.a) if kind is None else A.amap(g, d.a, kind=kind))
        o = A.asarr(o)
        if o.ndim != d.ndim:
            raise Unsupported("labelled array combined with an array of another number of dimensions")
        return d._new(A.broadcast2(f, d.a, o, rev, kind))

    def __add__(s, o): return s._bin2(lambda a, b: a + b, s, o)
    def __radd__(s, o): return s._bin2(lambda a, b: a + b, o, s)
    def __sub__(s, o): return s._bin2(lambda a, b: A.num(a) - A.num(b), s, o)
    def __rsub__(s, o): return s._bin2(lambda a, b: A.num(a) - A.num(b), o, s)
    def __mul__(s, o): return s._bin2(lambda a, b: A.num(a) * A.num(b), s, o)
    def __rmul__(s, o): return s._bin2(lambda a, b: A.num(a) * A.num(b), o, s)
    def __truediv__(s, o): return s._bin2(A.npdiv, s, o)
    def __rtruediv__(s, o): return s._bin2(A.npdiv, o, s)
    def __pow__(s, o): return s._bin2(lambda a, b: core.power(A.num(a), b), s, o)
    def __neg__(s): return s._map(lambda x: -A.num(x))
    def __pos__(s): return s
    def __abs__(s): return s._map(core.absolute)
    def __lt__(s, o): return s._bin2(lambda a, b: A.cmp("<", a, b), s, o, "b")
    def __le__(s, o): return s._bin2(lambda a, b: A.cmp("<=", a, b), s, o, "b")
    def __gt__(s, o): return s._bin2(lambda a, b: A.cmp(">", a, b), s, o, "b")
    def __ge__(s, o): return s._bin2(lambda a, b: A.cmp(">=", a, b), s, o, "b")
    def __eq__(s, o): return s._bin2(lambda a, b: A.cmp("==", a, b), s, o, "b")
    def __ne__(s, o): return s._bin2(lambda a, b: A.cmp("!=", a, b), s, o, "b")
    def __and__(s, o): return s._bin2(lambda a, b: SB(And(bterm(a), bterm(b))), s, o, "b")
    def __or__(s, o): return s._bin2(lambda a, b: SB(Or(bterm(a), bterm(b))), s, o, "b")
    def __invert__(s): return s._map(lambda x: SB(Not(bterm(x))), kind="b")
    __hash__ = None

    def __bool__(s):
        if s.a.ndim == 0:
            return bool(s.a)
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(s):
        raise Unsupported("float() of a labelled array")

    def item(s):
        return s.a.item()

    # -- reductions (missing values skipped)
    def _axes(s, dim):
        if dim is None or dim is Ellipsis:
            return None
        if isinstance(dim, str):
            dim = (dim,)
        for d in dim:
            if d not in s.dims:
                raise ValueError("%r not found in array dimensions" % (d,))
        if set(dim) == set(s.dims):
            return None
        if len(dim) != 1:
            raise Unsupported("reduction along several dimensions")
        return s.dims.index(dim[0])

    def _red(s, dim, whole):
        ax = s._axes(dim)
        if ax is None:
            v = whole(s.a)
            return s._new(A.asarr(v), ())
        a = s.a
        g = a._get if a.view is None else A.freeze_view(a)
        n = a.shape[ax]
        shape = a.shape[:ax] + a.shape[ax + 1:]

        def line(idx):
            return Arr((n,), lambda k: g(tuple(idx[:ax]) + (k[0],) + tuple(idx[ax:])), a.kind)
        return s._new(Arr(shape, lambda idx: whole(line(idx)), "f"), tuple(d for j, d in enumerate(s.dims) if j != ax))

    def mean(s, dim=None, axis=None, skipna=None, **k):
        dim = s._ax(dim, axis)
        if skipna is False:
            return s._red(dim, lambda a: A._reduce_all(a, "mean"))
        return s._red(dim, A.nanmean)

    def sum(s, dim=None, axis=None, **k):
        return s._red(s._ax(dim, axis), A.nansum)

    def max(s, dim=None, axis=None, **k):
        return s._red(s._ax(dim, axis), lambda a: A.extreme(a, "max", True))

    def min(s, dim=None, axis=None, **k):
        return s._red(s._ax(dim, axis), lambda a: A.extreme(a, "min", True))

    def std(s, dim=None, axis=None, **k):
        return s._red(s._ax(dim, axis), lambda a: A.std(a, True))

    def count(s, dim=None, **k):
        return s._red(dim, A.nancount)

    def any(s, dim=None, axis=None, **k):
        return s._red(s._ax(dim, axis), lambda a: A._reduce_all(a, "any"))

    def all(s, dim=None, axis=None, **k):
        return s._red(s._ax(dim, axis), lambda a: A._reduce_all(a, "all"))

    def _ax(s, dim, axis):
        if axis is not None:
            if dim is not None:
                raise ValueError("dim and axis")
            return s.dims[int(axis)]
        return dim

    def argmax(s, dim=None, axis=None, skipna=None, **k):
        """position of the first largest valid value in the flattened array"""
        if dim is not None or axis is not None:
            raise Unsupported("argmax along a dimension")
        return A.argext(s.a, None, True, nan=True)

    def argmin(s, dim=None, axis=None, skipna=None, **k):
        if dim is not None or axis is not None:
            raise Unsupported("argmin along a dimension")
        return A.argext(s.a, None, False, nan=True)

    def _reduce(s, what, axis):
        """np.max(da) and the like dispatch to the methods"""
        return getattr(s, what)(axis=axis)


class Dataset:
    """A mapping from names to labelled arrays; keys() are the data variables only."""

    def __init__(s, data_vars, coords=None):
        s.v = dict(data_vars)
        s.c = dict(coords or {})
        s.log = []

    def __getitem__(s, k):
        if k in s.v:
            return s.v[k]
        if k in s.c:
            return s.c[k]
        raise KeyError(k)

    def __setitem__(s, k, v):
        s.log.append(("set", k))
        s.v[k] = v

    def keys(s):
        return list(s.v)

    def __iter__(s):
        return iter(list(s.v))

    def __contains__(s, k):
        return k in s.v or k in s.c

    @property
    def data_vars(s):
        return dict(s.v)

    @property
    def coords(s):
        return dict(s.c)

    @property
    def variables(s):
        d = dict(s.v)
        d.update(s.c)
        return d

    @property
    def dims(s):
        out = {}
        for v in list(s.v.values()) + list(s.c.values()):
            out.update(v.sizes)
        return out
    sizes = dims

    def copy(s, deep=False):
        return Dataset({k: v.copy() if deep else v for k, v in s.v.items()}, {k: v.copy() if deep else v for k, v in s.c.items()})
