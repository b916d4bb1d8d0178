"""Symbolic arrays: shape (concrete or symbolic extents) + element function."""
import z3
from fractions import Fraction
from . import core
from .core import (S, SB, ENG, And, Or, Not, TRUE, FALSE, I, R, Unsupported, term, real, okof, ite, is_scalar,
                   is_num, conc, same, smax, smin, bterm, must)
from . import canon as C


def dimt(n):
    return term(n)


def prod(shape):
    r = 1
    for d in shape:
        r = r * d
    return conc(r)


_gen = [0]


def gvar(base="g"):
    """A generic index variable (unique, deterministic within a path)."""
    return ENG.fresh(base, I)


class Arr:
    __array_priority__ = 2000
    _isarr = True

    def __init__(s, shape, get, kind=None, view=None):
        s.shape = tuple(conc(d) for d in shape)
        s._get = get
        s.kind = kind
        s.view = view            # (parent, inv) : inv(parent idx) -> (cond, own idx)
        s.oid = ENG.newid()
        ENG.objects[s.oid] = s
        s._memo = {}
        s._ver = 0
        s.note = None            # ghost information attached by models

    # ------------------------------------------------------------- basics
    @property
    def ndim(s):
        return len(s.shape)

    @property
    def size(s):
        return prod(s.shape)

    @property
    def T(s):
        return s.transpose()

    @property
    def dtype(s):
        return s.kind

    @property
    def values(s):
        return s

    @property
    def flat(s):
        return s.ravel()

    def at(s, *idx):
        if s.view is not None:
            return s._get(idx)
        key = tuple(i if isinstance(i, int) else i.t.get_id() if isinstance(i, S) else id(i) for i in idx)
        r = s._memo.get(key)
        if r is None:
            r = (s._get(idx), idx)
            s._memo[key] = r
        return r[0]

    def _scalar0(s):
        if all(isinstance(d, int) and d == 1 for d in s.shape):
            return s.at(*([0] * s.ndim))
        return s

    def __len__(s):
        if not s.shape:
            raise TypeError("len() of unsized object")
        n = s.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of an array of symbolic length")

    def __bool__(s):
        if s.size == 1:
            return bool(s.at(*([0] * s.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __iter__(s):
        n = s.shape[0]
        if not isinstance(n, int):
            raise Unsupported("native iteration over an array of symbolic length")
        for i in range(n):
            yield s[i]

    def __index__(s):
        v = s.item()
        return v if isinstance(v, int) else v.__index__()

    def item(s, *a):
        if a:
            return s[a]
        if not all(same(d, 1) for d in s.shape):
            ENG.require(And(*[term(d) == 1 for d in s.shape]), "item() of an array with one element")
        return s.at(*([0] * s.ndim))

    __hash__ = object.__hash__

    # ------------------------------------------------------------- reading
    def __getitem__(s, key):
        if isinstance(key, str):
            raise IndexError("only integers, slices ... are valid indices")
        key = key if isinstance(key, tuple) else (key,)
        key = tuple(asarr(k) if isinstance(k, (list,)) else k for k in key)
        # boolean mask
        if len(key) == 1 and isinstance(key[0], Arr) and key[0].kind == "b":
            return masked(s, key[0])
        nk = sum(1 for k in key if k is not None and k is not Ellipsis)
        nk += sum(k.ndim - 1 for k in key if isinstance(k, Arr) and k.kind == "b")
        full = []
        for k in key:
            if k is Ellipsis:
                full += [slice(None)] * (s.ndim - nk)
            else:
                full.append(k)
        if not any(k is Ellipsis for k in key):
            full += [slice(None)] * (s.ndim - nk)
        if sum(1 for k in full if k is not None) > s.ndim:
            raise IndexError("too many indices for array")
        if any(isinstance(k, Arr) and k.ndim > 0 for k in full):
            return s._fancy(full)
        # basic indexing: a view
        dims, pos = [], []           # pos: per own dim: ('i', idx) | ('s', start, step, k)
        d = 0
        for k in full:
            if k is None:
                dims.append(1)
                pos.append(("n",))
                continue
            n = s.shape[d]
            d += 1
            if isinstance(k, slice):
                st, ln, step = slice_bounds(k, n)
                dims.append(ln)
                pos.append(("s", st, step))
            else:
                k = core.unwrap0(k)
                if isinstance(k, (SB, bool)):
                    raise Unsupported("indexing with a boolean scalar")
                pos.append(("i", norm_index(k, n)))
        own = [p for p in pos]

        def fwd(idx):
            out, j = [], 0
            for p in own:
                if p[0] == "n":
                    j += 1
                elif p[0] == "i":
                    out.append(p[1])
                else:
                    out.append(lin(p[1], p[2], idx[j]))
                    j += 1
            return out

        def inv(pidx):
            cond, out, d = [], [], 0
            for p in own:
                if p[0] == "n":
                    out.append(0)
                    continue
                q = pidx[d]
                if p[0] == "i":
                    cond.append(eqt(q, p[1]))
                else:
                    ln = dims[len(out)]
                    if isinstance(p[2], int) and p[2] == 1:
                        i = q - p[1] if not (is_num(p[1]) and p[1] == 0) else q
                        cond.append(And(ge(i, 0), lt(i, ln)))
                    elif isinstance(p[2], int) and p[2] == -1:
                        i = p[1] - q
                        cond.append(And(ge(i, 0), lt(i, ln)))
                    else:
                        i = core.floordiv(q - p[1], p[2])
                        cond.append(And(ge(q - p[1], 0), lt(i, ln), bterm(core.mod(q - p[1], p[2]) == 0)))
                    out.append(i)
                d += 1
            return And(*cond), out
        if not dims:
            return s.at(*fwd(()))
        return Arr(dims, lambda idx: s.at(*fwd(idx)), s.kind, view=(s, inv))

    def _fancy(s, full):
        # integer-array indexing (arrays broadcast together); slices elsewhere
        arrs = [k for k in full if isinstance(k, Arr)]
        if any(k.kind == "b" for k in arrs):
            raise Unsupported("mixed boolean indexing")
        bs = bshape([k.shape for k in arrs])
        first = [i for i, k in enumerate(full) if isinstance(k, Arr) or not (k is None or isinstance(k, slice))]
        contiguous = first == list(range(first[0], first[-1] + 1))
        d = 0
        plan, dims, done = [], [], False
        lead = [] if contiguous else list(bs)
        if not contiguous:
            done = True
            dims += list(bs)
        for k in full:
            if k is None:
                dims.append(1)
                plan.append(("n", len(dims) - 1))
                continue
            n = s.shape[d]
            d += 1
            if isinstance(k, slice):
                st, ln, step = slice_bounds(k, n)
                dims.append(ln)
                plan.append(("s", len(dims) - 1, st, step))
            else:
                if not done:
                    plan_base = len(dims)
                    dims += list(bs)
                    done = True
                elif contiguous is False:
                    plan_base = 0
                if isinstance(k, Arr):
                    check_index_array(k, n)
                    plan.append(("a", plan_base if contiguous else 0, k, n))
                else:
                    plan.append(("i", norm_index(core.unwrap0(k), n)))

        def get(idx):
            out = []
            for p in plan:
                if p[0] == "n":
                    continue
                if p[0] == "s":
                    out.append(lin(p[2], p[3], idx[p[1]]))
                elif p[0] == "i":
                    out.append(p[1])
                else:
                    sub = idx[p[1]:p[1] + len(bs)]
                    v = p[2].at(*bidx(sub, bs, p[2].shape))
                    out.append(wrap_neg(v, p[3]))
            return s.at(*out)
        return Arr(dims, get, s.kind)

    # ------------------------------------------------------------- writing
    def _write(s, condidx, val):
        """condidx(own idx) -> (cond, value idx);  val(value idx) -> scalar"""
        ENG_mutated(s)
        if s.view is not None:
            parent, inv = s.view

            def up(pidx):
                c, i = inv(pidx)
                if z3.is_false(c):
                    return FALSE, None
                c2, v = condidx(i)
                return And(c, c2), v
            parent._write(up, val)
            return
        old = s._get
        s._memo = {}
        s._ver += 1

        def get(idx):
            c, v = condidx(idx)
            c = z3.simplify(c)
            if z3.is_true(c):
                return val(v)
            if z3.is_false(c):
                return old(idx)
            return ite(SB(c), val(v), old(idx))
        s._get = get

    def __setitem__(s, key, value):
        key = key if isinstance(key, tuple) else (key,)
        key = tuple(asarr(k) if isinstance(k, list) else k for k in key)
        if s.kind == "i" and is_scalar(value) and not core.isint(value) and isinstance(value, S) and not value.isint:
            value = core.trunc(value)
        if len(key) == 1 and isinstance(key[0], Arr) and key[0].kind == "b":
            m = key[0]
            if isinstance(value, Arr) and value.ndim > 0 and not same(value.size, 1):
                raise Unsupported("masked assignment of an array")
            v = core.unwrap0(value)
            if m.ndim == s.ndim:
                s._write(lambda i: (bterm(m.at(*i)), i), lambda i: v)
            else:
                s._write(lambda i: (bterm(m.at(*i[:m.ndim])), i), lambda i: v)
            return
        if any(isinstance(k, Arr) and k.ndim > 0 for k in key):
            arrs = [k for k in key]
            if not all(isinstance(k, Arr) and k.ndim == 1 for k in arrs) or len(arrs) != s.ndim:
                raise Unsupported("assignment through a mixed integer-array index")
            v = core.unwrap0(value)
            if isinstance(v, Arr):
                raise Unsupported("scatter of an array")
            n = arrs[0].shape[0]
            for k, d in zip(arrs, s.shape):
                check_index_array(k, d)

            def cond(idx):
                return exists(n, lambda k: And(*[eqt(wrap_neg(a.at(k), d), i) for a, i, d in zip(arrs, idx, s.shape)])), idx
            s._write(cond, lambda i: v)
            return
        # region through a view
        tgt = s[key] if key != (Ellipsis,) else s
        if is_scalar(tgt) or not isinstance(tgt, Arr):
            # point write
            idx, d = [], 0
            for k in key:
                if k is Ellipsis:
                    continue
                idx.append(norm_index(core.unwrap0(k), s.shape[d]))
                d += 1
            v = core.unwrap0(value)
            if isinstance(v, Arr):
                v = v.item()
            s._write(lambda i: (And(*[eqt(a, b) for a, b in zip(i, idx)]), i), lambda i: v)
            return
        val = value if isinstance(value, Arr) else (asarr(value) if isinstance(value, (list, tuple)) else value)
        if hasattr(val, "_asarr"):
            val = val._asarr()
        if isinstance(val, Arr):
            vs = val.shape
            bshape([tgt.shape, vs])
            tsh = tgt.shape
            frozen = val if val.view is None else val.copy()
            g, sh = frozen._get, frozen.shape
            fn = lambda i: g(tuple(bidx(i, tsh, sh)))
        else:
            fn = lambda i: val
        if tgt is s:
            s._write(lambda i: (TRUE, i), fn)
        else:
            tgt._write(lambda i: (TRUE, i), fn)

    def fill(s, v):
        s[...] = v

    # ------------------------------------------------------------- shape ops
    def transpose(s, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        axes = axes or tuple(reversed(range(s.ndim)))
        axes = tuple(int(a) % s.ndim for a in axes)

        def fwd(idx):
            out = [None] * len(idx)
            for j, a in enumerate(axes):
                out[a] = idx[j]
            return out
        return Arr([s.shape[a] for a in axes], lambda idx: s.at(*fwd(idx)), s.kind,
                   view=(s, lambda p: (TRUE, [p[a] for a in axes])))

    def swapaxes(s, a, b):
        ax = list(range(s.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return s.transpose(*ax)

    def copy(s, *a, **k):
        g = s._get if s.view is None else None
        if g is None:
            # snapshot of a view: freeze the chain
            par = s
            frozen = freeze_view(s)
            return Arr(s.shape, frozen, s.kind)
        r = Arr(s.shape, g, s.kind)
        r.note = s.note
        return r

    def astype(s, ty, *a, **k):
        if ty is int or getattr(ty, "_isint", False):
            return amap(core.trunc, s, kind="i")
        if ty is bool or getattr(ty, "_isbool", False):
            return amap(lambda x: SB(term(x) != 0) if not isinstance(x, SB) else x, s, kind="b")
        if s.kind == "b":
            return amap(lambda x: x._n() if isinstance(x, SB) else int(x), s, kind="f")
        r = s.copy()
        r.kind = "f" if s.kind == "i" else s.kind
        return r

    def squeeze(s, axis=None):
        if axis is None:
            keep = []
            for j, d in enumerate(s.shape):
                if isinstance(d, int):
                    if d != 1:
                        keep.append(j)
                elif must(d.t >= 2):
                    keep.append(j)
                elif must(d.t == 1):
                    pass
                elif ENG.opts.get("squeeze_forks", True):
                    if ENG.decide(d.t != 1):
                        keep.append(j)
        else:
            ax = axis if isinstance(axis, tuple) else (axis,)
            ax = tuple(a % s.ndim for a in ax)
            keep = [j for j in range(s.ndim) if j not in ax]
        if len(keep) == s.ndim:
            return s
        def fwd(idx):
            out = [0] * s.ndim
            for j, i in zip(keep, idx):
                out[j] = i
            return out
        if not keep:
            return Arr((), lambda idx: s.at(*fwd(())), s.kind)
        return Arr([s.shape[j] for j in keep], lambda idx: s.at(*fwd(idx)), s.kind,
                   view=(s, lambda p: (And(*[eqt(p[j], 0) for j in range(s.ndim) if j not in keep]), [p[j] for j in keep])))

    def ravel(s, *a, **k):
        if s.ndim == 1:
            return s
        if s.ndim == 0:
            return Arr((1,), lambda i: s.at(), s.kind)
        n = s.size
        shape = s.shape
        r = Arr((n,), lambda idx: s.at(*unravel(idx[0], shape)), s.kind, view=None)
        r.note = ("ravel", s)
        return r
    flatten = ravel

    def reshape(s, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        elif len(shape) == 1 and isinstance(shape[0], Arr):
            shape = tuple(shape[0])
        shape = [conc(core.unwrap0(x)) for x in shape]
        if any(is_num(x) and x == -1 for x in shape):
            j = [i for i, x in enumerate(shape) if is_num(x) and x == -1][0]
            rest = prod([x for i, x in enumerate(shape) if i != j])
            if is_num(rest) and rest == 1:
                shape[j] = s.size
            else:
                # find the missing extent among own extents
                own = list(s.shape)
                for x in shape[:j] + shape[j + 1:]:
                    for q, y in enumerate(own):
                        if same(x, y):
                            del own[q]
                            break
                shape[j] = prod(own)
        if len(shape) == len(s.shape) and all(same(a, b) for a, b in zip(shape, s.shape)):
            return s
        if s.note and s.note[0] == "ravel":
            src = s.note[1]
            if len(shape) == src.ndim and all(same(a, b) for a, b in zip(shape, src.shape)):
                return src
        # insertion / removal of unit axes
        nz = [(j, d) for j, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
        oz = [(j, d) for j, d in enumerate(s.shape) if not (isinstance(d, int) and d == 1)]
        if len(nz) == len(oz) and all(same(a[1], b[1]) for a, b in zip(nz, oz)):
            def fwd(idx):
                out = [0] * s.ndim
                for (j, _), (q, _) in zip(nz, oz):
                    out[q] = idx[j]
                return out
            if not shape:
                return Arr((), lambda idx: s.at(*fwd(())), s.kind)
            return Arr(shape, lambda idx: s.at(*fwd(idx)), s.kind)
        ENG.require(term(prod(shape)) == term(s.size), "reshape keeps the number of elements")
        flat = s.ravel()
        nshape = tuple(shape)
        return Arr(nshape, lambda idx: flat.at(ravel_idx(idx, nshape)), s.kind)

    # ------------------------------------------------------------- arithmetic
    def _op(s, o, f, rev=False, kind=None):
        if hasattr(o, "_xr"):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = asarr(o)
        if hasattr(o, "_asarr"):
            o = o._asarr()
        if isinstance(o, Arr):
            return broadcast2(f, s, o, rev, kind)
        if not is_scalar(o):
            if o is None:
                return NotImplemented
            raise Unsupported("array operation with %s" % type(o).__name__)
        if rev:
            return amap(lambda x: f(o, x), s, kind=kind)
        return amap(lambda x: f(x, o), s, kind=kind)

    def __add__(s, o): return s._op(o, lambda a, b: a + b)
    def __radd__(s, o): return s._op(o, lambda a, b: a + b, True)
    def __sub__(s, o): return s._op(o, lambda a, b: num(a) - num(b))
    def __rsub__(s, o): return s._op(o, lambda a, b: num(a) - num(b), True)
    def __mul__(s, o): return s._op(o, lambda a, b: a * b, kind="b" if s.kind == "b" and isinstance(o, Arr) and o.kind == "b" else None)
    def __rmul__(s, o): return s._op(o, lambda a, b: a * b, True)
    def __truediv__(s, o): return s._op(o, npdiv, kind="f")
    def __rtruediv__(s, o): return s._op(o, npdiv, True, kind="f")
    def __floordiv__(s, o): return s._op(o, core.floordiv)
    def __rfloordiv__(s, o): return s._op(o, core.floordiv, True)
    def __mod__(s, o): return s._op(o, core.mod)
    def __rmod__(s, o): return s._op(o, core.mod, True)
    def __pow__(s, o): return s._op(o, lambda a, b: core.power(num(a), b))
    def __rpow__(s, o): return s._op(o, lambda a, b: core.power(a, b), True)
    def __neg__(s): return amap(lambda x: -num(x), s)
    def __pos__(s): return s
    def __abs__(s): return amap(core.absolute, s)
    def __matmul__(s, o): return dot(s, o)
    def __rmatmul__(s, o): return dot(o, s)
    def __lt__(s, o): return s._op(o, lambda a, b: cmp("<", a, b), kind="b")
    def __le__(s, o): return s._op(o, lambda a, b: cmp("<=", a, b), kind="b")
    def __gt__(s, o): return s._op(o, lambda a, b: cmp(">", a, b), kind="b")
    def __ge__(s, o): return s._op(o, lambda a, b: cmp(">=", a, b), kind="b")
    def __eq__(s, o): return s._op(o, lambda a, b: cmp("==", a, b), kind="b")
    def __ne__(s, o): return s._op(o, lambda a, b: cmp("!=", a, b), kind="b")
    def __and__(s, o): return s._op(o, lambda a, b: SB(And(bterm(a), bterm(b))), kind="b")
    __rand__ = __and__
    def __or__(s, o): return s._op(o, lambda a, b: SB(Or(bterm(a), bterm(b))), kind="b")
    __ror__ = __or__
    def __xor__(s, o): return s._op(o, lambda a, b: SB(z3.Xor(bterm(a), bterm(b))), kind="b")
    def __invert__(s): return amap(lambda x: SB(Not(bterm(x))), s, kind="b")

    def _inplace(s, r):
        s[...] = r.copy() if isinstance(r, Arr) and r.view is not None else r
        return s

    def __iadd__(s, o): return s._inplace(s._frozen() + o)
    def __isub__(s, o): return s._inplace(s._frozen() - o)
    def __imul__(s, o): return s._inplace(s._frozen() * o)
    def __itruediv__(s, o): return s._inplace(s._frozen() / o)
    def __ipow__(s, o): return s._inplace(s._frozen() ** o)
    def __imod__(s, o): return s._inplace(s._frozen() % o)

    def _frozen(s):
        return s.copy()

    # ------------------------------------------------------------- reductions
    def sum(s, axis=None, **k):
        return reduce_(s, axis, "sum", k.get("keepdims"))

    def mean(s, axis=None, **k):
        return reduce_(s, axis, "mean", k.get("keepdims"))

    def max(s, axis=None, **k):
        return reduce_(s, axis, "max", k.get("keepdims"))

    def min(s, axis=None, **k):
        return reduce_(s, axis, "min", k.get("keepdims"))

    def any(s, axis=None, **k):
        return reduce_(s, axis, "any", k.get("keepdims"))

    def all(s, axis=None, **k):
        return reduce_(s, axis, "all", k.get("keepdims"))

    def std(s, axis=None, **k):
        return std(s)

    def argmax(s, axis=None, **k):
        return argext(s, axis, True)

    def argmin(s, axis=None, **k):
        return argext(s, axis, False)

    def dot(s, o):
        return dot(s, o)

    def cumsum(s, axis=None):
        if s.ndim != 1:
            raise Unsupported("cumsum of a 2D array")
        return Arr(s.shape, lambda i: bigsum(lambda k: s.at(k), 0, i[0] + 1), s.kind)

    def sort(s, axis=-1, **k):
        r = sort(s, axis)
        s[...] = r

    def tolist(s):
        if s.ndim == 0:
            return s.at()
        if all(isinstance(d, int) for d in s.shape):
            return [s[i].tolist() if s.ndim > 1 else s.at(i) for i in range(s.shape[0])]
        from .seq import SList
        return SList(s.shape[0], lambda i: s[i])

    def round(s, n=0):
        return amap(lambda x: core.rounding(x, n), s)

    def clip(s, a=None, b=None):
        r = s
        if a is not None:
            r = broadcast(core.smax, r, a)
        if b is not None:
            r = broadcast(core.smin, r, b)
        return r

    def nonzero(s):
        return nonzero(s)

    def take(s, ind, axis=None):
        if axis is None:
            return s.ravel()[ind]
        return s[tuple([slice(None)] * axis + [ind])]

    def repeat(s, n, axis=None):
        if s.ndim == 1:
            return Arr((s.shape[0] * n,), lambda i: s.at(core.floordiv(i[0], n)), s.kind)
        raise Unsupported("repeat")

    def __repr__(s):
        return "Arr%s" % (s.shape,)


def ENG_mutated(o):
    m = getattr(ENG, "on_mutate", None)
    if m:
        m(o)


def freeze_view(a):
    """Element function of an array that no later write can change."""
    if a.view is None:
        return a._get
    # freeze all the bases of the chain by temporarily reading through frozen getters
    parent = a.view[0]
    pf = freeze_view(parent)
    get = a._get
    # a._get reads parent.at(*fwd(idx)); recover fwd by probing through a proxy
    proxy = _Probe(parent, pf)
    return proxy.through(get)


class _Probe:
    def __init__(s, parent, pf):
        s.parent, s.pf = parent, pf

    def through(s, get):
        parent, pf = s.parent, s.pf

        def g(idx):
            old_get, old_memo, old_view = parent._get, parent._memo, parent.view
            parent._get, parent._memo, parent.view = pf, {}, None
            try:
                return get(idx)
            finally:
                parent._get, parent._memo, parent.view = old_get, old_memo, old_view
        return g


# ------------------------------------------------------------------- helpers
def num(x):
    return x._n() if isinstance(x, SB) else x


def npdiv(a, b):
    """numpy division: x/0 is inf/nan, not an exception."""
    if is_num(b) and b == 0:
        return S(z3.RealVal(0), FALSE, fr=(real(a), z3.RealVal(0), okof(a)))
    return core.divide(num(a), num(b))


def cmp(op, a, b):
    a, b = num(a), num(b)
    if is_num(a) and is_num(b) and not (isinstance(a, float) and a != a) and not (isinstance(b, float) and b != b):
        r = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        return r if isinstance(r, bool) else r
    if isinstance(a, str) or isinstance(b, str):
        return (a == b) if op == "==" else (a != b)
    if core.isnanc(a):
        return op == "!="
    if not isinstance(a, S) and isinstance(b, S):
        a = S(term(a))
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
            "==": lambda: a == b, "!=": lambda: a != b}[op]()


def eqt(a, b):
    """z3 condition a == b for integer scalars."""
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a == b else FALSE
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = real(a), real(b)
    if ta.eq(tb):
        return TRUE
    return z3.simplify(ta == tb)


def ge(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a >= b else FALSE
    return term(a) >= term(b)


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return TRUE if a < b else FALSE
    return term(a) < term(b)


def lin(start, step, i):
    if isinstance(step, int) and step == 1:
        return i if is_num(start) and start == 0 else (start + i if not (is_num(i) and i == 0) else start)
    return start + step * i


def norm_index(k, n):
    """Validate an explicit index and make it non-negative."""
    if isinstance(k, Fraction) and k.denominator == 1:
        k = int(k)
    k = conc(k)
    if isinstance(k, int) and isinstance(n, int):
        if not -n <= k < n:
            raise IndexError("index %d is out of bounds for axis with size %d" % (k, n))
        return k if k >= 0 else k + n
    if isinstance(k, float):
        raise IndexError("only integers are valid indices")
    if isinstance(k, int):
        if k >= 0:
            ENG.require(term(n) > k, "index in range")
            return k
        ENG.require(term(n) >= -k, "index in range")
        return conc(n + k)
    if not (isinstance(k, S) and k.isint):
        raise Unsupported("index of type %s" % type(k).__name__)
    if must(k.t >= 0):
        ENG.require(k.t < term(n), "index in range")
        return k
    if must(k.t < 0):
        ENG.require(k.t >= -term(n), "index in range")
        return n + k
    ENG.require(z3.And(k.t >= -term(n), k.t < term(n)), "index in range")
    if ENG.qctx:
        return S(z3.If(k.t < 0, k.t + term(n), k.t))
    if ENG.decide(k.t >= 0):
        return k
    return n + k


def wrap_neg(v, n):
    """element of an index array (already required in range); negative wraps"""
    if isinstance(v, int):
        return v if v >= 0 else n + v
    if isinstance(v, Arr):
        v = v.item()
    return v


def check_index_array(a, n):
    """All elements of an integer index array are within 0..n-1 (obligation)."""
    if a.kind == "b":
        raise Unsupported("boolean array where integers are expected")
    if all(isinstance(d, int) for d in a.shape) and prod(a.shape) <= 16:
        conds = []
        for idx in allidx(a.shape):
            v = a.at(*idx)
            conds.append(And(ge(v, 0), lt(v, n)) if not (isinstance(v, int) and v < 0) else ge(n + v, 0))
        ENG.require(And(*conds), "index array in range")
        return
    vs = [gvar("ix") for _ in a.shape]
    idx = [S(v) for v in vs]
    v = a.at(*idx)
    rng = And(*[And(x >= 0, lt(S(x), d)) for x, d in zip(vs, a.shape)])
    goal = z3.ForAll(vs, z3.Implies(rng, And(ge(v, 0), lt(v, n))))
    ENG.require(goal, "index array in range")


def allidx(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in allidx(shape[1:]):
            yield (i,) + r


def slice_bounds(k, n):
    step = core.unwrap0(k.step)
    step = 1 if step is None else conc(step)
    if not isinstance(step, int):
        if must(term(step) > 0):
            # positive symbolic step from the start
            if k.start not in (None, 0) or k.stop is not None:
                raise Unsupported("slice with symbolic step and bounds")
            return 0, conc(core.floordiv(S(term(n)) + step - 1, step)), step
        raise Unsupported("slice with a symbolic step")

    def cl(x, lo, hi):
        """clamp like Python"""
        x = conc(core.unwrap0(x))
        if isinstance(x, Fraction):
            raise TypeError("slice indices must be integers")
        if isinstance(x, S) and not x.isint:
            raise TypeError("slice indices must be integers")
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x += n
            return min(max(x, lo), hi)
        if isinstance(x, int):
            if x < 0:
                y = n + x
                return y if must(term(y) >= term(lo)) else conc(smax(y, lo))
            if x == 0 and isinstance(lo, int) and lo == 0:
                return 0
            return x if must(term(x) <= term(hi)) else conc(smin(x, hi))
        if must(x.t >= 0):
            return x if must(x.t <= term(hi)) else conc(smin(x, hi))
        if must(x.t < 0):
            y = n + x
            return y if must(term(y) >= term(lo)) else conc(smax(y, lo))
        y = ite(SB(x.t < 0), n + x, x)
        return conc(smin(smax(y, lo), hi))
    if step > 0:
        st = 0 if k.start is None else cl(k.start, 0, n)
        en = n if k.stop is None else cl(k.stop, 0, n)
        if isinstance(st, int) and isinstance(en, int):
            return st, max(0, (en - st + step - 1) // step), step
        d = en - st
        if step != 1:
            ln = core.floordiv(S(term(d)) + (step - 1), step)
        else:
            ln = conc(d)
        if not must(term(ln) >= 0):
            ln = conc(smax(ln, 0))
        return st, ln, step
    # negative step
    if k.start is None and k.stop is None:
        if step == -1:
            return n - 1, n, -1
        if isinstance(n, int):
            return n - 1, (n + (-step) - 1) // (-step), step
        raise Unsupported("slice with a negative step")
    if isinstance(n, int):
        st, en, sp = slice(k.start, k.stop, step).indices(n)
        return st, len(range(st, en, sp)), sp
    raise Unsupported("slice with a negative step")


def unravel(f, shape):
    """row-major flat index -> indices"""
    shape = list(shape)
    if len(shape) == 1:
        return [f]
    out = []
    rest = f
    for d in reversed(shape[1:]):
        d = conc(d)
        if isinstance(rest, int) and isinstance(d, int):
            out.append(rest % d)
            rest = rest // d
        else:
            t, td = term(rest), term(d)
            out.append(S(t % td))
            rest = S(t / td)
    out.append(rest)
    return list(reversed(out))


def ravel_idx(idx, shape):
    r = idx[0]
    for i, d in zip(idx[1:], shape[1:]):
        r = r * d + i
    return r


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for j in range(nd):
        ds = [s[len(s) - nd + j] for s in shapes if len(s) - nd + j >= 0]
        r = 1
        for d in ds:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(r, int) and r == 1:
                r = d
            elif same(r, d):
                if isinstance(d, int):
                    r = d
            elif isinstance(r, int) and isinstance(d, int):
                raise ValueError("operands could not be broadcast together")
            else:
                ENG.require(term(r) == term(d), "array shapes match")
                if isinstance(d, int):
                    r = d
        out.append(r)
    return tuple(out)


def bidx(idx, full, shape):
    """index of an operand of given shape at index idx of the broadcast shape"""
    off = len(full) - len(shape)
    out = []
    for j, d in enumerate(shape):
        if isinstance(d, int) and d == 1 and not (isinstance(full[off + j], int) and full[off + j] == 1):
            out.append(0)
        elif isinstance(d, int) and d == 1:
            out.append(0)
        else:
            out.append(idx[off + j])
    return out


def amap(f, a, kind="same"):
    g = a._get if a.view is None else freeze_view(a)
    k = a.kind if kind in ("same", None) else kind
    r = Arr(a.shape, lambda idx: f(g(idx)), k)
    if a.note and a.note[0] == "ravel":
        r.note = ("ravel", amap(f, a.note[1], kind))
    return r


def broadcast2(f, a, b, rev=False, kind=None):
    if rev:
        a, b = b, a
    return broadcast(f, a, b, kind=kind)


def broadcast(f, *ops, kind=None):
    arrs = [asarr(o) if not is_scalar(o) else o for o in ops]
    if all(is_scalar(o) for o in arrs):
        return f(*arrs)
    shp = bshape([o.shape for o in arrs if isinstance(o, Arr)])
    gs = [(o, None) if not isinstance(o, Arr) else ((o._get if o.view is None else freeze_view(o)), o.shape) for o in arrs]

    def get(idx):
        return f(*[g if sh is None else g(tuple(bidx(idx, shp, sh))) for g, sh in gs])
    if kind is None:
        kinds = [o.kind for o in arrs if isinstance(o, Arr)]
        kind = "f" if "f" in kinds or None in kinds else ("i" if "i" in kinds else kinds[0])
    r = Arr(shp, get, kind)
    notes = [o.note for o in arrs if isinstance(o, Arr)]
    if notes and all(n and n[0] == "ravel" for n in notes) and all(len(o.shape) == 1 for o in arrs if isinstance(o, Arr)):
        it = iter(notes)
        srcs = [next(it)[1] if isinstance(o, Arr) else o for o in arrs]
        if len({len(x.shape) for x in srcs if isinstance(x, Arr)}) == 1:
            r.note = ("ravel", broadcast(f, *srcs, kind=kind))
    return r


def asarr(x, kind=None):
    if isinstance(x, Arr):
        return x
    if hasattr(x, "_asarr"):
        return x._asarr()
    if is_scalar(x):
        return Arr((), lambda i: x, "b" if isinstance(x, (SB, bool)) else ("i" if core.isint(x) else "f"))
    if isinstance(x, str) or x is None:
        return Arr((), lambda i: x, "o")
    if hasattr(x, "_seq"):
        n, get = x._seq()
        probe = get(S(gvar("pr")))
        if is_scalar(probe):
            return Arr((n,), lambda i: get(i[0]), None)
        p = asarr(probe)
        return Arr((n,) + p.shape, lambda i: asarr(get(i[0])).at(*i[1:]), p.kind)
    if isinstance(x, (list, tuple)):
        els = [asarr(e) for e in x]
        if not els:
            return Arr((0,), lambda i: (_ for _ in ()).throw(IndexError()), "f")
        nd = {e.ndim for e in els}
        if len(nd) != 1:
            # 0-d symbolic mixed with (1,)-shaped: numpy would reject; keep strict
            raise ValueError("inhomogeneous shape")
        inner = els[0].shape
        for e in els[1:]:
            if len(e.shape) != len(inner):
                raise ValueError("inhomogeneous shape")
            for a, b in zip(inner, e.shape):
                if not same(a, b):
                    if isinstance(a, int) and isinstance(b, int):
                        raise ValueError("inhomogeneous shape")
                    ENG.require(term(a) == term(b), "array shapes match")
        gs = [e._get if e.view is None else freeze_view(e) for e in els]
        kinds = {e.kind for e in els}
        kk = kinds.pop() if len(kinds) == 1 else ("f" if kinds <= {"f", "i", "b", None} else "o")
        return Arr((len(els),) + inner, lambda idx: pick(gs, idx[0], idx[1:]), kk)
    if hasattr(x, "__iter__"):
        return asarr(list(x))
    if not isinstance(x, (int, float)):
        return Arr((), lambda i: x, "o")
    raise Unsupported("array from %s" % type(x).__name__)


def pick(gs, i, rest):
    i = conc(i)
    if isinstance(i, int):
        return gs[i](tuple(rest))
    v = gs[-1](tuple(rest))
    for j in range(len(gs) - 2, -1, -1):
        v = ite(SB(i.t == j), gs[j](tuple(rest)), v)
    return v


def exists(n, f):
    """z3 condition: some k in 0..n-1 with f(S k)."""
    if isinstance(n, int) and n <= 16:
        return Or(*[f(k) for k in range(n)])
    v = gvar("ex")
    with pure():
        b = f(S(v))
    if z3.is_false(b):
        return FALSE
    return z3.Exists([v], z3.And(v >= 0, v < term(n), b))


def forall(n, f):
    if isinstance(n, int) and n <= 16:
        return And(*[f(k) for k in range(n)])
    v = gvar("fa")
    with pure():
        b = f(S(v))
    if z3.is_true(b):
        return TRUE
    return z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < term(n)), b))


def existsN(shape, f):
    return _quant(shape, f, exists)


def forallN(shape, f):
    return _quant(shape, f, forall)


def _quant(shape, f, q, idx=()):
    if not shape:
        return f(*idx)
    return q(shape[0], lambda k: _quant(shape[1:], f, q, idx + (k,)))


class pure:
    def __enter__(s):
        ENG.qctx += 1

    def __exit__(s, *a):
        ENG.qctx -= 1


def bigsum(f, lo, hi):
    """S: sum of f(k), lo <= k < hi."""
    lo, hi = conc(lo), conc(hi)
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 32:
        r = 0
        for k in range(lo, hi):
            r = r + f(k)
        return r
    k = z3.Int("k!%d" % ENG.names.setdefault("bigsum", 0))
    ENG.names["bigsum"] += 1
    with pure():
        b = num(f(S(k)))
    if is_num(b) or not C.occurs(term(b), k):
        n = S(term(hi) - term(lo)) if not (is_num(lo) and lo == 0) else S(term(hi))
        if must(n.t >= 0):
            return n * b
        return smax(n, 0) * b
    try:
        t = C.bigsum(real(b), k, term(lo), term(hi))
    except C.TooBig:
        raise Unsupported("a sum too large to normalise")
    ok = TRUE
    if not z3.is_true(okof(b)):
        ok = z3.ForAll([k], z3.Implies(z3.And(k >= term(lo), k < term(hi)), okof(b)))
    return S(t, ok)


def sum_all(a):
    """sum over all elements"""
    if a.ndim == 0:
        return num(a.at())

    def rec(idx, shape):
        if not shape:
            return num(a.at(*idx))
        return bigsum(lambda k: rec(idx + (k,), shape[1:]), 0, shape[0])
    return rec((), a.shape)


def reduce_(a, axis, what, keep=None):
    a = asarr(a)
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        else:
            for ax in sorted((x % a.ndim for x in axis), reverse=True):
                a = reduce_(a, ax, what, keep)
            return a
    if axis is None or a.ndim == 0:
        r = _reduce_all(a, what)
        if keep:
            return Arr((1,) * a.ndim, lambda i: r, a.kind)
        return r
    axis = int(core.unwrap0(axis)) % a.ndim
    n = a.shape[axis]
    shape = a.shape[:axis] + a.shape[axis + 1:]
    g = a._get if a.view is None else freeze_view(a)

    def line(idx):
        return Arr((n,), lambda k: g(tuple(idx[:axis]) + (k[0],) + tuple(idx[axis:])), a.kind)
    kind = "b" if what in ("any", "all") else ("f" if what == "mean" else a.kind)
    if what in ("max", "min") and not isinstance(n, int) and shape:
        # extrema along an axis: one Skolem function per line
        return extreme_axis(a, axis, what, shape, line)
    if not shape:
        r = _reduce_all(line(()), what)
    else:
        r = None
    if keep:
        ksh = a.shape[:axis] + (1,) + a.shape[axis + 1:]
        return Arr(ksh, lambda idx: _reduce_all(line(idx[:axis] + idx[axis + 1:]), what), kind)
    if not shape:
        return r
    if what in ("sum", "mean", "any", "all") or isinstance(n, int):
        return Arr(shape, lambda idx: _reduce_all(line(idx), what), kind)
    raise Unsupported("reduction %s along an axis" % what)


def extreme_axis(a, axis, what, shape, line):
    if all(isinstance(d, int) for d in shape) and prod(shape) <= 16:
        vals = {}
        for idx in allidx(shape):
            vals[idx] = extreme(line(idx), what)
        return Arr(shape, lambda idx: vals[tuple(conc(i) for i in idx)] if all(isinstance(conc(i), int) for i in idx)
                   else pick_nd(vals, idx, shape), a.kind)
    raise Unsupported("extremum along an axis of a symbolic number of lines")


def pick_nd(vals, idx, shape):
    items = list(vals.items())
    v = items[-1][1]
    for k, x in reversed(items[:-1]):
        v = ite(SB(And(*[eqt(a, b) for a, b in zip(idx, k)])), x, v)
    return v


def _reduce_all(a, what):
    if what == "sum":
        if a.kind == "b":
            return sum_all(amap(lambda x: num(x) if isinstance(x, SB) else int(x), a))
        return sum_all(a)
    if what == "mean":
        n = a.size
        return npdiv(sum_all(a), n)
    if what == "any":
        return SB(existsN(a.shape, lambda *k: bterm(a.at(*k)))) if not small(a) else SB(Or(*[bterm(a.at(*i)) for i in allidx(a.shape)]))
    if what == "all":
        return SB(forallN(a.shape, lambda *k: bterm(a.at(*k)))) if not small(a) else SB(And(*[bterm(a.at(*i)) for i in allidx(a.shape)]))
    if what in ("max", "min"):
        return extreme(a, what)
    raise Unsupported(what)


def small(a):
    return all(isinstance(d, int) for d in a.shape) and prod(a.shape) <= 16


def extreme(a, what, nan=False):
    """max/min of all elements.  nan=True skips elements that are not valid."""
    f = smax if what == "max" else smin
    if small(a):
        vs = [a.at(*i) for i in allidx(a.shape)]
        if not vs:
            raise ValueError("zero-size array to reduction operation")
        r = vs[0]
        for v in vs[1:]:
            r = f(r, v)
        return r
    # one extremum per array object and contents
    key = ("ext", what, nan, a._ver)
    cache = a.__dict__.setdefault("_ext", {})
    if key in cache:
        return cache[key]
    if ENG.qctx:
        raise Unsupported("extremum inside a pure context")
    ENG.require(And(*[term(d) >= 1 for d in a.shape]), "extremum of a non-empty array")
    at = [S(ENG.fresh("at_" + what, I)) for _ in a.shape]
    ENG.assume(And(*[z3.And(i.t >= 0, i.t < term(d)) for i, d in zip(at, a.shape)]))
    v = a.at(*at)
    isint = term(v).sort() == I
    m = S(ENG.fresh(what, I if isint else R))
    if nan:
        some = existsN(a.shape, lambda *k: okof(a.at(*k)))
        ENG.assume(z3.Implies(some, z3.And(okof(v), m.t == term(v))))
        ENG.assume(forallN(a.shape, lambda *k: z3.Implies(okof(a.at(*k)), (m.t >= term(a.at(*k))) if what == "max" else (m.t <= term(a.at(*k))))))
        m = S(m.t, some)
    else:
        ENG.assume(m.t == term(v))
        ENG.assume(forallN(a.shape, lambda *k: (m.t >= term(a.at(*k))) if what == "max" else (m.t <= term(a.at(*k)))))
        okall = forallN(a.shape, lambda *k: okof(a.at(*k)))
        m = S(m.t, okall)
    cache[key] = m
    m_at = at
    cache[("at", what, nan, a._ver)] = m_at
    return m


def argext(a, axis, ismax, nan=False):
    """index of the FIRST extremum (flat index when axis is None)."""
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmax along an axis of a 2D array")
    better = (lambda x, y: x > y) if ismax else (lambda x, y: x < y)
    if a.ndim == 1 and isinstance(a.shape[0], int) and a.shape[0] <= 16:
        n = a.shape[0]
        if n == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        best = 0
        bv = a.at(0)
        for k in range(1, n):
            v = a.at(k)
            c = cmp(">" if ismax else "<", v, bv)
            best, bv = ite(c, k, best), ite(c, v, bv)
        return best
    if ENG.qctx:
        raise Unsupported("argmax inside a pure context")
    ENG.require(And(*[term(d) >= 1 for d in a.shape]), "argmax of a non-empty array")
    at = [S(ENG.fresh("arg", I)) for _ in a.shape]
    ENG.assume(And(*[z3.And(i.t >= 0, i.t < term(d)) for i, d in zip(at, a.shape)]))
    v = a.at(*at)
    vt = term(num(v))

    def before(k):
        # lexicographic k < at
        c = FALSE
        for i in reversed(range(len(k))):
            c = Or(term(k[i]) < at[i].t, And(term(k[i]) == at[i].t, c)) if i < len(k) - 1 else (term(k[i]) < at[i].t)
        return c

    def val(k):
        return num(a.at(*k))
    okv = okof(v)
    if nan:
        some = existsN(a.shape, lambda *k: okof(a.at(*k)))
        ENG.require(some, "argmax of an array with some valid value")
        ENG.assume(okv)
        ENG.assume(forallN(a.shape, lambda *k: z3.Implies(okof(val(k)), (vt >= term(val(k))) if ismax else (vt <= term(val(k))))))
        ENG.assume(forallN(a.shape, lambda *k: z3.Implies(And(okof(val(k)), before(k)), (vt > term(val(k))) if ismax else (vt < term(val(k))))))
    else:
        # numpy: the first NaN wins; here elements must be valid
        ENG.require(forallN(a.shape, lambda *k: okof(val(k))), "argmax of valid values")
        ENG.assume(forallN(a.shape, lambda *k: (vt >= term(val(k))) if ismax else (vt <= term(val(k)))))
        ENG.assume(forallN(a.shape, lambda *k: z3.Implies(before(k), (vt > term(val(k))) if ismax else (vt < term(val(k))))))
    if a.ndim == 1:
        return at[0]
    r = FlatIndex(ravel_idx(at, a.shape), at, a.shape)
    return r


class FlatIndex(S):
    """A flat index that remembers the indices it was made of."""
    __slots__ = ("idx", "shp")

    def __init__(s, v, idx, shp):
        S.__init__(s, term(v))
        s.idx, s.shp = idx, shp


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    n, m = a.shape[-1], b.shape[-2] if b.ndim > 1 else b.shape[0]
    if not same(n, m):
        if isinstance(n, int) and isinstance(m, int):
            raise ValueError("shapes not aligned")
        ENG.require(term(n) == term(m), "shapes aligned")
    ga = a._get if a.view is None else freeze_view(a)
    gb = b._get if b.view is None else freeze_view(b)

    def el(i, j):
        def f(k):
            x = ga(i + (k,))
            y = gb((j[0], k, j[1]) if False else ((k,) if b.ndim == 1 else (k,) + j))
            return num(x) * num(y)
        return bigsum(f, 0, n)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("dot of arrays with more than 2 dimensions")
    if a.ndim == 1 and b.ndim == 1:
        return el((), ())
    shape = a.shape[:-1] + (b.shape[1:] if b.ndim == 2 else ())
    na = a.ndim - 1
    return Arr(shape, lambda idx: el(tuple(idx[:na]), tuple(idx[na:])), "f")


def sort(a, axis=-1):
    a = asarr(a)
    axis = a.ndim - 1 if axis in (-1, None) else axis
    n = a.shape[axis]
    if isinstance(n, int) and n <= 3:
        g = a._get if a.view is None else freeze_view(a)

        def get(idx):
            vs = [g(tuple(idx[:axis]) + (k,) + tuple(idx[axis + 1:])) for k in range(n)]
            # sorting network by insertion
            for i in range(1, n):
                for j in range(i, 0, -1):
                    x, y = vs[j - 1], vs[j]
                    c = cmp("<=", x, y)
                    vs[j - 1], vs[j] = ite(c, x, y), ite(c, y, x)
            i = conc(idx[axis])
            if isinstance(i, int):
                return vs[i]
            v = vs[-1]
            for q in range(n - 2, -1, -1):
                v = ite(SB(i.t == q), vs[q], v)
            return v
        return Arr(a.shape, get, a.kind)
    raise Unsupported("sort of more than three elements")


def std(a, nan=False):
    """standard deviation as an uninterpreted-but-functional value of the data: sqrt(mean((x-mean)^2))"""
    m = nanmean(a) if nan else _reduce_all(a, "mean")
    d = amap(lambda x: (x - m) * (x - m), a)
    v = nanmean(d) if nan else _reduce_all(d, "mean")
    return core.sqrt(v)


def nansum(a):
    a = asarr(a)
    return sum_all(amap(lambda x: ite(SB(okof(x)), S(real(x)), 0) if not z3.is_true(okof(x)) else x, a))


def nancount(a):
    a = asarr(a)
    r = sum_all(amap(lambda x: ite(SB(okof(x)), 1, 0) if not z3.is_true(okof(x)) else 1, a))
    if not ENG.qctx and isinstance(r, S) and not all(isinstance(d, int) for d in a.shape):
        # counting: positive exactly when something counts
        ENG.assume(real(r) >= 0)
        ENG.assume((real(r) > 0) == existsN(a.shape, lambda *k: okof(a.at(*k))))
    return r


def nanmean(a):
    return npdiv(nansum(a), nancount(a))


def masked(a, m):
    """a[boolean mask]: the selected elements in row-major order."""
    pos = positions(m)
    if m.ndim == a.ndim:
        r = Arr((pos.n,), lambda i: a.at(*pos.at(i[0])), a.kind)
        r.note = ("masked", pos)
        return r
    return Arr((pos.n,) + a.shape[m.ndim:], lambda i: a.at(*(tuple(pos.at(i[0])) + tuple(i[1:]))), a.kind)


class Positions:
    """The increasing sequence of positions where a boolean array holds."""

    def __init__(s, m):
        s.m = m
        nd = m.ndim
        s.n = S(ENG.fresh("cnt", I))
        s.p = [ENG.fresh_fn("pos", I, I) for _ in range(nd)]
        s.inv = ENG.fresh_fn("inv", *([I] * nd + [I]))
        n = s.n.t
        ENG.assume(n >= 0)
        k, l = z3.Ints("k l")
        idx = [S(f(k)) for f in s.p]
        with pure():
            mk_ = bterm(m.at(*idx))
        rng = And(*[And(i.t >= 0, lt(i, d)) for i, d in zip(idx, m.shape)])
        ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), And(rng, mk_, s.inv(*[i.t for i in idx]) == k)),
                             patterns=[s.p[0](k)]))
        vs = [z3.Int("x%d" % j) for j in range(nd)]
        with pure():
            mv = bterm(m.at(*[S(v) for v in vs]))
        rv = And(*[And(v >= 0, lt(S(v), d)) for v, d in zip(vs, m.shape)])
        iv = s.inv(*vs)
        ENG.assume(z3.ForAll(vs, z3.Implies(And(rv, mv), z3.And(iv >= 0, iv < n, *[f(iv) == v for f, v in zip(s.p, vs)]))))
        # increasing
        if nd == 1:
            ENG.assume(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), s.p[0](k) < s.p[0](l))))

    def at(s, k):
        return [S(f(term(k))) for f in s.p]


class FixedPositions:
    def __init__(s, m, sel):
        s.m, s.sel, s.n = m, sel, len(sel)

    def at(s, k):
        k = conc(k)
        if isinstance(k, int):
            return [s.sel[k]]
        v = z3.IntVal(s.sel[-1] if s.sel else 0)
        for j in range(len(s.sel) - 2, -1, -1):
            v = z3.If(k.t == j, z3.IntVal(s.sel[j]), v)
        return [S(v)]


def positions(m):
    c = m.__dict__.setdefault("_pos", {})
    if m._ver not in c:
        if m.ndim == 1 and isinstance(conc(m.shape[0]), int) and conc(m.shape[0]) <= 6 and not ENG.qctx:
            # a short sequence: one path per selection
            sel = []
            for k in range(conc(m.shape[0])):
                t = z3.simplify(bterm(m.at(k)))
                if z3.is_true(t) or (not z3.is_false(t) and ENG.decide(t)):
                    sel.append(k)
            c[m._ver] = FixedPositions(m, sel)
            return c[m._ver]
        # masks with the same elements select the same positions
        vs = [z3.Int("pq!%d" % j) for j in range(m.ndim)]
        with pure():
            t = z3.simplify(bterm(m.at(*[S(v) for v in vs])))
        known = ENG.path_cache.setdefault("positions", [])
        for shape, u, p in known:
            if len(shape) == m.ndim and all(same(a, b) for a, b in zip(shape, m.shape)) and u.eq(t):
                c[m._ver] = p
                return p
        c[m._ver] = Positions(m)
        known.append((m.shape, t, c[m._ver]))
    return c[m._ver]


def nonzero(a):
    a = asarr(a)
    m = a if a.kind == "b" else amap(lambda x: SB(bterm(x) if isinstance(x, (SB, bool)) else term(x) != 0), a, kind="b")
    pos = positions(m)
    out = []
    for j in range(m.ndim):
        r = Arr((pos.n,), lambda i, j=j: pos.at(i[0])[j], "i")
        out.append(r)
    return tuple(out)
