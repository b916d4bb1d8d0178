"""Symbolic inputs and specification helpers shared by the contracts."""
import z3
from engine import core, arr as A, canon as C
from engine.core import ENG, S, SB, I, R, And, Or, Not, TRUE, FALSE, real, term, okof, conc, is_scalar, is_num, bterm, Unsupported
from engine.arr import Arr
from types import SimpleNamespace as NS


def num(base, lo=None, hi=None, nz=False):
    v = S(ENG.fresh(base, R))
    if lo is not None:
        ENG.assume(v.t >= lo)
    if hi is not None:
        ENG.assume(v.t <= hi)
    if nz:
        ENG.assume(v.t != 0)
    return v


def count(base, lo=0):
    v = S(ENG.fresh(base, I))
    ENG.assume(v.t >= lo)
    return v


def array(base, shape, kind="f"):
    """an arbitrary array of numbers (extents may be symbolic)"""
    f = ENG.fresh_fn(base, *([I] * len(shape) + [z3.BoolSort() if kind == "b" else I if kind == "i" else R]))
    w = SB if kind == "b" else S
    return Arr(shape, lambda i: w(f(*[term(x) for x in i])), kind)


def nanarray(base, shape):
    """an array that may hold missing values"""
    f = ENG.fresh_fn(base, *([I] * len(shape) + [R]))
    g = ENG.fresh_fn(base + "_valid", *([I] * len(shape) + [z3.BoolSort()]))
    return Arr(shape, lambda i: S(f(*[term(x) for x in i]), g(*[term(x) for x in i])), "f")


def val(x):
    """the number held by a scalar or a 0-d array"""
    x = core.unwrap0(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            return core.unwrap0(x.at())
    if not is_scalar(x):
        raise Unsupported("a number was expected, got %s" % type(x).__name__)
    return x


def index(base, n):
    v = S(ENG.fresh(base, I))
    ENG.assume(And(v.t >= 0, v.t < term(n)))
    return v


def eq(a, b):
    a, b = val(a), val(b)
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = real(a), real(b)
    return And(ta == tb, okof(a), okof(b))


def eqr(a, b):
    """equal, and defined on the left"""
    return real(val(a)) == real(val(b))


def defined(x):
    return okof(val(x))


def same_shape(a, shape, name):
    if not isinstance(a, Arr) or a.ndim != len(shape):
        raise Unsupported("%s: an array of %d dimensions was expected" % (name, len(shape)))
    ENG.require(And(*[term(x) == term(y) for x, y in zip(a.shape, shape)]), name + ": extents")


def lemma(name, sorts, body, *insts):
    """a universally quantified fact, proved on its own, then assumed at the given instances"""
    vs = [z3.Const("lv%d" % i, s) for i, s in enumerate(sorts)]
    saved = ENG.hyps
    ENG.hyps = []
    try:
        ENG.require(body(*vs), "lemma: " + name, assume=False)
    finally:
        ENG.hyps = saved
    for inst in insts:
        ENG.assume(body(*[real(x) if s == R else term(x) for x, s in zip(inst, sorts)]))
