"""What C01, C02 and C03 share: the functions of trackeddy/src/cntr.c under contract, and the wrapper."""
import os
import z3
from contracts import cntr, cntr2
from contracts.util import *
from engine.npshim import NS as Names
from engine.seq import SList

FUNCTIONS = ["data_init", "zone_crosser", "curve_tracer", "cntr_trace", "reorder", "build_cntr_list_v2", "cntr_new", "cntr_init", "Cntr_new", "Cntr_init", "Cntr_trace", "Cntr_dealloc", "Cntr_clear", "cntr_del"]
ASSUMED = ["cntr.c: one level and no mask, as the wrapper calls it; slit_cutter and the other functions that only a mask or a second level reaches are outside",
           "cntr.c: C longs are mathematical integers (grids with fewer than 2^63 nodes), allocations succeed",
           "CPython and NumPy by their contracts: PyArg_ParseTuple..., PyArray_FromAny (a contiguous copy or view with the values of the argument), PyArray_New, PyArray_Resize to the same size, PyList_New/SetItem",
           "finite sets (of edges; the crossed edges of a grid are one): adding an element raises the number of elements by one, a set with an element is not empty, a subset has no more elements than the set"]
DROPPED = ["preprocessor text (macros are expanded by clang), the lines of cntr.c that only a mask or a second level reaches", "free() is followed, a failing malloc is not"]


def wrapper(V):
    """extract_contours: the first half of what Cntr.trace returns are the contours"""
    made = {}

    class Cntr:
        def __init__(s, *a, **k):
            names = ("x", "y", "z", "mask")
            made.update(dict(zip(names, a)), **k)
            made["n"] = made.get("n", 0) + 1

        def trace(s, *a, **k):
            if len(a) + len(k) != 1:
                raise Unsupported("the arguments of trace")
            made["level"] = a[0] if a else k["level0"]
            return made["res"]
    f = V.loader(shims={"trackeddy._cntr": Names(Cntr=Cntr)}).load("trackeddy.geometry").extract_contours

    def body():
        made.clear()
        n, p, q, lev = count("contours"), count("rows", 2), count("columns", 2), num("level")
        g = ENG.fresh_fn("item", I, I)
        made["res"] = SList(n + n, lambda i: S(g(term(i))))
        x, y, z = (array(k, (p, q)) for k in "xyz")
        r = f(x, y, z, lev)
        ok = isinstance(r, tuple) and len(r) == 2
        ENG.require(z3.BoolVal(bool(ok and made.get("n") == 1 and made.get("mask") is None)), "post: one tracer, a pair of lists")
        i, j = (S(ENG.fresh(k, I)) for k in "ij")
        ENG.assume(And(i.t >= 0, i.t < p.t, j.t >= 0, j.t < q.t))
        for k, a in (("x", x), ("y", y), ("z", z)):
            b = made[k]
            ENG.require(real(b[i, j]) == real(a[i, j]), "post: %s is handed over" % k)
            ENG.require(And(*[term(u) == term(v) for u, v in zip(b.shape, (p, q))], z3.BoolVal(len(b.shape) == 2)), "post: the shape of " + k)
        ENG.require(real(made["level"]) == lev.t, "post: the level is handed over")
        for part, off, what in ((r[0], 0, "contour"), (r[1], n.t, "kind")):
            m, get = part._seq() if hasattr(part, "_seq") else (len(part), part.__getitem__)
            ENG.require(term(m) == n.t, "post: as many %ss as there are contours" % what)
            h = S(ENG.fresh("h", I))
            ENG.assume(And(h.t >= 0, h.t < n.t))
            ENG.require(term(get(h)) == g(h.t + off), "post: %s number h" % what)
        ENG.mark("exit")
    V.functions.add("trackeddy.geometry.extract_contours")
    V.explore("extract_contours", body)


def whole(V, values, once):
    V.workers = 8
    V.total = 560
    path = os.path.join(V.root, "trackeddy/src/cntr.c")
    V.functions |= {"cntr.c:" + f for f in FUNCTIONS}
    V.assumed |= set(ASSUMED)
    V.dropped += DROPPED
    if values:
        V.assumed.add("cntr.c: doubles are real numbers (no NaN or infinity, no rounding)")
    else:
        V.assumed.add("cntr.c: doubles are arbitrary: the comparison of a value with the level is any predicate of the node")
    V.explore("cntr_trace", cntr2.trace(path, values, once))
    V.explore("reorder", cntr2.reorder(path, values))
    V.explore("build_cntr_list_v2", cntr2.build(path, values))
    V.explore("Cntr(x, y, z)", cntr2.made(path))
    V.explore("Cntr.trace(level)", cntr2.called(path))
    if once:
        V.assumed |= {"completeness: a map of a finite set into itself that is one to one is onto; a set of edges that is not empty has a first one; ranks along a contour are natural numbers"}
        V.explore("completeness: the first edge", cntr2.least_lemma)
        V.explore("completeness", cntr2.complete)
    V.explore("data_init", cntr2.init(path, once))
    V.explore("the step across a cell", cntr.step_lemmas)
    V.explore("zone_crosser, first pass: entry", cntr.zone_pass1(path, True))
    V.explore("zone_crosser, first pass", cntr.zone_pass1(path, False))
    kw = (values, values, once)
    V.explore("zone_crosser, second pass: entry", cntr.zone_pass2(path, True, *kw))
    V.explore("zone_crosser, second pass", cntr.zone_pass2(path, False, *kw))
    V.explore("curve_tracer, first pass, first curve", cntr.trace_pass1(path, True, once))
    V.explore("curve_tracer, first pass", cntr.trace_pass1(path, False, once))
    V.explore("curve_tracer, second pass, first curve", cntr.trace_pass2(path, True, values, once))
    V.explore("curve_tracer, second pass", cntr.trace_pass2(path, False, values, once))
    wrapper(V)
