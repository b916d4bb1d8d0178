"""C15: the state kept by eddy_identifier, and a search of a level between two reset states."""
from contracts.onelevel import one_level
from contracts.util import *
from engine import tables as TB
from engine.loops import veq


class Slots:
    """the counter and the table a decorated function keeps, wherever it keeps them"""

    def __init__(s, f):
        cells = [(lambda k=k: f.__dict__[k], lambda v, k=k: setattr(f, k, v)) for k in f.__dict__ if k != "__wrapped__"]
        for c in f.__closure__ or ():
            v = c.cell_contents
            cells.append((lambda c=c: c.cell_contents, lambda v, c=c: setattr(c, "cell_contents", v)))
            d = v if isinstance(v, dict) else getattr(v, "__dict__", None) if type(v).__module__ != "builtins" and not callable(v) and not isinstance(v, TB.DataFrame) else None
            if d is not None:
                cells += [(lambda d=d, k=k: d[k], lambda v, d=d, k=k: d.__setitem__(k, v)) for k in d]
        cnt = [c for c in cells if isinstance(conc(core.unwrap0(c[0]())) if is_scalar(core.unwrap0(c[0]())) else None, int) and not isinstance(c[0](), bool)]
        tab = [c for c in cells if isinstance(c[0](), TB.DataFrame)]
        if len(cnt) != 1 or len(tab) != 1:
            raise Unsupported("the state kept by the decorated function: %d counters and %d tables" % (len(cnt), len(tab)))
        s.counter, s.table = cnt[0], tab[0]

    def reset(s):
        t = s.table[0]()
        return And(term(core.unwrap0(s.counter[0]())) == 0, z3.BoolVal(isinstance(t, TB.DataFrame) and bool(t.empty)))


def run(V):
    one_level(V, state=True)
    V.functions |= {"trackeddy.eddy.Eddy." + f for f in ("store", "discarded", "exit", "to_dict", "to_table")}
    V.functions.add("trackeddy.decorators.eddy_identifier")
    V.assumed.add("pandas: DataFrame of a dictionary of columns and numbers, reset_index and concat as modelled in engine/tables.py")
    V.assumed.add("no other code calls Eddy.store or Eddy.discarded between two searches")

    def eddy(mod, tag):
        p = count(tag + "_vertices", 2)
        e = mod.Eddy(array(tag + "_contour", (p, 2)), num("level"))
        e.area_eddy, e.radius_eddy, e.contour_center = num(tag + "_area"), A.asarr(num(tag + "_radius")), array(tag + "_mean", (2,))
        e.ellipse_params, e.ellipse_eccen, e.contour_ellipse_error = array(tag + "_ellipse", (3,)), num(tag + "_ecc"), num(tag + "_score")
        e.eddy_sign, e.eddy_maxima = S(ENG.fresh(tag + "_sign", I)), array(tag + "_maxima", (3,))
        e.gaussian_params, e.contour_gaussian_error = array(tag + "_surface", (5,)), num(tag + "_surface_score")
        return e, p

    def step(kind):
        def body():
            mod = V.loader(shims={"pandas": TB.make()}).load("trackeddy.eddy")
            f = getattr(mod.Eddy, kind)
            sl = Slots(f)
            ENG.mark("entry")
            ENG.require(sl.reset(), "init: nothing is stored at first", assume=False)
            e0, p0 = eddy(mod, "first")
            e, p = eddy(mod, "eddy")
            args = () if kind == "store" else ("a reason",)
            t0 = getattr(e0, kind)(*args)          # the first record
            ENG.require(And(term(core.unwrap0(sl.counter[0]())) == 1, veq(sl.table[0](), t0)), "one record is counted after the first", assume=False)
            check(kind, t0, None, 0, None, e0, p0)
            # any number of records before this one
            c, n = count("records", 1), count("rows_before", 1)
            cols = {}
            for k in t0.cols:
                g = ENG.fresh_fn("before_" + k, I, R)
                cols[k] = lambda r, g=g: S(g(term(r)))
            lab = ENG.fresh_fn("before_label", I, I)
            before = TB.table(n, cols, [(None, lambda r: S(lab(term(r))))])
            sl.counter[1](c)
            sl.table[1](before)
            t = getattr(e, kind)(*args)
            ENG.mark("recorded")
            check(kind, t, before, c, n, e, p)
            ENG.require(term(core.unwrap0(sl.counter[0]())) == c.t + 1, "post: one more record is counted", assume=False)
            ENG.require(veq(sl.table[0](), t), "post: the table is kept for the next record", assume=False)
            other = Slots(getattr(mod.Eddy, "discarded" if kind == "store" else "store"))
            ENG.require(other.reset(), "frame: accepted and discarded contours are counted apart", assume=False)
            e.exit()
            ENG.mark("reset")
            ENG.require(sl.reset(), "post of exit: nothing is left", assume=False)
            ENG.require(other.reset(), "post of exit: nothing is left of the other kind", assume=False)
        return body

    def check(kind, t, before, c, n, e, p):
        if not isinstance(t, TB.DataFrame):
            raise Unsupported("%s does not return a table" % kind)
        m, slot, place = t.rows.enum()
        k = p if kind == "store" else 1
        b = n if before is not None else 0
        ENG.require(term(m) == term(b + k), "post: one record is added", assume=False)
        if before is not None:
            r = index("earlier_row", n)
            s = slot(r)
            ENG.require(z3.BoolVal(set(t.cols) >= set(before.cols)), "post: the columns are kept", assume=False)
            for name in before.cols:
                ENG.require(real(t.cols[name](s)) == real(before.cols[name](r)), "post: earlier records are kept", assume=False)
            if kind == "discarded":
                ENG.require(term(t._levels[0].fn(s)) == term(before._levels[0].fn(r)), "post: earlier numbers are kept", assume=False)
        r = index("row", k)
        s = slot(r + b)
        if kind == "store":
            ENG.require(term(t.cols["identifier"](s)) == term(c) if "identifier" in t.cols else FALSE, "post: eddies are numbered in the order they are found", assume=False)
            ENG.require(term(t.cols["index"](s)) == r.t if "index" in t.cols else FALSE, "post: vertices are numbered from zero", assume=False)
        else:
            ENG.require(term(t._levels[0].fn(s)) == term(c), "post: discarded contours are numbered in the order they are found", assume=False)
        ENG.require(real(t.cols["area_eddy"](s)) == real(e.area_eddy), "post: the record is that of the eddy", assume=False)
    for kind in ("store", "discarded"):
        V.explore("%s (eddy_identifier)" % kind, step(kind))
