"""Loops: unrolled when the iteration is concrete, otherwise cut at an invariant.

A cut loop is verified the usual way: the invariant holds on entry (iteration 0), is
preserved by one arbitrary iteration k (state havocked, invariant assumed; checked for
k+1, path ends), and the code after the loop runs from an arbitrary state satisfying the
invariant at the end (k = n for a `for`, negated test for a `while`).  `break`, `return`
and exceptions leave from the arbitrary iteration.

The state is what the iteration changes: the names the body assigns (known from the
syntax) and the objects it mutates (observed while running the arbitrary iteration; a new
one restarts the exploration with that object havocked too).  The invariant is the
conjunction of closed forms inferred here (a candidate that is not inductive is dropped
and the exploration restarted) and of the conditions a contract supplies.
"""
import sys
import z3
from . import core, arr as A, canon as C
from .core import ENG, S, SB, I, R, Unsupported, PathEnd, Restart, term, real, conc, is_scalar, is_num, bterm, TRUE, And, Not, Or, okof
from .seq import seqof, SList

UNROLL = 40


class Poison:
    """A name whose value at the head of the loop is not known."""
    def __init__(s, name):
        s.__dict__["_n"] = name

    def _bad(s, *a, **k):
        raise Unsupported("the value of '%s' carried by a loop is not described by an invariant" % s._n)

    def __getattr__(s, k):
        if k.startswith("__") or k in ("_scalar0", "_seq", "_len", "_asarr", "_isarr", "_xr"):
            raise AttributeError(k)
        s._bad()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __len__ = __iter__ = __getitem__ = _bad
    __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __setitem__ = __truediv__ = __call__ = _bad
    __hash__ = object.__hash__


UNSET = object()


class St:
    """The state a contract's invariant talks about."""
    def __init__(s, k, n, get, entry, loop):
        s.k, s.n, s._g, s._e, s.loop = k, n, get, entry, loop

    def var(s, name):
        return s._g(name)

    def entry(s, name):
        return s._e[name]

    def only(s, what, pred):
        """the value that satisfies pred, whatever its name"""
        found = {}
        for n, e in s._e.items():
            e = core.unwrap0(e)
            if isinstance(e, Poison) or e is UNSET or not pred(e):
                continue
            v = core.unwrap0(s._g.vals.get(n, e))
            if not isinstance(v, Poison) and v is not UNSET:
                found[id(v)] = v
        if len(found) != 1:
            raise Unsupported("%d values are %s in %s" % (len(found), what, s.loop.lid))
        return list(found.values())[0]


def shape_of(v):
    v = core.unwrap0(v)
    if isinstance(v, (SB, bool)):
        return "b"
    if isinstance(v, S):
        return "i" if v.isint else "f"
    if isinstance(v, int):
        return "i"
    if is_num(v):
        return "f"
    if isinstance(v, A.Arr):
        return ("A", v.kind, v.shape)
    return "?"


def compatible(a, b):
    if a == b:
        return a
    ra, rb = (isinstance(x, tuple) and x[0] == "R" for x in (a, b))
    if ra != rb:
        return a if ra else b
    if (a, b) in (("i", "f"), ("f", "i")) if isinstance(a, str) and isinstance(b, str) else False:
        return "f"
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a[2]) == len(b[2]) and \
            all(core.same(x, y) for x, y in zip(a[2], b[2])):
        return ("A", a[1] if a[1] == b[1] else "f", b[2])
    return "?"


class Loop:
    def __init__(s, lid, it, names, locs, is_for, steps={}):
        s.lid, s.names, s.is_for = lid, names, is_for
        s.locs = dict(locs)
        s.cut = False
        s.test_fn = None
        s.spec = ENG.loop_specs.get(lid)
        s.dec0 = tuple(d[0] if isinstance(d, tuple) else d for d in ENG.dec)
        s.key = (ENG.func, lid, s.dec0, len(ENG.events))
        s.oid0 = ENG.objs
        s.mode = None
        if is_for:
            s.it = it
            n, get = (None, None)
            if hasattr(it, "_seq") or isinstance(it, (A.Arr, list, tuple, range, dict, str)):
                n, get = seqof(it)
            else:
                s.conc = list(it)
                n = len(s.conc)
                get = lambda i: s.conc[i]
            s.n, s.get = conc(n), get
            if isinstance(s.n, int):
                if s.n > UNROLL * 10:
                    s.cut = True
            else:
                s.cut = True
        else:
            s.test_fn = it
            s.n = None
            s.cut = not (s.spec and getattr(s.spec, "unroll", False))
        for nm, c in steps.items():
            e = core.unwrap0(locs.get(nm, UNSET))
            if s.cut and (s.key, "name", nm) not in ENG.dropped and (isinstance(e, S) and e.isint or isinstance(e, int)):
                f = lambda k, e, c=c: e + c * k
                f.inc = lambda k, c=c: c
                ENG.cands[(s.key, "name", nm)] = f
        if s.cut:
            ENG.loops_cut.add((ENG.func, lid))

    # -- while
    def test(s, f):
        if not s.cut:
            return f()
        c = f()
        c = core.unwrap0(c)
        if s.mode == "exit":
            if isinstance(c, (SB, S)):
                ENG.assume(Not(bterm(c)))
                # the first time: the test held one iteration earlier
                names = set(f.__code__.co_freevars) | set(f.__code__.co_names)
                carried = [n for n in s.names if n in names]
                if isinstance(s.k, S) and not s.touched(names) and not any(x.startswith("h_") for x in consts_of(bterm(c))) and all((s.key, "name", n) in ENG.cands and (s.key, "name", n) not in ENG.dropped and n not in s.forms for n in carried):
                    ENG.assume(Or(s.k.t == 0, z3.substitute(bterm(c), (s.k.t, s.k.t - 1))))
                return False
            if c:
                raise PathEnd()
            return False
        if isinstance(c, (SB, S)):
            ENG.assume(bterm(c))
            return True
        if not c:
            raise PathEnd()
        return True

    def touched(s, names):
        """does one of these names lead to an object the loop changes?"""
        if not s.objs:
            return False
        for n in names:
            v = s.locs.get(n)
            while getattr(v, "view", None) is not None:
                v = v.view[0]
            if v is None or is_scalar(core.unwrap0(v)):
                continue
            if not isinstance(v, (A.Arr, list)) or any(v is o[1] for o in s.objs):
                return True
        return False

    # -- invariants
    def conditions(s, k, getvar, check):
        out = []
        if s.spec is not None and getattr(s.spec, "inv", None):
            st = St(k, s.n if s.is_for else None, getvar, s.locs, s)
            out += [("invariant " + nm, c) for nm, c in s.spec.inv(st)]
        return out

    def getter(s, vals):
        def g(name):
            v = vals.get(name, UNSET)
            if v is UNSET:
                raise Unsupported("the invariant of %s needs '%s', which the code does not define" % (s.lid, name))
            return core.unwrap0(v)
        g.vals = vals
        return g

    def havoc(s):
        info = ENG.loop_shape.setdefault(s.key, {})
        mut = ENG.loop_mut.setdefault(s.key, {})
        k0 = 0
        # --- entry
        for nm, c in s.conditions(k0, s.getter(s.locs), True):
            ENG.require(c, "%s holds when %s is entered" % (nm, s.lid), assume=False)
        forms = getattr(s.spec, "form", None) or {}
        if callable(forms):
            forms = forms(s)
        s.forms = forms
        for nm, fm in forms.items():
            if nm not in s.locs:
                raise Unsupported("the invariant of %s needs '%s', which the code does not define" % (s.lid, nm))
            ENG.require(veq(s.locs[nm], fm.base(s.locs)), "the form of '%s' holds when %s is entered" % (nm, s.lid), assume=False)
        s.mode = "iter" if ENG.choose(2) == 0 else "exit"
        if s.is_for:
            n = term(s.n)
            if s.mode == "iter":
                k = S(ENG.fresh("it", I))
                ENG.assume(z3.And(k.t >= 0, k.t < n))
            else:
                k = s.n if isinstance(s.n, int) else S(n)
                ENG.assume(n >= 0)
            ENG.loop_bounds.append((term(k), n))
        else:
            k = S(ENG.fresh("it", I))
            ENG.assume(k.t >= 0)
        s.k = k
        # --- state: names
        vals = {}
        s.roles = {}
        for nm in s.names:
            sh = info.get(nm)
            if nm in forms:
                vals[nm] = forms[nm].at(k, s.locs)
                continue
            cand = ENG.cands.get((s.key, "name", nm))
            if cand is not None and (s.key, "name", nm) not in ENG.dropped:
                vals[nm] = cand(k, s.locs.get(nm))
                continue
            if sh is None and nm in s.locs:
                sh = shape_of(s.locs[nm])
                info[nm] = sh
            if sh is None:
                sh = (getattr(s.spec, "types", None) or {}).get(nm)
            if isinstance(sh, tuple) and sh[0] == "R" and nm in s.locs and not isinstance(s.locs[nm], Poison):
                ENG.require(s.spec.role_ok(sh[1], s.locs[nm], s), "'%s' is as the invariant says when %s is entered" % (nm, s.lid), assume=False)
                s.roles[nm] = sh[1]
                continue
            if sh is None or sh == "?" or isinstance(sh, tuple) and sh[0] == "R":
                vals[nm] = Poison(nm)
                continue
            vals[nm] = s.fresh(nm, sh)
        # values of which the contract knows what they are
        if getattr(s.spec, "begin", None):
            s.spec.begin(s)
        for nm, role in s.roles.items():
            vals[nm] = s.spec.role_at(role, s)
        s.vals0 = vals
        s.names0 = dict(ENG.names)
        # --- state: objects
        s.objs = []
        for oid, (path, obj_name) in sorted(mut.items()):
            o = ENG.objects.get(oid)
            if o is None:
                raise Unsupported("a loop mutates an object the engine cannot find again")
            s.havoc_obj(o, oid)
        allv = dict(s.locs)
        allv.update(vals)
        s.allv = allv
        for nm, c in s.conditions(k, s.getter(allv), False):
            ENG.assume(c)
        if getattr(s.spec, "measure", None) and s.mode == "iter":
            s.m0 = term(s.spec.measure(St(k, None, s.getter(allv), s.locs, s)))
        s.start_dec = len(ENG.dec)
        if s.mode == "iter":
            s.old_hook = ENG.on_mutate
            ENG.on_mutate = s.mutated
            ENG.loopstack.append(s)
        return tuple(vals[n] for n in s.names)

    def made_here(s, t):
        """does the term name something that this iteration created (a state of another loop, the result of a call)?"""
        for x in consts_of(t):
            if x.startswith("h_"):
                return True
            b, _, n = x.rpartition("!")
            if b and n.isdigit() and int(n) >= s.names0.get(b, 0):
                return True
        return False

    def fresh(s, nm, sh):
        maybe = (s.key, nm) in ENG.loop_nan      # an iteration may leave something that is not a number
        if sh == "b":
            return SB(ENG.fresh("h_" + nm, z3.BoolSort()))
        if sh in ("i", "f"):
            return S(ENG.fresh("h_" + nm, I if sh == "i" else R), ENG.fresh("h_ok_" + nm, z3.BoolSort()) if maybe else core.TRUE)
        _, kind, shape = sh
        f = ENG.fresh_fn("h_" + nm, *([I] * len(shape) + [z3.BoolSort() if kind == "b" else I if kind == "i" else R]))
        wrap = SB if kind == "b" else S
        if maybe and kind != "b":
            g = ENG.fresh_fn("h_ok_" + nm, *([I] * len(shape) + [z3.BoolSort()]))
            return A.Arr(shape, lambda i: S(f(*[term(x) for x in i]), g(*[term(x) for x in i])), kind)
        # extents that the loop itself created are unknown
        return A.Arr(shape, lambda i: wrap(f(*[term(x) for x in i])), kind)

    def havoc_obj(s, o, oid):
        cand = ENG.cands.get((s.key, "obj", oid))
        if isinstance(o, A.Arr):
            s.objs.append((oid, o, o._get, o.shape))
            old = o._get
            if cand is not None and (s.key, "obj", oid) not in ENG.dropped:
                o._get = cand(s.k, old)
            else:
                nd = len(o.shape)
                f = ENG.fresh_fn("h_obj", *([I] * nd + [z3.BoolSort() if o.kind == "b" else I if o.kind == "i" else R]))
                wrap = SB if o.kind == "b" else S
                o._get = lambda i: wrap(f(*[term(x) for x in i]))
                if (s.key, oid) in ENG.loop_nan and o.kind != "b":
                    g = ENG.fresh_fn("h_ok_obj", *([I] * nd + [z3.BoolSort()]))
                    o._get = lambda i: S(f(*[term(x) for x in i]), g(*[term(x) for x in i]))
            o._memo = {}
            o._ver += 1
            return
        bag = getattr(s.spec, "bag", None)
        if bag is not None and isinstance(o, list):
            from .rtlib import BagList
            v = S(A.gvar("v"))
            with A.pure():
                m0, e0 = bag(0)
                was = o._member(v) if isinstance(o, BagList) else Or(*[bterm(A.cmp("==", v, x)) for x in list.__iter__(o)])
                ENG_ = z3.ForAll([v.t], m0(v) == was)
            ENG.require(ENG_, "the contents of a list when %s is entered" % s.lid, assume=False)
            ENG.require(e0 == (o.nonempty if isinstance(o, BagList) else z3.BoolVal(list.__len__(o) > 0)), "whether a list is empty when %s is entered" % s.lid, assume=False)
            o.__class__ = BagList
            mem, ne = bag(s.k)
            o.become(mem, ne)
            s.objs.append((oid, o, None, None))
            return
        if hasattr(o, "_loop_havoc"):
            s.objs.append((oid, o, None, None))
            o._loop_havoc(s, cand)
            return
        raise Unsupported("a loop mutates a %s" % type(o).__name__)

    def mutated(s, o):
        while getattr(o, "view", None) is not None:
            o = o.view[0]
        if s.old_hook:
            s.old_hook(o)
        if o.oid <= s.oid0:
            mut = ENG.loop_mut.setdefault(s.key, {})
            if o.oid not in mut:
                mut[o.oid] = (None, None)
                raise Restart()

    # -- iteration
    def iterate(s):
        if not s.cut:
            if not s.is_for:
                cnt = 0
                while True:
                    cnt += 1
                    if cnt > getattr(s.spec, "unroll", UNROLL):
                        raise Unsupported("a loop is unrolled more than %d times" % UNROLL)
                    yield None
            # native semantics (the list may change while iterating)
            if isinstance(s.it, list):
                yield from s.it
                return
            for i in range(s.n):
                yield s.get(i)
            return
        if s.mode == "exit":
            if not s.is_for:
                yield None      # the test is evaluated once and assumed false
            return
        finished = False
        try:
            yield (s.get(s.k) if s.is_for else None)
            finished = True
        finally:
            ENG.on_mutate = s.old_hook
            if s in ENG.loopstack:
                ENG.loopstack.remove(s)
        if not finished:
            return
        fr = sys._getframe(1)
        s.close(dict(fr.f_locals))
        raise PathEnd()

    def close(s, locs):
        """end of the arbitrary iteration: state description, closed forms, invariants at k+1"""
        info = ENG.loop_shape.setdefault(s.key, {})
        k1 = s.k + 1 if isinstance(s.k, S) else s.k + 1
        changed = False
        forms = s.forms
        for nm in s.names:
            v = locs.get(nm, UNSET)
            if v is UNSET or nm in forms:
                continue
            sh = shape_of(v)
            role = getattr(s.spec, "role", None) and s.spec.role(v)
            if role:
                sh = ("R", role)
            e = s.locs.get(nm, UNSET)
            # names of an outer iteration, or temporaries of this one
            if isinstance(v, Poison):
                continue
            old = info.get(nm)
            if old is None:
                new = sh if e is UNSET or isinstance(e, Poison) else compatible(shape_of(e), sh)
                # the loop target and temporaries need no description unless something uses them; describing them is harmless
                if isinstance(new, tuple) and new[0] == "A" and not s.stable_shape(new):
                    new = "?"
                info[nm] = new
                if new != "?":
                    changed = True
            else:
                new = compatible(old, sh)
                if new != old:
                    info[nm] = new
                    changed = True
            # accumulators: v' = v + f(k)
            if old in ("f", "i") and is_scalar(core.unwrap0(e)) and (s.key, "name", nm) not in ENG.cands and (s.key, "name", nm) not in ENG.dropped:
                f = s.accumulates(nm, v)
                if f is not None and not s.is_for and nm in (getattr(s.spec, "free", None) or ()):
                    f = None
                if f is not None:
                    ENG.cands[(s.key, "name", nm)] = f
                    changed = True
            # v' = f(k): the name holds what the previous iteration left
            if s.is_for and e is not UNSET and not isinstance(e, Poison) and info.get(nm) == shape_of(v) == shape_of(e) != "?" and nm not in s.roles and \
                    (s.key, "name", nm) not in ENG.cands and (s.key, "name", nm) not in ENG.dropped and not hasattr(s.spec, "inv"):
                f = s.latest(v, e)
                if f is not None:
                    ENG.cands[(s.key, "name", nm)] = f
                    changed = True
        for oid, o, old_get, shape in s.objs:
            if isinstance(o, A.Arr) and s.is_for and (s.key, "obj", oid) not in ENG.cands and (s.key, "obj", oid) not in ENG.dropped:
                f = s.array_form(o, old_get)
                if f is not None:
                    ENG.cands[(s.key, "obj", oid)] = f
                    changed = True
        for nm in s.names:
            v = locs.get(nm, UNSET)
            if nm in forms or nm in s.roles or v is UNSET or isinstance(v, Poison) or (s.key, nm) in ENG.loop_nan:
                continue
            if info.get(nm) != "?" and not always_number(v):
                ENG.loop_nan.add((s.key, nm))
                changed = True
        for oid, o, old_get, shape in s.objs:
            if isinstance(o, A.Arr) and (s.key, oid) not in ENG.loop_nan and not always_number(o):
                ENG.loop_nan.add((s.key, oid))
                changed = True
        if changed:
            raise Restart()
        if getattr(s.spec, "end", None):
            s.spec.end(s, locs)
        for nm, role in s.roles.items():
            ENG.require(s.spec.role_ok(role, locs.get(nm, UNSET), s), "'%s' stays as the invariant says in %s" % (nm, s.lid), assume=False)
        # closed forms are inductive?
        for nm in s.names:
            cand = ENG.cands.get((s.key, "name", nm))
            if cand is None or (s.key, "name", nm) in ENG.dropped or nm in forms:
                continue
            want = cand(k1, s.locs.get(nm))
            v0 = s.vals0.get(nm)
            if hasattr(cand, "inc") and is_scalar(core.unwrap0(v0)) and s.refuted(real(locs[nm]), real(v0 + cand.inc(s.k))):
                ENG.dropped.add((s.key, "name", nm))
                raise Restart()
            if isinstance(want, A.Arr):
                ENG.require(veq(locs[nm], want), "closed form of '%s' in %s is preserved" % (nm, s.lid), assume=False)
                continue
            ENG.require(And(term(locs[nm]) == term(want) if term(locs[nm]).sort() == term(want).sort() else real(locs[nm]) == real(want), okof(locs[nm]) == okof(want)),
                        "closed form of an accumulator in %s is preserved" % s.lid, assume=False)
        for oid, o, old_get, shape in s.objs:
            cand = ENG.cands.get((s.key, "obj", oid))
            if cand is None or (s.key, "obj", oid) in ENG.dropped or not isinstance(o, A.Arr):
                continue
            want = A.Arr(o.shape, cand(k1, old_get), o.kind)
            ENG.require(A.forallN(o.shape, lambda *i: eqv(o.at(*i), want.at(*i))),
                        "closed form of an array filled by %s is preserved" % s.lid, assume=False)
        for oid, o, old_get, shape in s.objs:
            if isinstance(o, list):
                v = S(A.gvar("v"))
                with A.pure():
                    m1, e1 = s.spec.bag(k1)
                    c = z3.ForAll([v.t], m1(v) == o._member(v))
                ENG.require(c, "the contents of a list are preserved by %s" % s.lid, assume=False)
                ENG.require(e1 == o.nonempty, "whether a list is empty is preserved by %s" % s.lid, assume=False)
        for nm, fm in forms.items():
            ENG.require(veq(locs[nm], fm.step(s.k, s.locs)), "the form of '%s' is preserved by %s" % (nm, s.lid), assume=False)
        allv = dict(s.locs)
        allv.update(locs)
        if getattr(s.spec, "measure", None):
            m1 = term(s.spec.measure(St(k1, None, s.getter(allv), s.locs, s)))
            ENG.require(z3.And(s.m0 >= 0, m1 < s.m0), "%s terminates" % s.lid, assume=False)
        for nm, c in s.conditions(k1, s.getter(allv), True):
            ENG.require(c, "%s is preserved by %s" % (nm, s.lid), assume=False)

    def refuted(s, a, b):
        """a candidate that an iteration does not keep is dropped"""
        try:
            d = C.padd(C.canon(a), C.canon(b), -1)
            if C.is_zero(d):
                return False
            d = z3.simplify(C.to_z3(d))
            if z3.is_rational_value(d) or z3.is_int_value(d):
                return True
        except Exception:
            pass
        return ENG.solver.check(a != b) == z3.sat

    def stable_shape(s, sh):
        # an array shape is usable if it does not mention symbols created inside the iteration
        for d in sh[2]:
            if isinstance(d, S):
                for nm in C.int_consts(d.t):
                    if nm.startswith("it!") and nm == str(s.k.t):
                        return False
        return True

    def accumulates(s, nm, v):
        """v' - v is a function of k only (not of the havocked state)"""
        v0 = s.vals0.get(nm)
        if not isinstance(v0, (S,)) or not is_scalar(v):
            return None
        try:
            d = C.to_z3(C.padd(C.canon(real(v)), C.canon(real(v0)), -1))
        except Exception:
            return None
        ok = okof(v)
        if z3.is_const(v0.ok) and not z3.is_true(v0.ok):
            ok = z3.substitute(ok, (v0.ok, TRUE))
        ok = z3.simplify(ok)
        if s.made_here(d) or s.made_here(ok):
            return None
        kt = s.k.t
        isint = term(v).sort() == I and v0.isint

        def form(k, v00):
            base = v00
            t = A.bigsum(lambda j: S(z3.substitute(d, (kt, term(j))), z3.substitute(ok, (kt, term(j)))), 0, k)
            if isinstance(t, S) and isint:
                t = S(z3.ToInt(t.t), t.ok) if t.t.sort() == R else t
            return base + t
        form.inc = lambda k: S(z3.substitute(d, (kt, term(k))))
        return form

    def latest(s, v, e):
        """the value at the end of an iteration is a function of k only"""
        v = core.unwrap0(v)
        kt = s.k.t
        vs = []
        x = v
        if isinstance(v, A.Arr):
            vs = [ENG.fresh("ar", I) for _ in v.shape]
            try:
                with A.pure():
                    x = v.at(*[S(i) for i in vs])
            except Unsupported:
                return None
        if not isinstance(x, (S, SB)):
            return None
        t, ok = z3.simplify(x.t), z3.simplify(okof(x))
        if any(s.made_here(z3.substitute(y, *[(i, z3.IntVal(0)) for i in vs]) if vs else y) for y in (t, ok)):
            return None

        # nothing special about the first iteration: the entry is f(-1)
        first = [z3.simplify(z3.substitute(y, (kt, z3.IntVal(-1)))) for y in (t, ok)]
        with A.pure():
            e0 = core.unwrap0(e).at(*[S(i) for i in vs]) if vs else core.unwrap0(e)
        plain = isinstance(e0, (S, SB)) and z3.simplify(e0.t).eq(first[0]) and z3.simplify(okof(e0)).eq(first[1])

        def form(k, old):
            def get(i):
                sub = [(kt, term(k) - 1)] + [(a, term(b)) for a, b in zip(vs, i)]
                w = z3.substitute(t, *sub)
                if plain:
                    return SB(w) if isinstance(x, SB) else S(w, z3.substitute(ok, *sub))
                return core.ite(SB(term(k) == 0), old.at(*i) if vs else old, SB(w) if isinstance(x, SB) else S(w, z3.substitute(ok, *sub)))
            return A.Arr(v.shape, get, v.kind) if vs else get(())
        return form

    def array_form(s, o, old_get):
        """an iteration writes only the row k (first index) of the array"""
        nd = len(o.shape)
        kt = s.k.t
        vs = [ENG.fresh("ar", I) for _ in range(nd)]
        try:
            with A.pure():
                now = o.at(*[S(v) for v in vs])
        except Unsupported:
            return None
        if not isinstance(now, (S, SB)):
            return None
        t = now.t
        rest = z3.simplify(z3.substitute(t, (vs[0], kt)))
        if s.made_here(z3.substitute(rest, *[(v, z3.IntVal(0)) for v in vs])):
            return None
        wrap = type(now)

        def form(k, old):
            def get(i):
                i0 = term(i[0])
                val = z3.substitute(rest, *([(kt, i0)] + [(v, term(x)) for v, x in zip(vs[1:], i[1:])]))
                return core.ite(SB(z3.And(i0 >= 0, i0 < term(k))), wrap(val), old(i))
            return get
        return form


def veq(a, b):
    """equality of values of any kind"""
    a, b = core.unwrap0(a), core.unwrap0(b)
    for x, y in ((a, b), (b, a)):
        if hasattr(x, "_veq"):
            return x._veq(y)
    if hasattr(a, "_table") or hasattr(b, "_table"):
        if not (hasattr(a, "_table") and hasattr(b, "_table")):
            return z3.BoolVal(False)
        from . import tables
        return tables.equal_tables(a, b)
    if isinstance(a, A.Arr) or isinstance(b, A.Arr):
        if not (isinstance(a, A.Arr) and isinstance(b, A.Arr)) or a.ndim != b.ndim:
            return z3.BoolVal(False)
        return And(And(*[term(x) == term(y) for x, y in zip(a.shape, b.shape)]), A.forallN(b.shape, lambda *i: eqv(a.at(*i), b.at(*i))))
    return eqv(a, b)


def eqv(a, b):
    if isinstance(a, (SB, bool)):
        return bterm(a) == bterm(b)
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = real(a), real(b)
    return And(ta == tb, okof(a) == okof(b))


def always_number(v):
    """the value (every element of an array) is a number on all accounts, without a proof"""
    v = core.unwrap0(v)
    if isinstance(v, A.Arr):
        if v.kind == "b":
            return True
        try:
            with A.pure():
                v = v.at(*[S(ENG.fresh("ar", I)) for _ in v.shape])
        except Unsupported:
            return True
    return z3.is_true(z3.simplify(okof(v))) if isinstance(v, S) else True


def consts_of(t):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out
