"""Core of the verifier: paths, decisions, obligations, symbolic scalars.

The repository's source is executed by CPython itself, over symbolic values, after a
mechanical instrumentation (instr.py) that cuts loops at invariants; library modules are
replaced by contract models (shims).  Every branch on a symbolic condition forks the path
(by re-execution with a decision prefix); every obligation met on a path is recorded
together with the hypotheses of the path and discharged later (prove.py).
"""
import os
import sys
import time
import traceback
from fractions import Fraction
import z3

R = z3.RealSort()
I = z3.IntSort()


class PathEnd(BaseException):
    """The path is finished (end of an arbitrary iteration, infeasible, ...)."""


class Unsupported(Exception):
    """The code uses something outside the verifier's reach."""


class Obl:
    __slots__ = ("name", "hyps", "goal", "func", "tac", "why", "status", "time", "backend", "info", "model")

    def __init__(s, name, hyps, goal, func, tac, why):
        s.name, s.hyps, s.goal, s.func, s.tac, s.why = name, hyps, goal, func, tac, why
        s.status = None
        s.time = 0.0
        s.backend = ""
        s.info = ""
        s.model = None


class Engine:
    def __init__(s):
        s.obls = []
        s.seen = {}
        s.func = ""
        s.errors = []          # engine/unsupported errors -> failed obligations
        s.paths = 0
        s.max_paths = 4000
        s.deadline = None
        s.assumptions = set()  # every dependency contract actually used
        s.reach = {}           # reachability marks (vacuity guard)
        s.loop_specs = {}      # (function qualname, ordinal) -> spec, see loops.py
        s.loop_mut = {}        # dynamic mutated objects per loop
        s.loop_nan = set()     # names and arrays that an iteration may leave as something else than a number
        s.loop_shape = {}
        s.dropped = set()      # dropped candidate invariants (Houdini)
        s.cands = {}
        s.opts = {}
        s.on_mutate = None
        s.loops_cut = set()
        s.loop_bounds = []
        s.objects = {}
        s.path_cache = {}
        s.texts = {}           # texts made from symbolic numbers
        s.reset_path([])

    # ------------------------------------------------------------ path state
    def reset_path(s, prefix):
        s.muted = 0
        s.prefix = prefix
        s.dec = []
        s.hyps = []
        s.names = {}
        s.seq = 0
        s.qctx = 0             # inside a "pure" evaluation (no forking allowed)
        s.axioms = []
        s.events = []
        s.objs = 0
        s.loopstack = []
        s.solver = z3.Solver()
        # no model-based instantiation: it looks for models, which are of no use here
        s.solver.set("timeout", 3000)
        s.solver.set("smt.mbqi", False)
        s.path_notes = []
        s.on_mutate = None
        s.loop_bounds = []
        s.objects = {}
        s.path_cache = {}
        s.texts = {}           # texts made from symbolic numbers

    def fresh(s, base, sort=R):
        n = s.names.get(base, 0)
        s.names[base] = n + 1
        return z3.Const("%s!%d" % (base, n), sort)

    def fresh_fn(s, base, *sorts):
        n = s.names.get(base, 0)
        s.names[base] = n + 1
        return z3.Function("%s!%d" % (base, n), *sorts)

    def newid(s):
        s.objs += 1
        return s.objs

    def assume(s, c):
        c = bterm(c)
        if z3.is_true(c):
            return
        s.hyps.append(c)
        s.solver.add(c)
        if z3.is_false(c):
            raise PathEnd()

    def forget(s, n):
        """keep the first n hypotheses only (the others are dropped: what follows is shown without them)"""
        s.hyps = s.hyps[:n]
        s.solver = z3.Solver()
        s.solver.set("timeout", 3000)
        s.solver.set("smt.mbqi", False)
        for h in s.hyps:
            if not has_quantifier(h):
                s.solver.add(h)

    def feasible(s, c):
        r = s.solver.check(c)
        return r != z3.unsat

    def decide(s, c, label=""):
        """Fork on a condition; returns a Python bool."""
        c = z3.simplify(bterm(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if s.qctx:
            raise Unsupported("branch on a symbolic condition inside a pure context: %s" % str(c)[:200])
        i = len(s.dec)
        if i < len(s.prefix):
            v = s.prefix[i]
            forced = False
            if isinstance(v, tuple):
                v, forced = v
        else:
            ft = s.feasible(c)
            ff = s.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                s.todo.append(s.dec + [False])
                v, forced = True, False
            else:
                v, forced = ft, True
        s.dec.append((v, True) if forced else v)
        s.assume(c if v else z3.Not(c))
        return v

    def choose(s, n, label=""):
        """Non-deterministic choice among n alternatives (not on a condition)."""
        if s.qctx:
            raise Unsupported("choice inside a pure context")
        for k in range(n - 1):
            i = len(s.dec)
            if i < len(s.prefix):
                v = s.prefix[i]
            else:
                s.todo.append(s.dec + [False])
                v = True
            s.dec.append(v)
            if v:
                return k
        return n - 1

    # ------------------------------------------------------------ obligations
    def require(s, goal, name, tac=None, assume=True, why=""):
        if s.muted:
            return
        goal = bterm(goal)
        s.seq += 1
        if s.qctx and not z3.is_true(goal):
            # inside a pure context the element index is generic: hyps of the context apply
            pass
        if not z3.is_true(goal):
            g = z3.simplify(goal)
            if not z3.is_true(g):
                key = (s.func, tuple(d[0] if isinstance(d, tuple) else d for d in s.dec), s.seq, name)
                if key not in s.seen:
                    o = Obl(name, list(s.hyps), goal, s.func, tac, why)
                    s.seen[key] = o
                    s.obls.append(o)
            else:
                s.count_trivial(name)
        else:
            s.count_trivial(name)
        if assume and not s.qctx:
            s.assume(goal)

    def count_trivial(s, name):
        key = (s.func, "triv", tuple(d[0] if isinstance(d, tuple) else d for d in s.dec), s.seq, name)
        if key not in s.seen:
            o = Obl(name, [], z3.BoolVal(True), s.func, None, "")
            o.status, o.backend = "proved", "simplifier"
            s.seen[key] = o
            s.obls.append(o)

    def fail(s, name, info):
        s.errors.append((s.func, name, info))

    def mark(s, name):
        """Reachability mark: the path reaching it must be satisfiable on at least one path."""
        s.reach.setdefault((s.func, name), [])
        if not any(r is True for r in s.reach[(s.func, name)]):
            r = s.solver.check()
            s.reach[(s.func, name)].append(True if r == z3.sat else (None if r == z3.unknown else False))

    # ------------------------------------------------------------ exploration
    def explore(s, func, body):
        """Run body() on every path.  body sets up symbolic inputs, calls real code, checks posts."""
        s.func = func
        n0 = len(s.obls)
        s.todo = [[]]
        s.seen = {}
        npaths = 0
        while s.todo:
            if npaths >= s.max_paths:
                s.fail("path limit", "more than %d paths" % s.max_paths)
                break
            if s.deadline and time.time() > s.deadline:
                s.fail("time limit", "exploration ran out of time")
                break
            prefix = s.todo.pop()
            s.reset_path(prefix)
            npaths += 1
            try:
                body()
            except PathEnd:
                pass
            except Restart:
                # loop information changed (more state mutated, candidate dropped): start over
                del s.obls[n0:]
                s.seen = {}
                s.reach = {k: v for k, v in s.reach.items() if k[0] != func}
                s.todo = [[]]
                npaths = 0
            except Unsupported as e:
                s.fail("within the verifier's reach", "%s\n%s" % (e, repo_tb(e)))
                break
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException as e:   # the code under proof (or a model) raised
                if isinstance(e, RecursionError) or s.opts.get("raise_engine"):
                    s.fail("no exception", "%s: %s\n%s" % (type(e).__name__, e, repo_tb(e)))
                    break
                if s.dec and s.solver.check() == z3.unsat:
                    continue
                s.seq += 1
                nm = "no exception (%s)" % type(e).__name__
                o = Obl(nm, list(s.hyps), z3.BoolVal(False), s.func, None, "%s: %s\n%s" % (type(e).__name__, str(e)[:300], repo_tb(e)))
                s.obls.append(o)
                if len([x for x in s.obls[n0:] if x.name == nm]) > 25:
                    break
        s.paths += npaths
        return s.obls[n0:]


def has_quantifier(t, seen=None):
    seen = set() if seen is None else seen
    if z3.is_quantifier(t):
        return True
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return any(has_quantifier(c, seen) for c in t.children())


class Restart(BaseException):
    pass


def repo_tb(e):
    fr = traceback.extract_tb(e.__traceback__)
    out = []
    for f in fr:
        if f.filename.startswith("<repo>"):
            out.append("%s:%d in %s" % (f.filename[6:], f.lineno, f.name))
    tail = "%s:%d %s" % (fr[-1].filename.rsplit("/", 1)[-1], fr[-1].lineno, fr[-1].name) if fr else ""
    if os.environ.get("VERIF_TRACE"):
        sys.stderr.write("".join(traceback.format_exception(e)))
    return " < ".join(reversed(out[-6:])) + "  [" + tail + "]"


ENG = Engine()


# ---------------------------------------------------------------- functions with axioms
def ufun(name, n=1, out=R):
    return z3.Function(name, *([R] * n), out)


F_sin, F_cos, F_exp, F_log, F_sqrt, F_atan = [ufun(n) for n in ("sin", "cos", "exp", "log", "sqrt", "atan")]
F_asin, F_acos, F_tan, F_sinh, F_cosh, F_tanh = [ufun(n) for n in ("asin", "acos", "tan", "sinh", "cosh", "tanh")]
F_atan2 = ufun("atan2", 2)
F_round = z3.Function("rnd", R, I, R)     # round(x, n)
F_powr = ufun("powr", 2)
PI = z3.Const("PI", R)


# ---------------------------------------------------------------- scalars
def bterm(c):
    if isinstance(c, SB):
        return c.t
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if z3.is_expr(c):
        return c
    if isinstance(c, S):
        return c.t != 0
    if type(c).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(c))
    raise Unsupported("not a condition: %r" % (c,))


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non finite constant")
        return Fraction(repr(x))
    raise Unsupported("not a number: %r" % (x,))


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


def term(x):
    """z3 arithmetic term of a scalar."""
    if isinstance(x, S):
        return x.t
    if isinstance(x, SB):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        f = frac(x)
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if z3.is_expr(x):
        return x
    u = unwrap0(x)
    if u is not x:
        return term(u)
    raise Unsupported("not a scalar: %r" % (type(x),))


def real(x):
    t = term(x)
    return z3.ToReal(t) if t.sort() == I else t


def unwrap0(x):
    f = getattr(x, "_scalar0", None)
    if f is not None:
        return f()
    return x


def okof(x):
    if isinstance(x, S):
        return x.ok
    if isinstance(x, float) and x != x:
        return z3.BoolVal(False)
    return TRUE


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return FALSE
    if not a:
        return TRUE
    if len(a) == 1:
        return a[0]
    return z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return TRUE
    if not a:
        return FALSE
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def Not(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    return z3.Not(a)


def is_scalar(x):
    return isinstance(x, (S, SB, int, float, Fraction, bool))


def isnanc(x):
    return isinstance(x, float) and (x != x)


class SB:
    """Symbolic boolean."""
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(s, t):
        s.t = t

    def __bool__(s):
        return ENG.decide(s.t)

    def __and__(s, o):
        if isinstance(o, (SB, bool)):
            return SB(And(s.t, bterm(o)))
        if is_scalar(o):
            return S(term(s)) & o
        return NotImplemented
    __rand__ = __and__

    def __or__(s, o):
        if isinstance(o, (SB, bool)):
            return SB(Or(s.t, bterm(o)))
        return NotImplemented
    __ror__ = __or__

    def __invert__(s):
        return SB(Not(s.t))

    def __xor__(s, o):
        return SB(z3.Xor(s.t, bterm(o)))

    def _n(s):
        return S(z3.If(s.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(s, o):
        if isinstance(o, (SB, bool)):
            return SB(s.t == bterm(o))
        return s._n() == o

    def __ne__(s, o):
        r = s.__eq__(o)
        return SB(Not(r.t)) if isinstance(r, SB) else r
    __hash__ = None

    def __mul__(s, o):
        if isinstance(o, SB):      # numpy: bool*bool is bool
            return SB(And(s.t, o.t))
        if is_scalar(o):
            return s._n() * o
        return NotImplemented

    def __rmul__(s, o):
        return s._n() * o if is_scalar(o) else NotImplemented

    def __add__(s, o):
        if isinstance(o, SB):
            return SB(Or(s.t, o.t))
        return s._n() + o if is_scalar(o) else NotImplemented

    def __radd__(s, o):
        return o + s._n() if is_scalar(o) else NotImplemented

    def __sub__(s, o):
        return s._n() - o if is_scalar(o) else NotImplemented

    def __rsub__(s, o):
        return o - s._n() if is_scalar(o) else NotImplemented

    def any(s):
        return s

    def all(s):
        return s

    def item(s):
        return s

    def __repr__(s):
        return "SB(%s)" % s.t

    ndim = 0
    shape = ()
    size = 1


class S:
    """Symbolic number: a z3 Real or Int term; ok is the condition that it is not NaN."""
    __slots__ = ("t", "ok", "fr", "np")
    __array_priority__ = 1000

    def __init__(s, t, ok=TRUE, fr=None):
        s.t = t
        s.ok = ok
        s.fr = fr

    @property
    def isint(s):
        return s.t.sort() == I

    def __repr__(s):
        return "S(%s)" % s.t

    __hash__ = None
    ndim = 0
    shape = ()
    size = 1

    def item(s):
        return s

    def squeeze(s, *a, **k):
        return s

    def copy(s):
        return s

    def mean(s, *a, **k):
        return s

    def max(s, *a, **k):
        return s

    def min(s, *a, **k):
        return s

    def sum(s, *a, **k):
        return s

    @property
    def values(s):
        return s

    @property
    def T(s):
        return s

    def ravel(s):
        from . import arr
        return arr.asarr([s])

    def astype(s, ty):
        if ty is int or getattr(ty, "_isint", False):
            return trunc(s)
        return s

    # ---- arithmetic
    def _bin(s, o, f, rev=False):
        if isinstance(o, SB):
            o = o._n()
        if isnanc(o):
            return S(z3.RealVal(0), FALSE)
        if not is_scalar(o):
            return NotImplemented
        a, b = s.t, term(o)
        if a.sort() != b.sort():
            a = z3.ToReal(a) if a.sort() == I else a
            b = z3.ToReal(b) if b.sort() == I else b
        if rev:
            a, b = b, a
        return S(f(a, b), And(s.ok, okof(o)))

    def __add__(s, o):
        if is_num(o) and o == 0:
            return s
        return s._bin(o, lambda a, b: a + b)

    def __radd__(s, o):
        if is_num(o) and o == 0:
            return s
        return s._bin(o, lambda a, b: a + b, True)

    def __sub__(s, o):
        if is_num(o) and o == 0:
            return s
        return s._bin(o, lambda a, b: a - b)

    def __rsub__(s, o):
        return s._bin(o, lambda a, b: a - b, True)

    def __mul__(s, o):
        if is_num(o) and o == 1:
            return s
        return s._bin(o, lambda a, b: a * b)

    def __rmul__(s, o):
        if is_num(o) and o == 1:
            return s
        return s._bin(o, lambda a, b: a * b, True)

    def __truediv__(s, o):
        if not is_scalar(o):
            return NotImplemented
        return divide(s, o)

    def __rtruediv__(s, o):
        if not is_scalar(o):
            return NotImplemented
        return divide(o, s)

    def __floordiv__(s, o):
        if not is_scalar(o):
            return NotImplemented
        return floordiv(s, o)

    def __rfloordiv__(s, o):
        return floordiv(o, s)

    def __mod__(s, o):
        if not is_scalar(o):
            return NotImplemented
        return mod(s, o)

    def __rmod__(s, o):
        return mod(o, s)

    def __divmod__(s, o):
        return floordiv(s, o), mod(s, o)

    def __neg__(s):
        return S(-s.t, s.ok)

    def __pos__(s):
        return s

    def __abs__(s):
        return absolute(s)

    def __pow__(s, o):
        if not is_scalar(o):
            return NotImplemented
        return power(s, o)

    def __rpow__(s, o):
        return power(o, s)

    def __round__(s, n=None):
        return rounding(s, n)

    def __and__(s, o):
        raise Unsupported("bitwise operation on numbers")

    # ---- comparisons
    def _cmp(s, o, f, nanres=False):
        if isinstance(o, SB):
            o = o._n()
        if o is None or isinstance(o, str):
            return nanres
        if isnanc(o):
            return SB(z3.BoolVal(nanres))
        if not is_scalar(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return SB(z3.And(s.ok, z3.BoolVal(bool(f(0, 1 if o > 0 else -1)))))
        a, b = s.t, term(o)
        if a.sort() != b.sort():
            a = z3.ToReal(a) if a.sort() == I else a
            b = z3.ToReal(b) if b.sort() == I else b
        k = And(s.ok, okof(o))
        c = f(a, b)
        return SB(Or(Not(k), c) if nanres else And(k, c))

    def __lt__(s, o):
        return s._cmp(o, lambda a, b: a < b)

    def __le__(s, o):
        return s._cmp(o, lambda a, b: a <= b)

    def __gt__(s, o):
        return s._cmp(o, lambda a, b: a > b)

    def __ge__(s, o):
        return s._cmp(o, lambda a, b: a >= b)

    def __eq__(s, o):
        return s._cmp(o, lambda a, b: a == b)

    def __ne__(s, o):
        return s._cmp(o, lambda a, b: a != b, True)

    def __bool__(s):
        return ENG.decide(Or(Not(s.ok), s.t != 0))

    def __index__(s):
        t = z3.simplify(s.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("a symbolic integer is used where Python needs a concrete one")

    __int__ = __index__

    def __float__(s):
        raise Unsupported("float() of a symbolic number by native code")

    def __format__(s, spec):
        t = "<%s%s>" % (s.t, ":" + spec if spec else "")
        ENG.texts[t] = (s, spec)
        return t

    def __str__(s):
        return "<%s>" % (s.t,)


def mk(t, ok=TRUE):
    return S(t, ok)


def divide(a, b):
    if is_num(a) and is_num(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return frac(a) / frac(b)
    if is_num(b) and b != 0:
        f = 1 / frac(b)
        return S(real(a) * real(f), okof(a))
    if isnanc(a) or isnanc(b):
        return S(z3.RealVal(0), FALSE)
    ta, tb = real(a), real(b)
    ok = And(okof(a), okof(b))
    return S(ta / tb, And(ok, tb != 0), fr=(ta, tb, ok))


def floor_t(t):
    return t if t.sort() == I else z3.ToInt(t)


def floordiv(a, b):
    if is_num(a) and is_num(b):
        return a // b
    ta, tb = term(a), term(b)
    if ta.sort() == I and tb.sort() == I:
        if is_num(b) and b > 0:
            return S(ta / tb, okof(a))
        ENG.require(tb > 0, "integer division by a positive number")
        return S(ta / tb, And(okof(a), okof(b)))
    q = z3.ToInt(real(a) / real(b))
    return S(z3.ToReal(q), And(okof(a), okof(b), real(b) != 0))


def mod(a, b):
    if is_num(a) and is_num(b):
        return a % b
    ta, tb = term(a), term(b)
    if ta.sort() == I and tb.sort() == I:
        if not is_num(b):
            ENG.require(tb > 0, "modulo a positive number")
        elif b <= 0:
            raise Unsupported("modulo by a non positive number")
        return S(ta % tb, And(okof(a), okof(b)))
    ra, rb = real(a), real(b)
    return S(ra - rb * z3.ToReal(z3.ToInt(ra / rb)), And(okof(a), okof(b), rb != 0))


def power(a, n):
    if is_num(n) and frac(n).denominator == 1:
        n = int(n)
        if is_num(a):
            return frac(a) ** n if n >= 0 or a != 0 else 1 / Fraction(0)
        if n == 0:
            return 1
        t = a.t if isinstance(a, S) else term(a)
        p = t
        for _ in range(abs(n) - 1):
            p = p * t
        r = S(p, okof(a))
        return r if n > 0 else divide(1, r)
    if is_num(n) and frac(n) == Fraction(1, 2):
        return sqrt(a)
    if is_num(n) and frac(n) == Fraction(3, 2):
        return sqrt(a) * a
    if is_num(n) and frac(n) == Fraction(-1, 2):
        return divide(1, sqrt(a))
    return S(F_powr(real(a), real(n)), And(okof(a), okof(n), real(a) > 0))


def sqrt(a):
    if is_num(a):
        f = frac(a)
        import math
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
        if f < 0:
            return S(z3.RealVal(0), FALSE)
    t = real(a)
    return S(F_sqrt(t), And(okof(a), t >= 0))


def absolute(a):
    if is_num(a):
        return abs(a)
    if isinstance(a, SB):
        return a
    t = a.t
    return S(z3.If(t >= 0, t, -t), a.ok)


def un(f, name):
    def g(a):
        if is_num(a) and a == 0:
            if name in ("sin", "tan", "atan", "asin", "sinh", "tanh"):
                return Fraction(0)
            if name in ("cos", "exp", "cosh"):
                return Fraction(1)
        return S(f(real(a)), okof(a))
    return g


sin, cos, exp = un(F_sin, "sin"), un(F_cos, "cos"), un(F_exp, "exp")
tanh, sinh, cosh = un(F_tanh, "tanh"), un(F_sinh, "sinh"), un(F_cosh, "cosh")


def tan(a):
    return divide(sin(a), cos(a))


def log(a):
    if is_num(a) and a == 1:
        return Fraction(0)
    t = real(a)
    return S(F_log(t), And(okof(a), t > 0))


def atan(a):
    """numpy: arctan(+-inf) = +-pi/2, so a quotient n/0 with n != 0 is fine."""
    if isinstance(a, S) and a.fr is not None:
        n, d, ok = a.fr
        return S(z3.If(d == 0, z3.If(n > 0, PI / 2, -PI / 2), F_atan(n / d)), And(ok, Or(d != 0, n != 0)))
    return S(F_atan(real(a)), okof(a))


def asin(a):
    t = real(a)
    return S(F_asin(t), And(okof(a), t >= -1, t <= 1))


def acos(a):
    t = real(a)
    return S(F_acos(t), And(okof(a), t >= -1, t <= 1))


def atan2(a, b):
    return S(F_atan2(real(a), real(b)), And(okof(a), okof(b)))


def rounding(a, n=None):
    if is_num(a):
        return round(a, n) if n is not None else round(a)
    if n is None:
        if a.isint:
            return a
        return S(z3.ToInt(F_round(real(a), z3.IntVal(0))), a.ok)
    return S(F_round(real(a), term(n)), okof(a))


def trunc(a):
    """int(x): truncation toward zero."""
    if is_num(a):
        return int(a)
    if isinstance(a, SB):
        return a._n()
    if a.isint:
        return a
    return S(z3.If(a.t >= 0, z3.ToInt(a.t), -z3.ToInt(-a.t)), a.ok)


def floor(a):
    if is_num(a):
        import math
        return math.floor(a)
    return a if a.isint else S(z3.ToReal(z3.ToInt(a.t)), a.ok)


def ceil(a):
    if is_num(a):
        import math
        return math.ceil(a)
    return a if a.isint else S(-z3.ToReal(z3.ToInt(-a.t)), a.ok)


def sign(a):
    if is_num(a):
        return (a > 0) - (a < 0)
    one = z3.RealVal(1) if not a.isint else z3.IntVal(1)
    return S(z3.If(a.t > 0, one, z3.If(a.t < 0, -one, one - one)), a.ok)


def ite(c, a, b):
    """Scalar selection."""
    c = bterm(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return SB(z3.If(c, bterm(a), bterm(b)))
    if isnanc(a) and isnanc(b):
        return a
    if isnanc(a):
        return S(term(b), And(Not(c), okof(b)))
    if isnanc(b):
        return S(term(a), And(c, okof(a)))
    if not (is_scalar(a) and is_scalar(b)):
        raise Unsupported("selection between non-scalars")
    ta, tb = term(a), term(b)
    if ta.sort() != tb.sort():
        ta, tb = real(a), real(b)
    oa, ob = okof(a), okof(b)
    ok = TRUE if z3.is_true(oa) and z3.is_true(ob) else z3.If(c, oa, ob)
    if ta.eq(tb):
        return S(ta, ok)
    return S(z3.If(c, ta, tb), ok)


def smax(a, b):
    if is_num(a) and is_num(b):
        return max(a, b)
    return ite(SB(real(a) <= real(b)) if not both_int(a, b) else SB(term(a) <= term(b)), b, a)     # the condition of smin


def smin(a, b):
    if is_num(a) and is_num(b):
        return min(a, b)
    return ite(SB(real(a) <= real(b)) if not both_int(a, b) else SB(term(a) <= term(b)), a, b)


def both_int(a, b):
    return term(a).sort() == I and term(b).sort() == I


def isint(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, S) and x.isint) or \
        (isinstance(x, Fraction) and False)


def conc(x):
    """Concrete int when the symbolic integer simplifies to one."""
    if isinstance(x, S):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
    return x


def same(a, b):
    """Are two integer extents syntactically the same (after simplification)?"""
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z3.is_true(z3.simplify(term(a) == term(b)))


def must(c):
    """Is the condition implied by the path (cheap solver check)?"""
    c = z3.simplify(bterm(c))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return ENG.solver.check(z3.Not(c)) == z3.unsat
