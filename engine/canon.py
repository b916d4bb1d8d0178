"""Canonical polynomials over atoms: decides algebraic identities the SMT solver is bad at.

z3 term -> Poly: {monomial: Fraction}, monomial = sorted tuple of (atom id, exponent).
Atoms are interned: constants, applications of (uninterpreted) functions to canonical
arguments, if-then-else, floor, finite sums, and reciprocals of polynomials.
Rules used (each is a theorem of real arithmetic): ring laws, 1/(p q)=1/p 1/q, sqrt(p)^2=p
(p>=0 is a separate definedness obligation), cos(u)^2=1-sin(u)^2, sin/cos(-u), sin(2u),
cos(2u), exp(p)exp(q)=exp(p+q), exp(0)=1, abs(p)^2=p^2, abs(-p)=abs(p).
"""
from fractions import Fraction
import math
import z3
from .core import R, I, PI

ATOMS = []          # id -> (key, z3term)
AKEY = {}
SUMS = {}           # name -> dict(body=z3 term, k=z3 var, frees=[z3 vars])


def reset():
    ATOMS.clear()
    AKEY.clear()
    CACHE.clear()


CACHE = {}


class TooBig(Exception):
    pass


def atom(key, t):
    i = AKEY.get(key)
    if i is None:
        i = len(ATOMS)
        AKEY[key] = i
        ATOMS.append((key, t))
    return i


# ---- polynomials ------------------------------------------------------------
def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def pvar(a, e=1):
    return {((a, e),): Fraction(1)}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    c = Fraction(c)
    return {m: v * c for m, v in p.items()} if c else {}


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return d


def pmul(p, q):
    if len(p) * len(q) > 20000:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            for mm, cc in norm_mono(mmul(m, n)).items():
                v = r.get(mm, 0) + c * d * cc
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
    return r


def norm_mono(d):
    """Apply the power rules to a monomial given as dict atom->exp; returns a Poly."""
    exps = None
    extra = None
    for a in list(d):
        e = d[a]
        k = ATOMS[a][0]
        if k[0] == "poly" and e > 0:
            extra = pmul(extra if extra is not None else pconst(1), ppow(thaw(k[1]), e))
            del d[a]
            continue
        if k[0] == "f":
            if k[1] == "exp":
                exps = exps or []
                exps.append((a, e))
            elif k[1] == "sqrt" and abs(e) >= 2:
                q = pinv(k[2][0]) if e < 0 else thaw(k[2][0])
                n = abs(e) // 2
                extra = pmul(extra if extra is not None else pconst(1), ppow(q, n))
                d[a] = e - 2 * n * (1 if e > 0 else -1)
                if d[a] == 0:
                    del d[a]
            elif k[1] == "cos" and e >= 2:
                s = atom(("f", "sin", k[2]), None)
                if ATOMS[s][1] is None:
                    ATOMS[s] = (ATOMS[s][0], mkfun("sin", k[2]))
                n = e // 2
                q = padd(pconst(1), {((s, 2),): Fraction(1)}, -1)
                extra = pmul(extra if extra is not None else pconst(1), ppow(q, n))
                d[a] = e - 2 * n
                if d[a] == 0:
                    del d[a]
            elif k[1] == "abs" and e >= 2:
                n = e // 2
                q = ppow(thaw(k[2][0]), 2 * n)
                extra = pmul(extra if extra is not None else pconst(1), q)
                d[a] = e - 2 * n
                if d[a] == 0:
                    del d[a]
    if exps and (len(exps) > 1 or exps[0][1] != 1):
        arg = {}
        for a, e in exps:
            arg = padd(arg, pscale(thaw(ATOMS[a][0][2][0]), e))
            del d[a]
        base = {tuple(sorted(d.items())): Fraction(1)}
        r = pmul_raw(base, pfun("exp", [arg]))
        return pmul(r, extra) if extra is not None else r
    base = {tuple(sorted(d.items())): Fraction(1)}
    return pmul(base, extra) if extra is not None else base


def pmul_raw(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mm = tuple(sorted(mmul(m, n).items()))
            v = r.get(mm, 0) + c * d
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return r


def ppow(p, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def freeze(p):
    return tuple(sorted(p.items()))


def thaw(k):
    return dict(k)


def lead(p):
    return max(p, key=lambda m: (len(m), m))


def content(p):
    """rational content with the sign of the leading coefficient"""
    num = 0
    den = 1
    for c in p.values():
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    c = Fraction(num, den)
    return c if p[lead(p)] > 0 else -c


def pinv(p):
    """1/p"""
    if not isinstance(p, dict):
        p = thaw(p)
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        d = {a: -e for a, e in m}
        out = {tuple(sorted(d.items())): 1 / c}
        # exp(-u)
        return pmul(out, pconst(1)) if any(ATOMS[a][0][:2] == ("f", "exp") for a in d) else out
    # common monomial
    common = None
    for m in p:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm.get(a, 0)) for a, e in common.items()}
            for a, e in dm.items():
                if a not in common and e < 0:
                    common[a] = e
    # include negative exponents appearing in some monomials
    for m in p:
        for a, e in m:
            if e < 0:
                common[a] = min(common.get(a, 0), e)
    common = {a: e for a, e in (common or {}).items() if e}
    inv = {a: -e for a, e in common.items()}
    q = {}
    for m, c in p.items():
        for mm, cc in norm_mono(mmul(m, tuple(inv.items()))).items():
            q[mm] = q.get(mm, 0) + c * cc
    q = {m: c for m, c in q.items() if c}
    if len(q) == 1:
        return pmul(pinv(q), {tuple(sorted(inv.items())): Fraction(1)})
    c = content(q)
    q = pscale(q, 1 / c)
    a = atom(("poly", freeze(q)), None)
    if ATOMS[a][1] is None:
        ATOMS[a] = (ATOMS[a][0], None)
    r = {((a, -1),): 1 / c}
    return pmul(r, {tuple(sorted(inv.items())): Fraction(1)})


def clear_den(p):
    """multiply out reciprocals of polynomials; zero test for rational functions"""
    for _ in range(40):
        den = {}
        for m in p:
            for a, e in m:
                if e < 0 and ATOMS[a][0][0] == "poly":
                    den[a] = min(den.get(a, 0), e)
        if not den:
            # negative powers of plain atoms do not matter for a zero test, but expand poly atoms
            return p
        r = {}
        for m, c in p.items():
            d = dict(m)
            q = {(): c}
            for a, e in den.items():
                k = d.pop(a, 0) - e          # >= 0
                if k:
                    q = pmul(q, ppow(thaw(ATOMS[a][0][1]), k))
            q = pmul(q, {tuple(sorted(d.items())): Fraction(1)})
            r = padd(r, q)
        p = r
    raise TooBig()


def is_zero(p):
    return not p or not clear_den(p)


# ---- functions ---------------------------------------------------------------
def mkfun(name, keys):
    from . import core
    f = {"sin": core.F_sin, "cos": core.F_cos, "exp": core.F_exp, "sqrt": core.F_sqrt, "log": core.F_log,
         "atan": core.F_atan, "asin": core.F_asin, "acos": core.F_acos, "atan2": core.F_atan2, "sinh": core.F_sinh, "cosh": core.F_cosh,
         "tanh": core.F_tanh, "powr": core.F_powr}.get(name)
    if f is None:
        return None
    return f(*[to_z3(thaw(k)) for k in keys])


def even_int(p):
    return p and all(c.denominator == 1 and c.numerator % 2 == 0 for c in p.values())


def pfun(name, args, t=None):
    if name == "exp" and not args[0]:
        return pconst(1)
    if name in ("sin", "cos"):
        p = args[0]
        if not p:
            return pconst(0 if name == "sin" else 1)
        if p[lead(p)] < 0:
            r = pfun(name, [pscale(p, -1)])
            return pscale(r, -1) if name == "sin" else r
        if even_int(p):
            h = pscale(p, Fraction(1, 2))
            s, c = pfun("sin", [h]), pfun("cos", [h])
            if name == "sin":
                return pscale(pmul(s, c), 2)
            return padd(pconst(1), pscale(pmul(s, s), 2), -1)
    if name == "atan":
        p = args[0]
        if not p:
            return {}
        if p[lead(p)] < 0:
            return pscale(pfun(name, [pscale(p, -1)]), -1)
    if name == "abs":
        p = args[0]
        if not p:
            return {}
        if not [m for m in p if m]:
            return pconst(abs(p[()]))
        c = content(p)
        p = pscale(p, 1 / c)
        a = atom(("f", "abs", (freeze(p),)), None)
        if ATOMS[a][1] is None:
            z = to_z3(p)
            ATOMS[a] = (ATOMS[a][0], z3.If(z >= 0, z, -z))
        return {((a, 1),): abs(c)}
    if name == "sqrt":
        p = args[0]
        if not p:
            return {}
        if not [m for m in p if m]:
            f = p[()]
            if f > 0:
                a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator:
                    return pconst(Fraction(a, b))
        c = abs(content(p))
        # extract the square part of the content
        def sq(n):
            s = 1
            i = 2
            while i * i <= n and i < 2000:
                while n % (i * i) == 0:
                    n //= i * i
                    s *= i
                i += 1
            r = math.isqrt(n)
            if r * r == n:
                s *= r
            return s
        s = Fraction(sq(c.numerator), sq(c.denominator))
        q = pscale(p, 1 / (s * s))
        a = atom(("f", "sqrt", (freeze(q),)), None)
        if ATOMS[a][1] is None:
            ATOMS[a] = (ATOMS[a][0], mkfun("sqrt", (freeze(q),)))
        return {((a, 1),): s}
    keys = tuple(freeze(a) for a in args)
    a = atom(("f", name, keys), None)
    if ATOMS[a][1] is None:
        ATOMS[a] = (ATOMS[a][0], t if t is not None else mkfun(name, keys))
    return {((a, 1),): Fraction(1)}


def to_z3(p):
    ts = []
    for m, c in sorted(p.items()):
        t = None
        pos = []
        neg = []
        for a, e in m:
            z = ATOMS[a][1]
            if z is None:
                k = ATOMS[a][0]
                z = to_z3(thaw(k[1])) if k[0] == "poly" else mkfun(k[1], k[2])
                ATOMS[a] = (k, z)
            if z.sort() == I:
                z = z3.ToReal(z)
            (pos if e > 0 else neg).extend([z] * abs(e))
        t = None if c == 1 and pos else z3.RealVal("%d/%d" % (c.numerator, c.denominator))
        for z in pos:
            t = z if t is None else t * z
        if neg:
            d = neg[0]
            for z in neg[1:]:
                d = d * z
            t = t / d
        ts.append(t)
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


# ---- z3 -> Poly ---------------------------------------------------------------
K = z3


def canon(t):
    i = t.get_id()
    r = CACHE.get(i)
    if r is None:
        r = (_canon(t), t)     # keep t alive: ids are reused after garbage collection
        CACHE[i] = r
    return r[0]


def _canon(t):
    k = t.decl().kind() if z3.is_app(t) else None
    if k is None:
        a = atom(("bv", t.sexpr()), t)
        return pvar(a)
    if k == z3.Z3_OP_ANUM:
        return pconst(Fraction(t.as_fraction()) if t.sort() == R else t.as_long())
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            r = padd(r, canon(c))
        return r
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        r = canon(ch[0])
        for c in ch[1:]:
            r = padd(r, canon(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return pscale(canon(t.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = pconst(1)
        for c in t.children():
            r = pmul(r, canon(c))
        return r
    if k == z3.Z3_OP_DIV:
        d = canon(t.arg(1))
        if not d or is_zero(d):
            a = atom(("f", "div0", (freeze(canon(t.arg(0))),)), t)
            return pvar(a)
        return pmul(canon(t.arg(0)), pinv(d))
    if k == z3.Z3_OP_TO_REAL:
        return canon(t.arg(0))
    if k == z3.Z3_OP_ITE:
        p, q = canon(t.arg(1)), canon(t.arg(2))
        if p == q:
            return p
        # abs pattern
        c = t.arg(0)
        ap = abs_pattern(c, p, q)
        if ap is not None:
            return pfun("abs", [ap])
        ck, neg = canon_bool(c)
        if neg:
            p, q = q, p
        a = atom(("ite", ck, freeze(p), freeze(q)), None)
        if ATOMS[a][1] is None:
            ATOMS[a] = (ATOMS[a][0], t)
        return pvar(a)
    if k == z3.Z3_OP_POWER:
        e = t.arg(1)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            f = Fraction(e.as_fraction()) if e.sort() == R else Fraction(e.as_long())
            if f.denominator == 1:
                p = ppow(canon(t.arg(0)), abs(int(f)))
                return p if f >= 0 else pinv(p)
    if k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if t.num_args() == 0:
            return pvar(atom(("c", n), t))
        args = []
        for c in t.children():
            if c.sort() in (R, I):
                args.append(canon(c))
            else:
                args.append({((atom(("o", c.sexpr()), None), 1),): Fraction(1)})
        return pfun(n, args, t)
    if k == z3.Z3_OP_TO_INT:
        p = canon(t.arg(0))
        # pull integer constant out of floor
        c = p.get((), Fraction(0))
        fl = Fraction(math.floor(c))
        q = padd(p, pconst(fl), -1)
        a = atom(("f", "floor", (freeze(q),)), None)
        if ATOMS[a][1] is None:
            ATOMS[a] = (ATOMS[a][0], z3.ToInt(to_z3(q)))
        return padd(pvar(a), pconst(fl))
    if k == z3.Z3_OP_IDIV or k == z3.Z3_OP_MOD or k == z3.Z3_OP_REM:
        args = [canon(c) for c in t.children()]
        keys = tuple(freeze(a) for a in args)
        a = atom(("f", {z3.Z3_OP_IDIV: "idiv", z3.Z3_OP_MOD: "imod"}.get(k, "irem"), keys), None)
        if ATOMS[a][1] is None:
            ATOMS[a] = (ATOMS[a][0], t)
        return pvar(a)
    # anything else: an opaque atom (select etc.), canonicalising index arguments
    args = tuple(freeze(canon(c)) if c.sort() in (R, I) else c.sexpr() for c in t.children())
    a = atom(("x", t.decl().name(), k, args), None)
    if ATOMS[a][1] is None:
        ATOMS[a] = (ATOMS[a][0], t)
    return pvar(a)


def abs_pattern(c, p, q):
    if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_LT):
        if padd(p, q):
            return None
        l = padd(canon(c.arg(0)), canon(c.arg(1)), -1)
        if c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            l = pscale(l, -1)
        if not l or not p:
            return None
        # l > 0 selects p: abs(p) if p is a positive multiple of l
        f = None
        if set(l) == set(p):
            m = next(iter(l))
            f = p[m] / l[m]
            if f > 0 and pscale(l, f) == p:
                return p
    return None


def canon_bool(c):
    """(key, negated)"""
    if z3.is_not(c):
        k, n = canon_bool(c.arg(0))
        return k, not n
    if z3.is_app(c):
        k = c.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            p = padd(canon(c.arg(0)), canon(c.arg(1)), -1)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                p = pscale(p, -1)
            # p <= 0 or p < 0
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if not p:
                return ("false" if strict else "true",), False
            ct = content(p)
            p1 = pscale(p, 1 / abs(ct))
            if p1[lead(p1)] < 0:
                # p<0  <=>  not (-p <= 0)
                return ("le" if strict else "lt", freeze(pscale(p1, -1))), True
            return ("lt" if strict else "le", freeze(p1)), False
        if k == z3.Z3_OP_EQ and c.arg(0).sort() in (R, I):
            p = padd(canon(c.arg(0)), canon(c.arg(1)), -1)
            if not p:
                return ("true",), False
            p = pscale(p, 1 / content(p))
            return ("eq", freeze(p)), False
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ks = sorted((canon_bool(x) for x in c.children()), key=repr)
            if k == z3.Z3_OP_OR:
                return ("and", tuple((a, not n) for a, n in ks)), True
            return ("and", tuple(ks)), False
        if z3.is_true(c):
            return ("true",), False
        if z3.is_false(c):
            return ("true",), True
        if k == z3.Z3_OP_UNINTERPRETED and c.num_args():
            args = tuple(freeze(canon(x)) if x.sort() in (R, I) else x.sexpr() for x in c.children())
            return ("p", c.decl().name(), args), False
    return ("b", c.sexpr()), False


# ---- finite sums ---------------------------------------------------------------
SUMKEY = {}


def bigsum(body, k, lo, hi):
    """z3 term of sum_{k=lo}^{hi-1} body, in canonical form (linear in body)."""
    p = canon(body)
    p = expand_k(p, k)
    groups = {}
    kid = {}

    def has_k(a):
        if a not in kid:
            z = ATOMS[a][1]
            if z is None:
                z = to_z3({((a, 1),): Fraction(1)})
            kid[a] = occurs(z, k)
        return kid[a]
    for m, c in p.items():
        kp = tuple((a, e) for a, e in m if has_k(a))
        op = tuple((a, e) for a, e in m if not has_k(a))
        groups.setdefault(kp, {})
        groups[kp][op] = groups[kp].get(op, 0) + c
    lo_t = lo if z3.is_expr(lo) else z3.IntVal(lo)
    hi_t = hi if z3.is_expr(hi) else z3.IntVal(hi)
    total = []
    for kp, outer in sorted(groups.items()):
        o = to_z3({m: c for m, c in outer.items() if c})
        if not kp:
            n = z3.If(hi_t > lo_t, z3.ToReal(hi_t - lo_t), z3.RealVal(0))
            total.append(o * n)
        else:
            total.append(o * sum_atom({kp: Fraction(1)}, k, lo_t, hi_t))
    if not total:
        return z3.RealVal(0)
    return z3.Sum(total) if len(total) > 1 else total[0]


def expand_k(p, k):
    return p


def occurs(t, k):
    seen = set()
    st = [t]
    kid = k.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def int_consts(t, out=None):
    out = {} if out is None else out
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.sort() == I:
                out[x.decl().name()] = x
        else:
            st.extend(x.children())
    return out


def sum_atom(mono, k, lo, hi):
    body = to_z3(mono)
    fr = int_consts(body)
    fr.pop(k.decl().name(), None)
    frees = [fr[n] for n in sorted(fr)]
    # key with placeholders
    ph = [z3.Int("ph!%d" % i) for i in range(len(frees))]
    kk = z3.Int("k!sum")
    b = z3.substitute(body, [(k, kk)] + list(zip(frees, ph)))
    key = freeze(canon(b))
    # alternative placeholder orders are tried so that renamed indices give the same sum
    e = SUMKEY.get(key)
    if e is None:
        name = "SUM_%d" % len(SUMKEY)
        f = z3.Function(name, *([I] * (2 + len(frees)) + [R]))
        e = (name, f)
        SUMKEY[key] = e
        SUMS[name] = dict(body=to_z3(thaw(key)), k=kk, frees=ph)
    return e[1](lo, hi, *frees)


def sum_body(app, idx):
    """The body of a SUM application at index idx."""
    d = SUMS[app.decl().name()]
    args = app.children()[2:]
    return z3.substitute(d["body"], [(d["k"], idx)] + list(zip(d["frees"], args)))
