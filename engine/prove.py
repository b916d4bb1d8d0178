"""Discharging obligations: canonical forms for identities, SMT for the rest.

Back ends: "simplifier", "hypothesis", "canonical form" (canon.py), "z3", "z3 nlsat", "cvc5".
Only `unsat` of the negation (or a zero canonical form) counts as proved.
"""
import threading
import json
import os
import signal
import time
import mmap
import traceback
import z3
from . import core, canon as C
from .core import R, I, And, Or, Not, TRUE, FALSE

FRESH = [0]


class Timeout(Exception):
    pass


def fresh(sort, name="sk"):
    FRESH[0] += 1
    return z3.Const("%s?%d" % (name, FRESH[0]), sort)


def conj(t):
    if z3.is_and(t):
        for c in t.children():
            yield from conj(c)
    else:
        yield t


def split(g, hyps):
    """[(extra hyps, goal)]"""
    if z3.is_true(g):
        return []
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split(c, hyps)
        return out
    if z3.is_implies(g):
        return [(h, x) for h, x in split(g.arg(1), hyps + list(conj(g.arg(0))))]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [fresh(g.var_sort(i), g.var_name(i)) for i in range(g.num_vars())]
        return split(z3.substitute_vars(g.body(), *reversed(vs)), hyps)
    if z3.is_not(g):
        a = g.arg(0)
        if z3.is_or(a):
            return split(z3.And(*[Not(c) for c in a.children()]), hyps)
        if z3.is_not(a):
            return split(a.arg(0), hyps)
        if z3.is_implies(a):
            return split(z3.And(a.arg(0), Not(a.arg(1))), hyps)
        if z3.is_quantifier(a) and not a.is_forall():
            vs = [fresh(a.var_sort(i), a.var_name(i)) for i in range(a.num_vars())]
            return split(Not(z3.substitute_vars(a.body(), *reversed(vs))), hyps)
    if z3.is_eq(g) and g.arg(0).sort() == z3.BoolSort():
        a, b = g.children()
        if z3.is_true(b):
            return split(a, hyps)
        if z3.is_true(a):
            return split(b, hyps)
        if a.eq(b):
            return []
        return split(b, hyps + list(conj(a))) + split(a, hyps + list(conj(b)))
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE and g.sort() == z3.BoolSort():
        c, a, b = g.children()
        return split(a, hyps + list(conj(c))) + split(b, hyps + [Not(c)])
    return [(hyps, g)]


def subterms(ts):
    seen = {}
    st = list(ts)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return seen.values()


def ground(t):
    """no bound variables inside"""
    for x in subterms([t]):
        if z3.is_var(x):
            return False
    return True


_quant, _simple = {}, {}        # by id; the term is kept, so that its id is not used again


def has_quant(t):
    r = _quant.get(t.get_id())
    if r is None:
        r = _quant[t.get_id()] = (any(z3.is_quantifier(x) for x in subterms([t])), t)
    return r[0]


def simplified(t):
    r = _simple.get(t.get_id())
    if r is None:
        r = _simple[t.get_id()] = (z3.simplify(t), t)
    return r[0]


_symcache = {}


def symbols(t):
    k = t.get_id()
    r = _symcache.get(k)
    if r is None:
        s = set()
        for x in subterms([t]):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(x.decl().name())
        r = (s, t)
        _symcache[k] = r
    return r[0]


def find_ite(t):
    """a condition of a real/int if-then-else inside t (outermost first)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop(0)
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.sort() != z3.BoolSort():
            c = x.arg(0)
            if ground(c):
                return c
        st.extend(x.children())
    return None


# ------------------------------------------------------------------- axioms
def axioms(ts, rounds=2, big=False):
    """instances of the axioms of the functions that occur"""
    out = []
    done = set()
    ts = list(ts)
    for _ in range(rounds):
        apps = {}
        for x in subterms(ts):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and ground(x):
                apps.setdefault(x.decl().name(), {})[x.get_id()] = x
        new = []

        def add(key, *fs):
            if key in done:
                return
            done.add(key)
            new.extend(fs)
        if any(z3.is_const(x) and x.decl().name() == "PI" for x in subterms(ts)) or "atan" in apps:
            P = core.PI
            add("pi", P > z3.RealVal("3.14159265"), P < z3.RealVal("3.14159266"))
        args = {}
        for n in ("sin", "cos"):
            for x in apps.get(n, {}).values():
                args[x.arg(0).get_id()] = x.arg(0)
        for i, a in args.items():
            s, c = core.F_sin(a), core.F_cos(a)
            add(("sc", i), s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1)
            if a.decl().name() == "atan" and a.num_args() == 1:
                add(("sca", i), s == a.arg(0) * c, c > 0)
            if is_half_atan(a):
                add(("sch", i), c > 0)
            add(("s0", i), z3.Implies(a == 0, z3.And(s == 0, c == 1)))
        # double angles
        if 1 < len(args) <= 12:
            try:
                cf = {i: C.freeze(C.canon(a)) for i, a in args.items()}
                dbl = {C.freeze(C.pscale(C.canon(a), 2)): a for a in args.values()}
                for i, a in args.items():
                    h = dbl.get(cf[i])
                    if h is not None:
                        add(("dbl", i), core.F_cos(a) == 1 - 2 * core.F_sin(h) * core.F_sin(h), core.F_sin(a) == 2 * core.F_sin(h) * core.F_cos(h))
            except (C.TooBig, ZeroDivisionError):
                pass
        ex = list(apps.get("exp", {}).values())
        for x in ex:
            add(("exp", x.get_id()), x > 0, x >= 1 + x.arg(0), z3.Implies(x.arg(0) <= 0, x <= 1), z3.Implies(x.arg(0) < 0, x < 1))
        for i in range(len(ex)):
            for j in range(len(ex)):
                if i != j and len(ex) <= 8:
                    add(("expm", ex[i].get_id(), ex[j].get_id()),
                        z3.Implies(ex[i].arg(0) < ex[j].arg(0), ex[i] < ex[j]), z3.Implies(ex[i].arg(0) == ex[j].arg(0), ex[i] == ex[j]))
        sq = list(apps.get("sqrt", {}).values())
        for x in sq:
            a = x.arg(0)
            add(("sqrt", x.get_id()), z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)), z3.Implies(a > 0, x > 0), z3.Implies(a == 0, x == 0))
            add(("sqrt1", x.get_id()), z3.Implies(z3.And(a >= 0, a <= 1), x <= 1), z3.Implies(a >= 1, x >= 1))
        for i in range(len(sq)):
            for j in range(len(sq)):
                if i != j and len(sq) <= 8:
                    a, b = sq[i].arg(0), sq[j].arg(0)
                    add(("sqrtm", sq[i].get_id(), sq[j].get_id()), z3.Implies(z3.And(0 <= a, a <= b), sq[i] <= sq[j]),
                        z3.Implies(z3.And(0 <= a, a < b), sq[i] < sq[j]))
        at = list(apps.get("atan", {}).values())
        for x in at:
            a = x.arg(0)
            add(("atan", x.get_id()), x > -core.PI / 2, x < core.PI / 2, z3.Implies(a > 0, x > 0), z3.Implies(a < 0, x < 0), z3.Implies(a == 0, x == 0))
        for i in range(len(at)):
            for j in range(len(at)):
                if i != j and len(at) <= 6:
                    add(("atanm", at[i].get_id(), at[j].get_id()), z3.Implies(at[i].arg(0) < at[j].arg(0), at[i] < at[j]))
        for x in apps.get("atan2", {}).values():
            add(("atan2", x.get_id()), x <= core.PI, x >= -core.PI)
        for x in apps.get("acos", {}).values():
            add(("acos", x.get_id()), x <= core.PI, x >= 0)
        for x in apps.get("asin", {}).values():
            add(("asin", x.get_id()), x <= core.PI / 2, x >= -core.PI / 2)
        rn = list(apps.get("rnd", {}).values())
        for x in rn:
            a, n = x.children()
            if z3.is_int_value(n) and 0 <= n.as_long() <= 12:
                u = z3.RealVal("1/%d" % (2 * 10 ** n.as_long()))
                sc = z3.RealVal(10 ** n.as_long())
                add(("rnd", x.get_id()), x - a <= u, a - x <= u, x * sc == z3.ToReal(z3.ToInt(x * sc)))
                for v in (0, 1):
                    add(("rndv", x.get_id(), v), z3.Implies(a <= v, x <= v), z3.Implies(a >= v, x >= v))
        for i in range(len(rn)):
            for j in range(len(rn)):
                if i != j and len(rn) <= 6 and rn[i].arg(1).eq(rn[j].arg(1)):
                    add(("rndm", rn[i].get_id(), rn[j].get_id()), z3.Implies(rn[i].arg(0) <= rn[j].arg(0), rn[i] <= rn[j]))
        for n, xs in apps.items():
            if n.startswith("SUM_"):
                for x in xs.values():
                    lo, hi = x.arg(0), x.arg(1)
                    add((n, x.get_id()), z3.Implies(hi <= lo, x == 0))
                    d = C.SUMS[n]
                    sgn = sum_sign(d["body"])
                    if sgn == "nonneg":
                        add((n, x.get_id(), "nn"), x >= 0)
                    # one step from the end, if the shorter sum also occurs (or on request)
                    for y in xs.values():
                        if y.get_id() != x.get_id() and all(p.eq(q) for p, q in zip(x.children()[2:], y.children()[2:])) and y.arg(0).eq(lo):
                            dlt = z3.simplify(hi - y.arg(1))
                            if z3.is_int_value(dlt) and 1 <= dlt.as_long() <= 4:
                                s = y
                                for q in range(dlt.as_long()):
                                    s = s + C.sum_body(x, y.arg(1) + q)
                                add((n, x.get_id(), y.get_id()), z3.Implies(y.arg(1) >= lo, x == s))
                    if big:
                        add((n, x.get_id(), "last"), z3.Implies(hi > lo, x == x.decl()(lo, hi - 1, *x.children()[2:]) + C.sum_body(x, hi - 1)))
        if not new:
            break
        out += new
        ts = ts + new
    return out


def is_half_atan(a):
    """a is (1/2)*atan(..) up to sign"""
    try:
        p = C.canon(a)
    except Exception:
        return False
    if len(p) != 1:
        return False
    (m, c), = p.items()
    return abs(c) <= 1 and len(m) == 1 and m[0][1] == 1 and C.ATOMS[m[0][0]][0][:2] == ("f", "atan")


def sum_sign(b):
    """syntactic sign of the body of a sum"""
    try:
        p = C.canon(b)
    except Exception:
        return None
    for m, c in p.items():
        if c < 0:
            return None
        for a, e in m:
            k = C.ATOMS[a][0]
            if e % 2 == 0:
                continue
            if k[0] == "f" and k[1] in ("sqrt", "abs", "exp"):
                continue
            return None
    return "nonneg"


# ------------------------------------------------------------------- back ends
def norm_atoms(t, memo=None):
    """rewrite arithmetic atoms into canonical polynomials"""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i][0]
    if z3.is_quantifier(t):
        r = t
    elif z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and t.arg(0).sort() == R:
        try:
            p = C.padd(C.canon(t.arg(0)), C.canon(t.arg(1)), -1)
            z = C.to_z3(p)
            if z.sort() == I:
                z = z3.ToReal(z)
            o = {z3.Z3_OP_LE: lambda: z <= 0, z3.Z3_OP_GE: lambda: z >= 0, z3.Z3_OP_LT: lambda: z < 0,
                 z3.Z3_OP_GT: lambda: z > 0, z3.Z3_OP_EQ: lambda: z == 0}[t.decl().kind()]
            r = o()
        except (C.TooBig, ZeroDivisionError):
            r = t
    elif z3.is_app(t) and t.num_args() and t.sort() == z3.BoolSort():
        ch = [norm_atoms(c, memo) if c.sort() == z3.BoolSort() else c for c in t.children()]
        r = t.decl()(*ch) if not (z3.is_and(t) or z3.is_or(t)) else (z3.And(*ch) if z3.is_and(t) else z3.Or(*ch))
    else:
        r = t
    memo[i] = (r, t)
    return r


def z3check(facts, ms, tactic=None):
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set("timeout", int(ms))
    try:
        s.set("random_seed", 7)
    except z3.Z3Exception:
        pass
    for f in facts:
        s.add(f)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        if "timeout" in str(e).lower() or "canceled" in str(e).lower():
            return z3.unknown, None
        return z3.unknown, None
    return r, s


def purify(facts):
    """replace applications of uninterpreted functions and floors by constants (sound for unsat)"""
    m = {}
    keep = []

    def rec(t, memo):
        i = t.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(t):
            raise ValueError
        if z3.is_app(t) and ((t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args()) or t.decl().kind() in (z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL, z3.Z3_OP_IDIV, z3.Z3_OP_MOD)):
            k = t.sexpr()
            if k not in m:
                m[k] = fresh(t.sort(), "pu")
            r = m[k]
        elif z3.is_app(t) and t.num_args():
            ch = [rec(c, memo) for c in t.children()]
            r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)]) if any(not a.eq(b) for a, b in zip(t.children(), ch)) else t
        else:
            r = t
        memo[i] = r
        keep.append(t)
        return r
    memo = {}
    return [rec(f, memo) for f in facts]


def cvc5check(facts, seconds):
    import subprocess, tempfile
    s = z3.Solver()
    for f in facts:
        s.add(f)
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % (seconds * 1000), name], capture_output=True, text=True, timeout=seconds + 5)
        return "unsat" in r.stdout.split()
    except Exception:
        return False
    finally:
        os.unlink(name)


def relevant(hyps, g, depth):
    """hypotheses connected to the goal through shared symbols"""
    syms = set(symbols(g)) - COMMON
    chosen = []
    rest = [h for h in hyps]
    for _ in range(depth):
        add = [h for h in rest if (symbols(h) - COMMON) & syms or not (symbols(h) - COMMON)]
        if not add:
            break
        chosen += add
        ids = {h.get_id() for h in add}
        rest = [h for h in rest if h.get_id() not in ids]
        for h in add:
            syms |= symbols(h) - COMMON
    return chosen


COMMON = {"PI", "sin", "cos", "exp", "sqrt", "atan", "log", "rnd"}


def prove_smt(hyps, g, tac, t_end):
    """Z3 with the quantified hypotheses, instances by their triggers"""
    info = ""
    qf = [h for h in hyps if not has_quant(h)]
    plans = [(qf, 500)] if len(qf) < len(hyps) and not has_quant(g) else []
    plans += [(hyps, tac.get("ms", 10000)), (hyps, 2 * tac.get("ms", 10000))]
    for k, (hs, ms) in enumerate(plans):
        left = t_end - time.time()
        if left <= 0.2:
            return "unknown", "", "time budget exhausted"
        s = z3.Solver()
        s.set("timeout", int(min(ms, left * 1000)))
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
        s.set("smt.solve_eqs", False)
        if k == 2:
            s.set("smt.random_seed", 7)
            s.set("smt.case_split", 3)
        for h in hs:
            s.add(h)
        s.add(Not(g))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", ""
        info = "z3: %s" % (r if r == z3.sat else s.reason_unknown())
        if r == z3.sat and k == len(plans) - 1 or (r == z3.sat and hs is hyps):
            return "refuted", "", "z3: a model"
        if hs is hyps and "incomplete" in info:
            return "unknown", "", info
    return "unknown", "", info


def prove1(hyps, g, tac, t_end, depth=0):
    """(status, backend, info)"""
    g = g if not z3.is_true(g) else g
    gs = z3.simplify(g)
    if z3.is_true(gs):
        return "proved", "simplifier", ""
    for h in hyps:
        if h.eq(g) or simplified(h).eq(gs):
            return "proved", "hypothesis", ""
    if any(z3.is_false(simplified(h)) for h in hyps):
        return "proved", "simplifier", "contradictory path"
    if tac.get("smt"):
        return prove_smt(hyps, g, tac, t_end)
    canon_ok = tac.get("canon", True)
    if canon_ok and z3.is_eq(g) and g.arg(0).sort() in (R, I):
        try:
            d = C.padd(C.canon(g.arg(0)), C.canon(g.arg(1)), -1)
            if C.is_zero(d):
                return "proved", "canonical form", ""
            # equations proved earlier (they are hypotheses here) used as rewriting rules
            if tac.get("rw") and C.is_zero(rewrite(d, tac["rw"], hyps)):
                return "proved", "canonical form", ""
        except (C.TooBig, ZeroDivisionError, RecursionError):
            pass
    if tac.get("only"):
        ids = {h.get_id() for h in hyps}
        use = [x for x in tac["only"] if any(h.eq(x) for h in hyps)]
        ts = use + [g]
        gen = list(tac.get("gen", []))
        for i in range(len(gen)):
            pr = (gen[i], fresh(gen[i].sort(), "gen"))
            ts = [z3.substitute(t, pr) for t in ts]
            gen[i + 1:] = [z3.substitute(t, pr) for t in gen[i + 1:]]
        r, s = z3check(ts[:-1] + [Not(ts[-1])], tac.get("ms", 4000))
        if r == z3.unsat:
            return "proved", "z3", ""
    smt_first = tac.get("smt_first", False)
    qf = [h for h in hyps if not has_quant(h)]
    # case analysis on the conditions inside an equation
    if canon_ok and not smt_first and depth < tac.get("cases", 8) and (tac.get("rw") or z3.is_eq(g) and g.arg(0).sort() == R):
        c = find_ite(g)
        if c is not None:
            rs = []
            for v in (True, False):
                lit = c if v else Not(c)
                if infeasible(qf, lit):
                    continue
                g2 = z3.simplify(z3.substitute(g, (c, z3.BoolVal(v))), som=False, arith_lhs=False) if False else z3.substitute(g, (c, z3.BoolVal(v)))
                g2 = drop_ite(g2)
                h2 = hyps + [lit]
                # equalities to a constant are used as substitutions
                if v and z3.is_eq(c) and c.arg(0).sort() in (R, I):
                    a, b = c.children()
                    if z3.is_const(b) and not z3.is_const(a):
                        a, b = b, a
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and not C.occurs(b, a):
                        g2 = z3.substitute(g2, (a, b))
                st = prove1(h2, g2, tac, t_end, depth + 1)
                if st[0] != "proved":
                    return st
                rs.append(st[1])
            return "proved", "+".join(sorted(set("+".join(rs).split("+")) | {"cases"})) if rs else "z3", ""
    if tac.get("rw"):
        try:
            g = rewrite_goal(g, tac["rw"], hyps)
        except (C.TooBig, ZeroDivisionError, RecursionError):
            pass
    ng = Not(g)
    left = t_end - time.time()
    if left <= 0:
        return "unknown", "", "time budget exhausted"
    T = tac.get("ms", 4000)
    tried = []
    lem = tac.get("lemmas", [])
    base = qf + lem
    ax = axioms(base + [ng], big=tac.get("sum_last", False))
    try:
        if z3check(purify([ng]), 300)[0] == z3.unsat:
            return "proved", "z3", ""
    except (ValueError, z3.Z3Exception):
        pass
    plans = []
    rel = relevant(qf, g, tac.get("depth", 6))
    if len(rel) < len(qf):
        plans.append(("z3", rel + lem + [ng] + axioms(rel + lem + [ng], big=tac.get("sum_last", False)), T / 2))
    plans.append(("z3", base + ax + [ng], T))
    if any(has_quant(h) for h in hyps):
        ax2 = axioms(hyps + lem + [ng])
        relq = relevant(hyps, g, 2)
        plans.append(("z3", relq + lem + [ng] + ax2, T))
        plans.append(("z3", hyps + lem + ax2 + [ng], T * 2))
    model = None
    for nm, facts, ms in plans:
        ms = min(ms, max(200, 1000 * (t_end - time.time())))
        r, s = z3check(facts, ms)
        if r == z3.unsat:
            return "proved", nm, ""
        if r == z3.sat and model is None:
            try:
                model = str(s.model())[:1500]
            except Exception:
                model = "sat"
        tried.append("%s:%s" % (nm, r))
    # polynomial arithmetic: normalised atoms, functions as constants
    if tac.get("nl", True):
        for facts0 in ((rel + lem, ) if len(rel) == len(qf) else (rel + lem, base)):
            try:
                memo = {}
                fs = [norm_atoms(f, memo) for f in facts0 + [ng]]
                fs = fs + [norm_atoms(f, memo) for f in axioms(fs)]
                pf = purify(fs)
                ms = min(T * 2, max(200, 1000 * (t_end - time.time())))
                r, s = z3check(pf, ms, z3.Then("simplify", "solve-eqs", "qfnra-nlsat") if not has_int(pf) else None)
                if r == z3.unsat:
                    return "proved", "z3 nlsat", ""
                tried.append("nlsat:%s" % r)
                r, s = z3check(pf, ms)
                if r == z3.unsat:
                    return "proved", "z3", ""
            except (ValueError, C.TooBig, ZeroDivisionError, z3.Z3Exception) as e:
                tried.append("nlsat:%s" % type(e).__name__)
    if tac.get("cvc5", True):
        for nm, facts, ms in plans[-2:]:
            left = t_end - time.time()
            if left < 1:
                break
            if cvc5check(facts, int(min(max(2, T / 1000), left))):
                return "proved", "cvc5", ""
            tried.append("cvc5:no")
    return "unknown", "", "%s%s" % ("; ".join(tried), (" candidate counter-model: " + model) if model else "")


def infeasible(qf, lit):
    sy = symbols(lit)
    near = [h for h in qf if symbols(h) <= sy]
    if near and z3check(near + [lit], 200)[0] == z3.unsat:
        return True
    try:
        pf = purify(near + [lit])
        if z3check(pf, 200)[0] == z3.unsat:
            return True
    except (ValueError, z3.Z3Exception):
        pass
    return z3check(qf + [lit], 400)[0] == z3.unsat


def rewrite(d, rules, hyps):
    ids = {h.get_id() for h in hyps}
    for l, r in rules:
        e = (l == r)
        if not any(h.eq(e) for h in hyps):
            raise C.TooBig()          # not a hypothesis: refuse to use it
        z = C.to_z3(C.clear_den(d) if False else d)
        lp = C.canon(l)
        if len(lp) == 1 and len(next(iter(lp))) == 1 and next(iter(lp))[0][1] == 1:
            (m, c), = lp.items()
            lz = C.to_z3({m: 1})
            r = r / z3.RealVal("%d/%d" % (c.numerator, c.denominator))
        else:
            lz = C.to_z3(lp)
        d = C.canon(z3.substitute(z, (lz, r)))
    return d


def rewrite_goal(g, rules, hyps):
    if z3.is_not(g) or z3.is_and(g) or z3.is_or(g):
        ch = [rewrite_goal(c, rules, hyps) for c in g.children()]
        return Not(ch[0]) if z3.is_not(g) else z3.And(*ch) if z3.is_and(g) else z3.Or(*ch)
    ops = {z3.Z3_OP_LE: lambda z: z <= 0, z3.Z3_OP_GE: lambda z: z >= 0, z3.Z3_OP_LT: lambda z: z < 0, z3.Z3_OP_GT: lambda z: z > 0, z3.Z3_OP_EQ: lambda z: z == 0}
    if z3.is_app(g) and g.decl().kind() in ops and g.arg(0).sort() == R:
        d = rewrite(C.padd(C.canon(g.arg(0)), C.canon(g.arg(1)), -1), rules, hyps)
        return ops[g.decl().kind()](C.to_z3(d))
    return g


def has_int(ts):
    return any(z3.is_app(x) and x.sort() == I and not z3.is_int_value(x) for x in subterms(ts))


def drop_ite(t):
    """remove if(true,..) / if(false,..) only"""
    memo = {}

    def rec(t):
        i = t.get_id()
        if i in memo:
            return memo[i][0]
        if z3.is_quantifier(t) or not t.num_args():
            r = t
        else:
            ch = [rec(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_ITE and z3.is_true(ch[0]):
                r = ch[1]
            elif t.decl().kind() == z3.Z3_OP_ITE and z3.is_false(ch[0]):
                r = ch[2]
            elif all(a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            else:
                pr = [(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)]
                k = t.decl().kind()
                r = (z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else z3.Sum(*ch) if k == z3.Z3_OP_ADD
                     else z3.Product(*ch) if k == z3.Z3_OP_MUL else z3.substitute(t, *pr))
        memo[i] = (r, t)
        return r
    return rec(t)


def discharge(o, budget=60):
    t0 = time.time()
    tac = o.tac or {}
    t_end = t0 + tac.get("budget", budget)
    back = set()
    try:
        parts = split(o.goal, [])
        for extra, g in parts:
            st, be, info = prove1(list(o.hyps) + extra, g, tac, t_end)
            if st != "proved":
                return st, be, info + "  goal: " + z3.simplify(g).sexpr()[:600], time.time() - t0
            back.add(be)
        return "proved", "+".join(sorted(back)) or "simplifier", "", time.time() - t0
    except Exception as e:
        return "unknown", "", "prover error: " + traceback.format_exc()[-600:], time.time() - t0


def tackey(t):
    def k(v):
        if isinstance(v, (list, tuple)):
            return tuple(k(x) for x in v)
        return v.get_id() if z3.is_expr(v) else v
    return tuple(sorted((n, k(v)) for n, v in (t or {}).items()))


MANY = 24


def discharge_all(obls, workers=4, budget=60, total=600):
    """fork workers; each takes every workers-th open obligation"""
    todo = [o for o in obls if o.status is None]
    if not todo:
        return
    t_end = time.time() + total
    # identical obligations (same hypotheses and goal) are discharged once
    groups = {}
    for o in todo:
        key = (tuple(h.get_id() for h in o.hyps), o.goal.get_id(), tackey(o.tac))
        groups.setdefault(key, []).append(o)
    reps = [g[0] for g in groups.values()]
    for o in reps:              # before the fork: the workers share them
        for h in o.hyps:
            has_quant(h)
            simplified(h)
    pipes = []
    tr, tw = os.pipe()
    workers = max(1, min(workers, len(reps)))
    failed = mmap.mmap(-1, workers)              # how many each worker failed to discharge
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.close(tw)
            signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(Timeout()))
            out = os.fdopen(wr, "w")
            try:
                while True:
                    tok = os.read(tr, 8)
                    if len(tok) < 8:
                        break
                    i = int(tok)
                    left = t_end - time.time()
                    if sum(failed[:]) >= MANY:
                        res = ("unknown", "", "not tried: %d other obligations were not discharged" % MANY, 0)
                    elif left < 1:
                        res = ("unknown", "", "total time budget exhausted", 0)
                    else:
                        b = min(budget, left)
                        signal.alarm(int(b + 30))
                        try:
                            res = discharge(reps[i], b)
                        except Timeout:
                            res = ("unknown", "", "timeout", b)
                        signal.alarm(0)
                        if res[0] != "proved":
                            failed[w] = min(255, failed[w] + 1)
                    out.write(json.dumps([i] + list(res)) + "\n")
                    out.flush()
            finally:
                out.flush()
                os._exit(0)
        os.close(wr)
        pipes.append((pid, os.fdopen(r)))
    os.close(tr)

    def feed():
        try:
            for i in range(len(reps)):
                os.write(tw, b"%08d" % i)
        except OSError:
            pass
        os.close(tw)
    threading.Thread(target=feed, daemon=True).start()
    res = {}
    for pid, f in pipes:
        for line in f:
            d = json.loads(line)
            res[d[0]] = d[1:]
        os.waitpid(pid, 0)
    for i, g in enumerate(groups.values()):
        st, be, info, t = res.get(i, ("unknown", "", "worker ended", 0))
        for j, o in enumerate(g):
            o.status, o.backend, o.info = st, be, info
            o.time = t if j == 0 else 0.0
