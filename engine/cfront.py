"""C front end: the functions of trackeddy/src/cntr.c, as clang parses them, executed over symbolic values.

Every run asks clang for the syntax tree of the file in /repo (with the include directories the build uses) and interprets the
bodies of its functions on one path at a time; a function called is executed in place unless the contract replaces it by its own contract.
Integers are mathematical; an address of the grid is a + b * imax, kept as the pair (a, b); flags are 16 Booleans; doubles are reals that may be undefined (NaN)."""
import json
import os
import subprocess
from fractions import Fraction
import z3
from . import core
from .core import ENG, S, SB, Unsupported, term, And, Or, Not, TRUE, FALSE, I, R, is_num

Edge = z3.Datatype("Edge")
Edge.declare("edge", ("q", z3.BoolSort()), ("i", I), ("j", I))
Edge = Edge.create()
B = z3.BoolSort()
SETB = z3.ArraySort(Edge, B)
X = z3.Int("imax")
FALSE_, TRUE_ = z3.BoolVal(False), z3.BoolVal(True)


def know(c):
    """a quantified fact: used by the proofs, not when a branch is decided"""
    if not z3.is_true(c):
        ENG.hyps.append(c)


def mk(q, i, j):
    return Edge.edge(q if z3.is_expr(q) else z3.BoolVal(bool(q)), term(i), term(j))


# ------------------------------------------------------------------ values
class P2:
    """the integer a + b * imax; dir: one of +-1, +-imax"""
    __slots__ = ("a", "b", "dir")

    def __init__(s, a, b, dir=False):
        s.a, s.b, s.dir = a, b, dir

    def __repr__(s):
        return "P2(%s, %s)" % (s.a, s.b)


IMAX = P2(0, 1, True)


class Bits:
    """an integer of which only the bits matter"""
    __slots__ = ("b",)

    def __init__(s, b):
        s.b = list(b)

    def __repr__(s):
        return "Bits(%s)" % ",".join(str(x) for x in s.b)


class Poison:
    def __init__(s, name):
        s.name = name


class Null:
    def __repr__(s):
        return "NULL"


NULL = Null()


class Sizeof(int):
    ty = None


class Bytes:
    def __init__(s, n, ty):
        s.n, s.ty = n, ty


class Raw:
    """memory from malloc, before it gets its type"""

    def __init__(s, bytes):
        s.bytes = bytes


class Ptr:
    __slots__ = ("blk", "off")

    def __init__(s, blk, off=0):
        s.blk, s.off = blk, off

    def __repr__(s):
        return "&%s[%r]" % (s.blk.name, s.off)


class Obj:
    """a struct, or an opaque object"""

    def __init__(s, name, **f):
        s.name, s.f = name, dict(f)

    def __repr__(s):
        return "object " + s.name

    def get(s, k):
        if k not in s.f:
            raise Unsupported("field %s of %s" % (k, s.name))
        v = s.f[k]
        if isinstance(v, Poison):
            raise Unsupported("field %s of %s is not determined here" % (k, s.name))
        return v

    def set(s, k, v):
        s.f[k] = v


class Method:
    """a function in a field of a struct, by its contract"""

    def __init__(s, f):
        s.f = f


class Opaque:
    """a value of which only comparisons matter (a double that may be anything)"""

    def arith(s, op, o):
        raise Unsupported("arithmetic")

    def compare(s, op, o):
        raise Unsupported("comparison")


def num(v):
    if isinstance(v, Poison):
        raise Unsupported("the variable %s is not determined here" % v.name)
    if isinstance(v, SB):
        return v._n()
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Bits):
        if all(isinstance(x, bool) for x in v.b):
            return sum(1 << k for k, x in enumerate(v.b) if x)
        raise Unsupported("flags used as a number")
    return v


def pair(v):
    v = num(v)
    if isinstance(v, P2):
        return v.a, v.b
    return v, 0


def simp(x):
    if isinstance(x, S):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        return S(t, x.ok)
    return x


def mkp(a, b, dir=False):
    a, b = simp(a), simp(b)
    if not dir and isinstance(b, int) and b == 0:
        return a
    return P2(a, b, dir or isdir(a, b))


def isdir(a, b):
    return isinstance(a, int) and isinstance(b, int) and (abs(a), abs(b)) in ((0, 1), (1, 0))


def asdir(v):
    v = num(v)
    if isinstance(v, P2):
        return v if v.dir else None
    if isinstance(v, int) and abs(v) == 1:
        return P2(v, 0, True)
    return None


def neg(v):
    v = num(v)
    if isinstance(v, P2):
        return mkp(-v.a, -v.b, v.dir)
    return -v


def add(x, y, sign=1):
    x, y = num(x), num(y)
    if isinstance(x, P2) or isinstance(y, P2):
        (a, b), (c, d) = pair(x), pair(y)
        return mkp(a + c, b + d) if sign > 0 else mkp(a - c, b - d)
    return simp(x + y if sign > 0 else x - y)


def mul(x, y):
    if isinstance(x, Sizeof) and isinstance(y, Sizeof):
        raise Unsupported("product of sizes")
    if isinstance(x, Sizeof):
        x, y = y, x
    if isinstance(y, Sizeof):
        return Bytes(x, y.ty)
    x, y = num(x), num(y)
    if isinstance(y, P2) and not isinstance(x, P2):
        x, y = y, x
    if isinstance(x, P2):
        (a, b), (c, d) = pair(x), pair(y)
        if isinstance(b, int) and b == 0:
            return mkp(lin(a, c), lin(a, d))
        if isinstance(d, int) and d == 0:
            return mkp(lin(a, c), lin(b, c))
        raise Unsupported("product of two addresses")
    return simp(lin(x, y))


def lin(x, y):
    if isinstance(x, S) and isinstance(y, S) and x.isint and y.isint:
        raise Unsupported("product of two integers")
    return x * y


def canon(v, top=None):
    """(a, b) with 0 <= a < imax, forking where the address wraps"""
    a, b = pair(v)
    for _ in range(3):
        if isinstance(a, int) and a in (0, 1):
            return a, b
        if ENG.decide(term(a) < 0):
            a, b = simp(S(term(a) + X)), simp(b - 1)
        elif ENG.decide(term(a) >= X):
            a, b = simp(S(term(a) - X)), simp(b + 1)
        else:
            return a, b
    raise Unsupported("an address that is not next to the grid")


def compare(op, x, y):
    """the formula x op y"""
    if isinstance(x, Opaque):
        return x.compare(op, y)
    if isinstance(y, Opaque):
        return y.compare({"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), x)
    if isinstance(x, (Ptr, Null, Obj, Raw)) or isinstance(y, (Ptr, Null, Obj, Raw)):
        if isinstance(x, int) or isinstance(y, int):
            x, y = (NULL if isinstance(v, int) and v == 0 else v for v in (x, y))
        if op not in ("==", "!="):
            raise Unsupported("comparison of pointers")
        if isinstance(x, Null) or isinstance(y, Null):
            r = isinstance(x, Null) and isinstance(y, Null)
        elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.blk is y.blk:
            return compare(op, x.off, y.off)
        else:
            r = x is y
        return z3.BoolVal(r == (op == "=="))
    if isinstance(x, Bits) or isinstance(y, Bits):
        if op in ("<", "<=", ">", ">="):
            # flags of few bits as numbers
            x, y = small(x), small(y)
        else:
            x, y = bits(x), bits(y)
            n = max(len(x.b), len(y.b))
            e = And(*[bb(p) == bb(q) if z3.is_expr(p) or z3.is_expr(q) else z3.BoolVal(p == q) for p, q in zip(pad(x, n), pad(y, n))])
            return e if op == "==" else Not(e)
    if isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)) and op in ("==", "!="):
        e = core.bterm(x) == core.bterm(y)
        return e if op == "==" else Not(e)
    x, y = num(x), num(y)
    if isinstance(x, P2) or isinstance(y, P2):
        dx, dy = asdir(x), asdir(y)
        if dx is not None and dy is not None and op in ("==", "!="):
            e = And(term(dx.a) == term(dy.a), term(dx.b) == term(dy.b))
            return e if op == "==" else Not(e)
        if dy is not None and not isinstance(dy.b, int):
            dx, dy, x, y = dy, dx, y, x
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if dx is not None and isinstance(dx.b, int) and isinstance(dx.a, int) and dx.b and isinstance(y, int) and abs(y) <= 1:
            return z3.BoolVal({"==": False, "!=": True, "<": dx.b < 0, "<=": dx.b < 0, ">": dx.b > 0, ">=": dx.b > 0}[op])      # imax >= 2
        if dx is not None and not (isinstance(dx.a, int) and isinstance(dx.b, int)) and isinstance(y, int) and abs(y) <= 1:
            la, lb = term(dx.a), term(dx.b)
            gt = {-1: Not(Or(la < 0, lb < 0)), 0: Or(la > 0, lb > 0), 1: lb > 0}
            eq = {-1: la < 0, 0: FALSE, 1: la > 0}[y]
            return {"==": eq, "!=": Not(eq), ">": gt[y], "<=": Not(gt[y]), ">=": Or(gt[y], eq), "<": Not(Or(gt[y], eq))}[op]
        (a, b), (c, d) = pair(x), pair(y)
        db = simp(b - d) if not (isinstance(b, int) and isinstance(d, int)) else b - d
        if isinstance(db, int):
            return rel(op, term(a) - term(c) + db * X, z3.IntVal(0))
        a, b = canon(x)
        c, d = canon(y)
        a, b, c, d = term(a), term(b), term(c), term(d)
        if op in ("==", "!="):
            e = And(a == c, b == d)
            return e if op == "==" else Not(e)
        lt = Or(b < d, And(b == d, a < c))
        gt = Or(b > d, And(b == d, a > c))
        return {"<": lt, ">": gt, "<=": Not(gt), ">=": Not(lt)}[op]
    if not isinstance(x, S) and not isinstance(y, S):
        return z3.BoolVal({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op])
    r = {"<": lambda: x < y, ">": lambda: x > y, "<=": lambda: x <= y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]()
    return core.bterm(r)


def rel(op, a, b):
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


def bb(x):
    return x if z3.is_expr(x) else z3.BoolVal(x)


def pad(v, n):
    return v.b + [False] * (n - len(v.b))


def bits(v):
    if isinstance(v, Bits):
        return v
    if isinstance(v, (SB, bool)):
        return Bits([core.bterm(v)])
    if isinstance(v, int):
        if v < 0:
            return Bits([bool((v >> k) & 1) for k in range(16)])
        return Bits([bool((v >> k) & 1) for k in range(max(1, v.bit_length()))])
    if isinstance(v, S):
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return bits(t.as_long())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            a, b = bits(S(a)), bits(S(b))
            n = max(len(a.b), len(b.b))
            return Bits([x if x is y else z3.simplify(z3.If(c, bb(x), bb(y))) for x, y in zip(pad(a, n), pad(b, n))])
    raise Unsupported("bits of a number")


def small(v):
    """the number of a few flags"""
    if not isinstance(v, Bits):
        return v
    if all(isinstance(x, bool) for x in v.b[2:]) and not any(v.b[2:]):
        return S(z3.Sum([z3.If(bb(x), z3.IntVal(1 << k), z3.IntVal(0)) for k, x in enumerate(v.b[:2])]))
    return num(v)


def bitop(op, x, y):
    if isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)):
        p, q = core.bterm(x), core.bterm(y)
        return SB({"&": And, "|": Or, "^": z3.Xor}[op](p, q))
    mask = not isinstance(x, Bits) and not isinstance(y, Bits) and isinstance(x, int) and isinstance(y, int)
    if mask:
        return {"&": x & y, "|": x | y, "^": x ^ y}[op]
    neg_ = [isinstance(v, int) and not isinstance(v, bool) and v < 0 for v in (x, y)]
    x, y = bits(x), bits(y)
    n = max(len(x.b), len(y.b))
    if op == "&" and not any(neg_):
        n = min(len(x.b), len(y.b))
    out = []
    for p, q in zip(pad(x, n), pad(y, n)):
        if isinstance(q, bool):
            p, q = q, p
        if isinstance(p, bool):
            if op == "&":
                out.append(q if p else False)
            elif op == "|":
                out.append(True if p else q)
            else:
                out.append((not q if isinstance(q, bool) else Not(q)) if p else q)
        else:
            out.append({"&": And, "|": Or, "^": z3.Xor}[op](p, q))
    return Bits(out)


def truth(v):
    """the formula v != 0"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SB):
        return v.t
    if isinstance(v, Bits):
        return Or(*[bb(x) for x in v.b])
    if isinstance(v, (Ptr, Obj, Raw)):
        return TRUE
    if isinstance(v, Null):
        return FALSE
    if v is None:
        raise Unsupported("the value of a function without one")
    return compare("!=", v, 0)


def merge(c, x, y):
    """c ? x : y without forking, or None"""
    if x is y:
        return x
    if isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)):
        return SB(z3.If(c, core.bterm(x), core.bterm(y)))
    try:
        x, y = num(x), num(y)
    except Unsupported:
        return None
    if isinstance(x, P2) or isinstance(y, P2):
        dx, dy = asdir(x), asdir(y)
        if dx is None or dy is None:
            return None
        return mkp(S(z3.If(c, term(dx.a), term(dy.a))), S(z3.If(c, term(dx.b), term(dy.b))), True)
    if isinstance(x, (int, S)) and isinstance(y, (int, S)):
        if isinstance(x, int) and isinstance(y, int) and x == y:
            return x
        if isinstance(x, int) and isinstance(y, int) and x == -y and abs(x) == 1:
            return P2(S(z3.If(c, z3.IntVal(x), z3.IntVal(y))), 0, True)      # a direction
        if (isinstance(x, S) and not x.isint) or (isinstance(y, S) and not y.isint):
            return None
        return S(z3.If(c, term(x), term(y)))
    return None


# ------------------------------------------------------------------ memory
class Grid:
    """an array over the grid; element a + b * imax.  kind: a list of flag names, or 'real' (never written)"""

    def __init__(s, name, size, kind):
        s.name, s.size, s.kind = name, size, kind
        s.hook = None           # facts about the element read
        s.on_store = None
        s.arr = {}
        s.seen = set()

    def at(s, idx):
        i, j = s.locate(idx)
        s.bounds(i, j)
        return i, j

    def locate(s, idx):
        return canon(idx)

    def bounds(s, i, j):
        a, b = pair(s.size)
        a, b = term(a), term(b)
        i, j = term(i), term(j)
        ENG.require(And(i >= 0, i < X, j >= 0, Or(j < b, And(j == b, i < a))), "access to %s inside the array" % s.name, tac=SMT, assume=False)

    def read(s, idx):
        i, j = s.at(idx)
        if s.hook and (str(i), str(j)) not in s.seen:
            s.seen.add((str(i), str(j)))
            s.hook(term(i), term(j))
        if not isinstance(s.kind, list):
            return s.kind(term(i), term(j))
        return Bits([s.flag(nm, q, i, j) if nm else False for nm, q in s.kind])

    def flag(s, nm, q, i, j):
        if callable(nm):
            return nm(term(i), term(j))
        return z3.simplify(z3.Select(s.arr[nm], mk(q, i, j)))

    def write(s, idx, v):
        i, j = s.at(idx)
        if not isinstance(s.kind, list):
            raise Unsupported("writes %s" % s.name)
        v = bits(v)
        if any(x is not False for x in v.b[len(s.kind):]):
            raise Unsupported("unknown flag of %s" % s.name)
        for (nm, q), x in zip(s.kind, pad(v, len(s.kind))):
            if not nm:
                if not (isinstance(x, bool) and not x):
                    raise Unsupported("unknown flag of %s" % s.name)
                continue
            e = mk(q, i, j)
            old = z3.simplify(bb(s.flag(nm, q, i, j)))
            x = z3.simplify(bb(x))
            if x.eq(old):
                continue
            if callable(nm):
                ENG.require(x == old, "the flags of %s that mark the grid stay as they are" % s.name, tac=SMT, assume=False)
                continue
            if s.on_store:
                s.on_store(nm, e, old, x)
            s.arr[nm] = z3.Store(s.arr[nm], e, x)

    def state(s):
        return {k: v.get_id() for k, v in s.arr.items()}

    def save(s):
        return dict(s.arr), set(s.seen)

    def load(s, x):
        s.arr, s.seen = dict(x[0]), set(x[1])

    def join(s, t, p, q):
        return {k: p[0][k] if p[0][k].eq(q[0][k]) else z3.If(t, p[0][k], q[0][k]) for k in p[0]}, p[1] & q[1]


class Line:
    """an array with one index"""

    def __init__(s, name, size, sort):
        s.name, s.size, s.sort = name, size, sort
        s.opaque = sort is None
        if s.opaque:
            sort = I
        s.arr = ENG.fresh(name, z3.ArraySort(I, sort))
        s.cells = {} if isinstance(size, int) and size <= 8 else None      # small arrays hold any value
        s.on_store = None
        s.on_read = None

    alive = True

    def bounds(s, i):
        if not s.alive:
            ENG.require(FALSE, "no access to %s after it is freed" % s.name, assume=False)
            raise core.PathEnd()
        if isinstance(i, P2) or isinstance(s.size, P2):
            ENG.require(And(compare(">=", i, 0), compare("<", i, s.size)), "access to %s inside the array" % s.name, tac=SMT, assume=False)
        else:
            ENG.require(And(term(i) >= 0, term(i) < term(s.size)), "access to %s inside the array" % s.name, tac=SMT, assume=False)

    def read(s, i):
        s.bounds(i)
        i = simp(num(i))
        if s.cells is not None and isinstance(i, int):
            if i not in s.cells:
                raise Unsupported("%s[%s] is read before it is written" % (s.name, i))
            return s.cells[i]
        if s.on_read:
            r = s.on_read(i)
            if r is not None:
                return r
        return S(z3.simplify(z3.Select(s.arr, term(i))))

    def write(s, i, v):
        s.bounds(i)
        i, v = simp(num(i)), v if isinstance(v, Opaque) else num(v)
        if s.cells is not None and isinstance(i, int):
            s.cells[i] = v
            return
        if s.on_store:
            r = s.on_store(i, v)
            if r is not None:
                v = r
        if s.opaque:
            return
        if isinstance(v, (float, Opaque)):
            raise Unsupported("value stored in %s" % s.name)
        t = core.real(v) if s.sort == R else term(v)
        s.arr = z3.Store(s.arr, term(i), t)

    def state(s):
        return {"": s.arr.get_id(), "cells": str(s.cells)}

    def save(s):
        return s.arr, None if s.cells is None else dict(s.cells)

    def load(s, x):
        s.arr, s.cells = x[0], None if x[1] is None else dict(x[1])

    def join(s, t, p, q):
        if p[1] is not None and (set(p[1]) != set(q[1]) or any(not same(p[1][k], q[1][k]) for k in p[1])):
            raise Unsupported("join")
        return p[0] if p[0].eq(q[0]) else z3.If(t, p[0], q[0]), p[1]


SMT = {"smt": True}


# ------------------------------------------------------------------ syntax
class Goto(Exception):
    def __init__(s, label):
        s.label = label


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(s, v):
        s.v = v


_trees = {}


def parse(path):
    """the functions of a C file: {name: FunctionDecl}, and the values of its enumerators"""
    key = (path, os.path.getmtime(path))
    if key in _trees:
        return _trees[key]
    inc = os.environ.get("VERIF_CFLAGS")
    if inc is None:
        py = "/opt/venv/bin/python"
        inc = subprocess.run([py, "-I", "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include'], numpy.get_include())"], capture_output=True, text=True).stdout.split()
    r = subprocess.run(["clang"] + ["-I" + d for d in inc] + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", path], capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("clang: " + r.stderr[:400])
    t = json.loads(r.stdout)
    fns, enums, globs = {}, {}, {}
    for d in t["inner"]:
        k = d.get("kind")
        if k == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", [])):
            fns[d["name"]] = d
        elif k == "EnumDecl":
            v = -1
            for c in d.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    v += 1
                    e = [x for x in c.get("inner", []) if x.get("kind") == "ConstantExpr"]
                    if e and "value" in e[0]:
                        v = int(e[0]["value"])
                    enums[c["id"]] = v
        elif k == "VarDecl":
            globs[d["id"]] = d
    _trees[key] = (fns, enums, globs)
    return _trees[key]


def kids(n):
    return [c for c in n.get("inner", []) if c]


LOOPS = ("ForStmt", "WhileStmt", "DoStmt")


class Fn:
    def __init__(s, d):
        s.name = d["name"]
        s.params = [c for c in kids(d) if c["kind"] == "ParmVarDecl"]
        s.body = [c for c in kids(d) if c["kind"] == "CompoundStmt"][0]
        s.loops = {}
        s.labels = {}
        s.order = [p["id"] for p in s.params]
        s.number(s.body)

    def number(s, n):
        if n.get("kind") == "VarDecl":
            s.order.append(n["id"])
        if n.get("kind") in LOOPS:
            s.loops[n["id"]] = len(s.loops)
        if n.get("kind") == "LabelStmt":
            s.labels[n.get("declId")] = n
        for c in kids(n):
            s.number(c)


def called(n):
    """the name of the function called by an expression"""
    if n.get("kind") != "CallExpr":
        return None
    g = kids(n)[0]
    while g["kind"] in ("ImplicitCastExpr", "ParenExpr"):
        g = kids(g)[0]
    return g["referencedDecl"]["name"] if g["kind"] == "DeclRefExpr" else None


def contains(n, label):
    if n.get("kind") == "LabelStmt" and n.get("declId") == label:
        return True
    return any(contains(c, label) for c in kids(n))


def pure(n):
    k = n.get("kind")
    if k in ("CallExpr", "ArraySubscriptExpr", "CompoundAssignOperator") or (k == "BinaryOperator" and n["opcode"] in ("=", "/", "%")) or \
            (k == "UnaryOperator" and n["opcode"] in ("++", "--", "*")):
        return False
    return all(pure(c) for c in kids(n))


def has_q(t):
    from .prove import has_quant
    return has_quant(t)


def simple(n):
    """no jump, no loop, no call: both outcomes can be executed and joined"""
    k = n.get("kind")
    if k in ("CallExpr", "GotoStmt", "LabelStmt", "BreakStmt", "ContinueStmt", "ReturnStmt", "SwitchStmt") or k in LOOPS:
        return False
    return all(simple(c) for c in kids(n))


def assigned(n, out=None):
    """names (by declaration) written in a statement"""
    out = {} if out is None else out
    k = n.get("kind")
    if (k == "BinaryOperator" and n["opcode"] == "=") or k == "CompoundAssignOperator" or (k == "UnaryOperator" and n["opcode"] in ("++", "--", "&")):
        t = kids(n)[0]
        while t.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            t = kids(t)[0]
        if t.get("kind") == "DeclRefExpr":
            out[t["referencedDecl"]["id"]] = t["referencedDecl"]["name"]
    for c in kids(n):
        assigned(c, out)
    return out


def contents(n, out=None):
    """names (by declaration) of what is written through in a statement: a[i] = ..., s.x = ..."""
    out = set() if out is None else out
    k = n.get("kind")
    if (k == "BinaryOperator" and n["opcode"] == "=") or k == "CompoundAssignOperator" or (k == "UnaryOperator" and n["opcode"] in ("++", "--", "&")):
        t = kids(n)[0]
        while t.get("kind") in ("ParenExpr", "ImplicitCastExpr", "ArraySubscriptExpr", "MemberExpr") or (t.get("kind") == "UnaryOperator" and t["opcode"] == "*"):
            t = kids(t)[0]
        if t.get("kind") == "DeclRefExpr":
            out.add(t["referencedDecl"]["id"])
    for c in kids(n):
        contents(c, out)
    return out


def declared(n, out=None):
    out = set() if out is None else out
    if n.get("kind") == "VarDecl":
        out.add(n["id"])
    for c in kids(n):
        declared(c, out)
    return out


class Var:
    def __init__(s, env, k, name):
        s.env, s.k, s.name = env, k, name

    def get(s):
        if s.k not in s.env:
            raise Unsupported("the variable %s is read before it is set" % s.name)
        v = s.env[s.k]
        if isinstance(v, Poison):
            raise Unsupported("the variable %s is not determined here" % s.name)
        return v

    def set(s, v):
        s.env[s.k] = v


class Elem:
    def __init__(s, p, i):
        s.p, s.i = p, i

    def get(s):
        return s.p.blk.read(add(s.p.off, s.i))

    def set(s, v):
        s.p.blk.write(add(s.p.off, s.i), v)


class Field:
    def __init__(s, o, k):
        s.o, s.k = o, k

    def get(s):
        return s.o.get(s.k)

    def set(s, v):
        s.o.set(s.k, v)


class Loop:
    """what the specification of a loop sees"""

    def __init__(s, c, fn, node, env, k):
        s.c, s.fn, s.node, s.env, s.k = c, fn, node, env, k
        inner = declared(node["inner"][-1] if node["kind"] != "DoStmt" else node)
        s.mods = {i: n for i, n in assigned(node).items() if i not in inner and i in env}
        s.entry = {i: env[i] for i in s.mods}
        s.unset = {i: n for i, n in assigned(node).items() if i not in inner and i not in env}
        s.frame = set()         # blocks and fields the loop may change
        s.data = {}

    def role(s, what, pred, name=None):
        """the variable changed by the loop whose value at the entry satisfies pred"""
        c = [i for i in s.mods if safe(pred, s.entry[i])]
        if len(c) > 1 and name:
            c = [i for i in c if s.mods[i] == name] or c
        if len(c) > 1:
            raise Unsupported("several variables may be %s in %s" % (what, s.fn.name))
        return c[0] if c else None

    def var(s, name, order=()):
        """the variable of this name; when it was renamed, the one declared at its place (order: the declarations of the function)"""
        for i, n in list(s.mods.items()) + list(s.unset.items()):
            if n == name:
                return i
        if name in order and len(order) == len(s.fn.order):
            i = s.fn.order[list(order).index(name)]
            if i in s.mods or i in s.unset:
                return i
        if len(s.mods) + len(s.unset) == 1:
            return list(s.mods or s.unset)[0]
        raise Unsupported("the variable %s of the loop of %s" % (name, s.fn.name))

    def get(s, i):
        v = s.env[i]
        if isinstance(v, Poison):
            raise Unsupported("the variable %s is not determined here" % v.name)
        return v


def safe(p, v):
    try:
        return p(v)
    except Exception:
        return False


class C:
    """one interpretation of the file"""

    def __init__(s, path):
        s.fns, s.enums, s.globs = parse(path)
        s.specs = {}            # (function, ordinal of the loop) -> specification
        s.stubs = {}            # function -> its contract
        s.externs = {}
        s.api = {}              # numpy's table: index -> model
        s.cache = {}
        s.frames = []           # (function with specifications, calls from there to here)
        s.numbers = {}
        s.blocks = []
        s.depth = 0
        s.used = set()

    def fn(s, name):
        if name not in s.cache:
            if name not in s.fns:
                raise Unsupported("there is no function %s" % name)
            s.cache[name] = Fn(s.fns[name])
        return s.cache[name]

    # ---------------------------------------------------------------- calls
    def ordinal(s, n):
        """the loops of a function with specifications and of its helpers, in the order of the text with the helpers in place of their calls"""
        root, path = s.frames[-1]
        if root not in s.numbers:
            s.numbers[root] = out = {}
            s.expand(s.fn(root).body, (), out, root, 0)
        return root, s.numbers[root].get((path, n["id"]))

    def expand(s, n, path, out, root, depth):
        if n.get("kind") in LOOPS:
            out[path, n["id"]] = len(out)
        for c in kids(n):
            s.expand(c, path, out, root, depth)
        name = called(n)
        if name in s.fns and name not in s.stubs and name not in s.externs and not s.specced(name) and depth < 4:
            s.expand(s.fn(name).body, path + (n["id"],), out, root, depth + 1)

    def specced(s, name):
        return any(k[0] == name for k in s.specs)

    def run(s, name, args, site=None):
        f = s.fn(name)
        if not s.frames or s.specced(name) or site is None:
            s.frames.append((name, ()))
        else:
            s.frames.append((s.frames[-1][0], s.frames[-1][1] + (site,)))
        s.used.add(name)
        if s.depth > 20:
            raise Unsupported("recursion in %s" % name)
        env = {}
        if len(args) != len(f.params):
            raise Unsupported("arguments of %s" % name)
        for p, a in zip(f.params, args):
            env[p["id"]] = a
        s.depth += 1
        try:
            s.stmt(f.body, env, f)
        except Return as r:
            return r.v
        finally:
            s.depth -= 1
            s.frames.pop()
        return None

    # ---------------------------------------------------------------- statements
    def stmt(s, n, env, f, label=None):
        """execute; label: start at this label inside the statement"""
        k = n["kind"]
        if k == "LabelStmt":
            if label == n.get("declId"):
                label = None
            return s.guard(kids(n)[0], env, f, label)
        if k == "CompoundStmt":
            body = kids(n)
            start = 0
            if label:
                start = [i for i, c in enumerate(body) if contains(c, label)][0]
            i = start
            while i < len(body):
                try:
                    s.guard(body[i], env, f, label)
                    label = None
                    i += 1
                except Goto as g:
                    hit = [j for j, c in enumerate(body) if contains(c, g.label)]
                    if not hit:
                        raise
                    i, label = hit[0], g.label
                    s.jumps = getattr(s, "jumps", 0) + 1
                    if s.jumps > 100000:
                        raise Unsupported("jumps")
            return
        if k == "IfStmt":
            c = kids(n)
            if label:
                for b in c[1:]:
                    if contains(b, label):
                        return s.stmt(b, env, f, label)
            t = z3.simplify(s.cond(c[0], env, f))
            if not z3.is_true(t) and not z3.is_false(t) and all(simple(b) for b in c[1:]) and s.merged(t, c[1:], env, f):
                return
            if ENG.decide(t):
                s.stmt(c[1], env, f)
            elif len(c) > 2:
                s.stmt(c[2], env, f)
            return
        if k in LOOPS:
            if label:
                raise Unsupported("jump into a loop")
            return s.loop(n, env, f)
        if k == "DeclStmt":
            for d in kids(n):
                if d["kind"] != "VarDecl":
                    continue
                s.declare(d, env, f)
            return
        if k == "ReturnStmt":
            c = kids(n)
            raise Return(s.rvalue(c[0], env, f) if c else None)
        if k == "BreakStmt":
            raise Break()
        if k == "ContinueStmt":
            raise Continue()
        if k == "GotoStmt":
            raise Goto(n["targetLabelDeclId"])
        if k == "NullStmt":
            return
        s.expr(n, env, f)

    # ---------------------------------------------------------------- both branches of an if, joined
    def snapshot(s, env):
        return (dict(env), [(b, b.save()) for b in s.blocks], [(o, dict(o.f)) for o in s.objs()])

    def restore(s, snap, env):
        env.clear()
        env.update(snap[0])
        for b, x in snap[1]:
            b.load(x)
        for o, x in snap[2]:
            o.f = dict(x)

    def merged(s, t, branches, env, f):
        """execute the branches of a simple if and join their states; False (and nothing done) where they cannot be joined"""
        if not ENG.feasible(t) or not ENG.feasible(Not(t)):
            return False
        start = s.snapshot(env)
        nh, no, seq, todo, dec = len(ENG.hyps), len(ENG.obls), ENG.seq, len(ENG.todo), len(ENG.dec)
        seen = dict(ENG.seen)
        outs = []
        facts = []

        def undo():
            s.restore(start, env)
            del ENG.hyps[nh:]
            del ENG.obls[no:]
            ENG.seen = seen
            ENG.seq = seq

        for k, c in enumerate((t, Not(t))):
            s.restore(start, env)
            ENG.solver.push()
            ENG.hyps.append(c)
            ENG.solver.add(c)
            h1 = len(ENG.hyps)
            try:
                if k < len(branches):
                    s.stmt(branches[k], env, f)
                if len(ENG.todo) != todo or not all(isinstance(d, tuple) for d in ENG.dec[dec:]):
                    raise Unsupported("a branch")
            except (Unsupported, core.PathEnd):
                ENG.solver.pop()
                del ENG.dec[dec:]
                del ENG.todo[todo:]
                undo()
                return False
            ENG.solver.pop()
            facts += [z3.Implies(c, h) for h in ENG.hyps[h1:]]
            del ENG.hyps[nh:]
            outs.append(s.snapshot(env))
        a, b = outs
        try:
            env1 = {}
            for k in set(a[0]) | set(b[0]):
                if k not in a[0] or k not in b[0]:
                    continue                    # set in one branch only: not determined
                env1[k] = s.join(t, a[0][k], b[0][k])
            blks = [(x, x.join(t, p, q)) for (x, p), (_, q) in zip(a[1], b[1])]
            objs = []
            for (o, p), (_, q) in zip(a[2], b[2]):
                objs.append((o, {k: s.join(t, p[k], q[k]) for k in p if k in q}))
        except Unsupported:
            undo()
            return False
        s.restore((env1, blks, objs), env)
        for h in facts:
            if has_q(h):
                know(h)
            else:
                ENG.assume(h)
        return True

    def join(s, t, a, b):
        if a is b or same(a, b):
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if isinstance(a, Bits) or isinstance(b, Bits):
            a, b = bits(a), bits(b)
            n = max(len(a.b), len(b.b))
            return Bits([x if x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y)) else z3.simplify(z3.If(t, bb(x), bb(y))) for x, y in zip(pad(a, n), pad(b, n))])
        if isinstance(a, (SB, bool)) or isinstance(b, (SB, bool)):
            if isinstance(a, int) and a in (0, 1):
                a = bool(a)
            if isinstance(b, int) and b in (0, 1):
                b = bool(b)
            if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
                return SB(z3.If(t, core.bterm(a), core.bterm(b)))
            raise Unsupported("join")
        r = merge(t, a, b)
        if r is None:
            raise Unsupported("join")
        return r

    def guard(s, n, env, f, label):
        if label is not None:
            return s.stmt(n, env, f, label)
        return s.stmt(n, env, f)

    def declare(s, d, env, f):
        ty = d["type"]["qualType"]
        ini = kids(d)
        if ty.endswith("]"):
            n = int(ty[ty.rindex("[") + 1:-1] or 0)
            b = Line(d["name"], n, R if "double" in ty else I)
            if ini and ini[0]["kind"] == "InitListExpr":
                for i, c in enumerate(kids(ini[0])):
                    b.cells[i] = s.rvalue(c, env, f)
            env[d["id"]] = Ptr(b, 0)
            s.arrays = s.arrays | {d["id"]}
            return
        env.pop(d["id"], None)
        if ini:
            env[d["id"]] = s.rvalue(ini[0], env, f)
        elif ty in s.structs:
            env[d["id"]] = Obj(d["name"])

    arrays = frozenset()
    structs = ("PyArray_Dims", "Csite", "struct Csite")

    def cond(s, n, env, f):
        return truth(s.rvalue(n, env, f))

    # ---------------------------------------------------------------- loops
    def loop(s, n, env, f):
        root, k = s.ordinal(n)
        c = n["inner"]
        if n["kind"] == "ForStmt":
            init, _, test, inc, body = c
            if init:
                s.stmt(init, env, f)
        elif n["kind"] == "WhileStmt":
            test, body = c[-2], c[-1]
            inc = None
        else:
            body, test = c[0], c[1]
            inc = None
            if (root, k) in s.specs:
                raise Unsupported("do-while loop in %s" % f.name)
        spec = s.specs.get((root, k))
        if callable(spec) and not isinstance(spec, type):
            spec = spec()
        if spec is None:
            first = n["kind"] == "DoStmt"
            for _ in range(200):
                if not first and test and not s.decided(test, env, f):
                    return
                first = False
                try:
                    s.stmt(body, env, f)
                except Break:
                    return
                except Continue:
                    pass
                if inc:
                    s.expr(inc, env, f)
            raise Unsupported("a loop of %s without an invariant" % f.name)
        L = Loop(s, f, n, env, k)
        spec.enter(L)                               # obligations: the invariant holds at the entry
        for i, nm in list(L.mods.items()) + list(L.unset.items()):
            if isinstance(env.get(i), Obj):
                env[i] = Obj(env[i].name)
            elif i in env and isinstance(env[i], Ptr) and i in s.arrays:
                pass
            else:
                env[i] = Poison(nm)
        for i in contents(n):
            v = env.get(i)
            if isinstance(v, Ptr) and i in s.arrays:        # a local array written in the loop
                b = v.blk
                b.arr = ENG.fresh(b.name, b.arr.sort())
                if b.cells is not None:
                    b.cells = {}
            elif isinstance(v, Obj) and v not in s.objs():
                env[i] = Obj(v.name)
        spec.havoc(L)                               # arbitrary state with the invariant
        before = [(b, b.state()) for b in s.blocks]
        objs = [(o, dict(o.f)) for o in s.objs()]
        if test and not ENG.decide(s.cond(test, env, f)):
            spec.exit(L)
            return
        spec.begin(L)
        try:
            s.stmt(body, env, f)
        except Break:
            spec.leave(L)
            return
        except Continue:
            pass
        if inc:
            s.expr(inc, env, f)
        for b, st in before:
            for nm, v in b.state().items():
                if v != st.get(nm) and (b.name, nm) not in L.frame and (b.name, None) not in L.frame:
                    raise Unsupported("the loop of %s changes %s %s" % (f.name, b.name, nm))
        for o, st in objs:
            for nm, v in o.f.items():
                if v is not st.get(nm) and not same(v, st.get(nm)) and (o.name, nm) not in L.frame:
                    raise Unsupported("the loop of %s changes %s.%s" % (f.name, o.name, nm))
        spec.end(L)                                 # obligations: the invariant holds again
        raise core.PathEnd()

    def decided(s, test, env, f):
        return ENG.decide(s.cond(test, env, f))

    def objs(s):
        return s.structs_alive

    structs_alive = ()

    # ---------------------------------------------------------------- expressions
    def lvalue(s, n, env, f):
        k = n["kind"]
        if k == "ParenExpr":
            return s.lvalue(kids(n)[0], env, f)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["id"] in env:
                return Var(env, d["id"], d["name"])
            if d["kind"] == "EnumConstantDecl":
                raise Unsupported("assignment to an enumerator")
            if d["id"] in s.globs:
                return Var({0: Obj(d["name"])}, 0, d["name"])
            return Var(env, d["id"], d["name"])
        if k == "ArraySubscriptExpr":
            p, i = kids(n)
            p, i = s.rvalue(p, env, f), s.rvalue(i, env, f)
            return s.elem(p, i)
        if k == "MemberExpr":
            o = kids(n)[0]
            o = s.rvalue(o, env, f) if n.get("isArrow") else s.lvalue(o, env, f).get()
            if isinstance(o, Null):
                raise Unsupported("field of NULL")
            if not isinstance(o, Obj):
                raise Unsupported("field %s of something else than a struct" % n.get("name"))
            return Field(o, n["name"])
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = s.rvalue(kids(n)[0], env, f)
            return s.elem(p, 0)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return s.lvalue(kids(n)[0], env, f)
        raise Unsupported("lvalue %s" % k)

    def elem(s, p, i):
        if isinstance(p, int) and p == 0:
            p = NULL
        if isinstance(p, Null):
            ENG.require(FALSE, "no access through NULL", assume=False)
            raise core.PathEnd()
        if isinstance(p, Obj):
            return Var({0: p}, 0, p.name)
        if not isinstance(p, Ptr):
            raise Unsupported("access through %r" % (p,))
        return Elem(p, i)

    def expr(s, n, env, f):
        return s.rvalue(n, env, f)

    def rvalue(s, n, env, f):
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr"):
            return s.rvalue(kids(n)[0], env, f)
        if k == "IntegerLiteral":
            return int(n["value"])
        if k == "FloatingLiteral":
            return Fraction(n["value"])
        if k == "CharacterLiteral":
            return int(n["value"])
        if k == "StringLiteral":
            return Obj("string", text=n["value"])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] == "EnumConstantDecl":
                return s.enums[d["id"]]
            if d["kind"] == "FunctionDecl":
                return Obj("function " + d["name"])
            return s.lvalue(n, env, f).get()
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return s.cast(n, env, f)
        if k in ("ArraySubscriptExpr", "MemberExpr"):
            return s.lvalue(n, env, f).get()
        if k == "UnaryOperator":
            return s.unary(n, env, f)
        if k == "BinaryOperator":
            return s.binary(n, env, f)
        if k == "CompoundAssignOperator":
            a, b = kids(n)
            l = s.lvalue(a, env, f)
            if isinstance(l, Var) and isinstance(env.get(l.k), Poison) and l.env is env:
                s.rvalue(b, env, f)
                return env[l.k]
            v = s.arith(n["opcode"][:-1], l.get(), s.rvalue(b, env, f), n)
            l.set(v)
            return v
        if k == "ConditionalOperator":
            c, a, b = kids(n)
            t = z3.simplify(s.cond(c, env, f))
            if z3.is_true(t) or z3.is_false(t):
                return s.rvalue(a if z3.is_true(t) else b, env, f)
            if pure(a) and pure(b):
                r = merge(t, s.rvalue(a, env, f), s.rvalue(b, env, f))
                if r is not None:
                    return r
            return s.rvalue(a if ENG.decide(t) else b, env, f)
        if k == "UnaryExprOrTypeTraitExpr":
            ty = n.get("argType", {}).get("qualType")
            if ty is None:
                ty = kids(n)[0]["type"]["qualType"]
            r = Sizeof(1)
            r.ty = ty
            return r
        if k == "CallExpr":
            return s.call(n, env, f)
        raise Unsupported("expression %s" % k)

    def cast(s, n, env, f):
        ck = n.get("castKind")
        c = kids(n)[0]
        if ck == "LValueToRValue":
            return s.lvalue(c, env, f).get()
        if ck == "ArrayToPointerDecay":
            if c["kind"] == "StringLiteral":
                return s.rvalue(c, env, f)
            return s.lvalue(c, env, f).get()
        if ck == "NullToPointer":
            return NULL
        if ck == "FloatingToIntegral":
            raise Unsupported("conversion of a double to an integer")
        if ck == "IntegralToFloating":
            v = s.rvalue(c, env, f)
            if isinstance(v, Opaque):
                return v
            v = num(v)
            if isinstance(v, P2):
                raise Unsupported("an address converted to double")
            return Fraction(v) if isinstance(v, int) else S(core.real(v), v.ok)
        if ck == "ToVoid":
            s.rvalue(c, env, f)
            return None
        v = s.rvalue(c, env, f)
        if isinstance(v, Raw) and ck == "BitCast":
            return s.typed(v, n["type"]["qualType"], n)
        return v

    def typed(s, raw, ty, n):
        ty = ty.replace("*", "").strip()
        b = raw.bytes
        if isinstance(b, Sizeof):
            if ty.split()[-1] != b.ty.split()[-1]:
                raise Unsupported("memory of one type used as another")
            o = Obj(ty)
            for x in getattr(s, "fields", {}).get(ty, ()):
                o.f[x] = Poison(x)
            s.new_objects.append(o)
            return o
        if not isinstance(b, Bytes):
            raise Unsupported("size of an allocation")
        size = {"Cdata": 2, "short": 2, "Saddle": 1, "char": 1, "double": 8, "long": 8, "int": 4}
        if ty not in size or size.get(b.ty) is None or size[b.ty] < size[ty]:
            raise Unsupported("memory of %s used as %s" % (b.ty, ty)) if ty not in size or b.ty not in size else Unsupported("allocation of %s for %s" % (b.ty, ty))
        return s.allocate(b.n, ty)

    new_objects = []

    def allocate(s, n, ty):
        if s.allocator is None:
            raise Unsupported("allocation")
        return s.allocator(n, ty)

    allocator = None

    def unary(s, n, env, f):
        op = n["opcode"]
        c = kids(n)[0]
        if op in ("++", "--"):
            l = s.lvalue(c, env, f)
            if isinstance(l, Var) and isinstance(env.get(l.k), Poison) and l.env is env:
                return env[l.k]                     # a counter that nothing depends on
            v = l.get()
            w = add(v, 1, 1 if op == "++" else -1)
            l.set(w)
            return v if n.get("isPostfix") else w
        if op == "&":
            while c["kind"] == "ParenExpr":
                c = kids(c)[0]
            l = s.lvalue(c, env, f)
            if isinstance(l, Elem):
                return Ptr(l.p.blk, add(l.p.off, l.i))
            if isinstance(l, Var):
                v = l.env.get(l.k)
                if isinstance(v, Obj):
                    return v
                return Obj("address", var=l)
            raise Unsupported("address of a field")
        if op == "*":
            return s.lvalue(n, env, f).get()
        v = s.rvalue(c, env, f)
        if op == "!":
            return SB(Not(truth(v)))
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "~":
            if isinstance(v, int) and not isinstance(v, bool):
                return ~v
            v = bits(v)
            return Bits([(not x) if isinstance(x, bool) else Not(x) for x in pad(v, 16)])
        raise Unsupported("operator %s" % op)

    def binary(s, n, env, f):
        op = n["opcode"]
        a, b = kids(n)
        if op == "=":
            v = s.rvalue(b, env, f)
            l = s.lvalue(a, env, f)
            l.set(v)
            return v
        if op in ("&&", "||"):
            t = z3.simplify(s.cond(a, env, f))
            if op == "&&":
                if z3.is_false(t):
                    return False
                if z3.is_true(t):
                    return SB(s.cond(b, env, f))
                if pure(b):
                    return SB(And(t, s.cond(b, env, f)))
                return SB(s.cond(b, env, f)) if ENG.decide(t) else False
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return SB(s.cond(b, env, f))
            if pure(b):
                return SB(Or(t, s.cond(b, env, f)))
            return True if ENG.decide(t) else SB(s.cond(b, env, f))
        if op == ",":
            s.rvalue(a, env, f)
            return s.rvalue(b, env, f)
        return s.arith(op, s.rvalue(a, env, f), s.rvalue(b, env, f), n)

    def arith(s, op, x, y, n):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return SB(compare(op, x, y))
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return (x if isinstance(x, Opaque) else y).arith(op, y if isinstance(x, Opaque) else x)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(y, Ptr):
                x, y = y, x
            if op not in ("+", "-") or isinstance(y, Ptr):
                raise Unsupported("pointer arithmetic")
            return Ptr(x.blk, add(x.off, y, 1 if op == "+" else -1))
        if op in ("&", "|", "^"):
            return bitop(op, x, y)
        if op in ("+", "-"):
            if isinstance(x, Bits) or isinstance(y, Bits):
                x, y = small(x), small(y)
            return add(x, y, 1 if op == "+" else -1)
        if op == "*":
            return mul(x, y)
        x, y = num(x), num(y)
        real = "double" in n["type"]["qualType"]
        if op == "/" and real:
            if not isinstance(x, S) and not isinstance(y, S):
                return Fraction(x) / Fraction(y)
            return core.divide(x, y)
        if op in ("/", "%"):
            return s.intdiv(op, x, y)
        if op in ("<<", ">>") and isinstance(x, int) and isinstance(y, int):
            return x << y if op == "<<" else x >> y
        raise Unsupported("operator %s" % op)

    def intdiv(s, op, x, y):
        if isinstance(y, P2):
            if not (isinstance(y.a, int) and y.a == 0 and isinstance(y.b, int) and y.b == 1):
                raise Unsupported("division by an address")
            ENG.require(compare(">=", x, 0), "the dividend is not negative", tac=SMT)
            a, b = canon(x)
            return a if op == "%" else b
        if isinstance(x, int) and isinstance(y, int) and x >= 0 and y > 0:
            return x // y if op == "/" else x % y
        if isinstance(y, int) and y > 0 and isinstance(x, S):
            ENG.require(x.t >= 0, "the dividend is not negative", tac=SMT)
            return S(x.t / y) if op == "/" else S(x.t % y)
        raise Unsupported("integer division")

    def call(s, n, env, f):
        c = kids(n)
        g = c[0]
        while g["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            g = kids(g)[0]
        if g["kind"] == "DeclRefExpr":
            name = g["referencedDecl"]["name"]
            if name in s.externs:
                return s.externs[name](s, [lambda x=x: s.rvalue(x, env, f) for x in c[1:]], n)
            args = [s.rvalue(x, env, f) for x in c[1:]]
            if name in s.stubs:
                return s.stubs[name](*args)
            if name in s.fns:
                return s.run(name, args, n["id"])
            raise Unsupported("the function %s" % name)
        i = api_index(g)
        if i is not None:
            if i not in s.api:
                raise Unsupported("entry %d of numpy's table" % i)
            return s.api[i](s, [lambda x=x: s.rvalue(x, env, f) for x in c[1:]], n)
        if g["kind"] == "MemberExpr":
            v = s.rvalue(g, env, f)
            if isinstance(v, Method):
                return v.f(*[s.rvalue(x, env, f) for x in c[1:]])
        raise Unsupported("call through a pointer")


def api_index(n):
    """(*(T *) PyArray_API[i]) -> i"""
    if n.get("kind") == "ArraySubscriptExpr":
        a, b = kids(n)
        t = a
        while t["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            t = kids(t)[0]
        if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["name"] == "PyArray_API" and b["kind"] == "IntegerLiteral":
            return int(b["value"])
        return None
    if n.get("kind") in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr") or (n.get("kind") == "UnaryOperator" and n["opcode"] == "*"):
        return api_index(kids(n)[0])
    return None


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, S):
        return a.t.eq(b.t)
    if isinstance(a, P2):
        return same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Ptr):
        return a.blk is b.blk and (a.off is b.off or same(a.off, b.off))
    if isinstance(a, Obj):
        return a is b
    try:
        return bool(a == b)
    except Exception:
        return False


class Spec:
    """a loop: enter (obligations at the entry), havoc (arbitrary state), begin, end (obligations), exit, leave (break)"""

    def enter(s, L):
        pass

    def havoc(s, L):
        raise NotImplementedError

    def begin(s, L):
        pass

    def end(s, L):
        pass

    def exit(s, L):
        pass

    def leave(s, L):
        pass
