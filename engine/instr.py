"""Mechanical instrumentation of the repository's source, and the loader.

What the instrumentation changes (nothing else is touched, and the text is read from /repo
on every run):
  * numeric literals become exact rationals;
  * `for`/`while` loops get an entry hook (havoc of the names the body assigns, when the
    loop is cut) and iterate through a generator of the engine;
  * list/generator comprehensions, conditional expressions and and/or are routed through
    the engine so that they can be evaluated at a generic index;
  * list displays become a list type that reports mutation;
  * builtins (len, range, min, ...) and imported libraries resolve to the contract models.
"""
import ast
import os
import types
from . import core
from .core import Unsupported


class Names(ast.NodeVisitor):
    def __init__(s):
        s.st = []

    def add(s, n):
        if n not in s.st:
            s.st.append(n)

    def visit_Name(s, n):
        if isinstance(n.ctx, ast.Store):
            s.add(n.id)

    def visit_ExceptHandler(s, n):
        s.generic_visit(n)      # `as name` is deleted at the end of the handler

    def visit_FunctionDef(s, n):
        s.add(n.name)

    def visit_ClassDef(s, n):
        s.add(n.name)

    def visit_Lambda(s, n):
        pass

    def visit_ListComp(s, n):
        pass
    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp


class Instr(ast.NodeTransformer):
    def __init__(s, modname):
        s.mod = modname
        s.fn = []
        s.count = {}

    def q(s):
        return s.mod + ":" + ".".join(s.fn)

    # -- literals
    def visit_Constant(s, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(vf("F"), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_MatchValue(s, n):
        return n

    def visit_JoinedStr(s, n):
        s.generic_visit(n)
        return n

    def visit_Dict(s, n):
        s.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        return ast.copy_location(ast.Call(vf("mkdict"), [ast.List(n.keys, ast.Load()), ast.List(n.values, ast.Load())], []), n)

    def visit_List(s, n):
        s.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(vf("mklist"), [n], []), n)
        return n

    def visit_Subscript(s, n):
        s.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not any(isinstance(x, (ast.Slice, ast.Starred)) for x in [n.slice] + getattr(n.slice, "elts", [])):
            return ast.copy_location(ast.Call(vf("item"), [n.value, n.slice], []), n)
        return n

    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Mult) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            return ast.copy_location(ast.Call(vf("repeat"), [n.left, n.right], []), n)
        op = {ast.Div: "div", ast.Mod: "mod", ast.FloorDiv: "floordiv", ast.Pow: "pow"}.get(type(n.op))
        if op:
            return ast.copy_location(ast.Call(vf(op), [n.left, n.right], []), n)
        return n

    def visit_BoolOp(s, n):
        s.generic_visit(n)
        args = [lam(v) for v in n.values]
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for v in n.values for x in ast.walk(v)):
            return n
        return ast.copy_location(ast.Call(vf("and_" if isinstance(n.op, ast.And) else "or_"), args, []), n)

    def visit_UnaryOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Not):
            return ast.copy_location(ast.Call(vf("not_"), [n.operand], []), n)
        return n

    def visit_IfExp(s, n):
        s.generic_visit(n)
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return n
        return ast.copy_location(ast.Call(vf("ifexp"), [n.test, lam(n.body), lam(n.orelse)], []), n)

    def visit_Compare(s, n):
        s.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(vf("in_"), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.Call(vf("not_"), [c], [])
            return ast.copy_location(c, n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            return n
        if len(n.ops) == 1:
            op = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}.get(type(n.ops[0]))
            if op:
                return ast.copy_location(ast.Call(vf("cmp"), [ast.Constant(op), n.left, n.comparators[0]], []), n)
        return n

    def comp(s, n, kind):
        if len(n.generators) != 1 or n.generators[0].is_async:
            # nested: innermost becomes the element of the outer
            g = n.generators
            inner = type(n)(elt=n.elt, generators=g[1:])
            inner = ast.copy_location(inner, n)
            outer = type(n)(elt=inner, generators=g[:1])
            outer = ast.copy_location(outer, n)
            r = s.comp(outer, kind)
            return ast.copy_location(ast.Call(vf("flatten"), [r], []), n)
        g = n.generators[0]
        it = s.visit(g.iter)
        target = g.target
        elt = s.visit(n.elt)
        ifs = [s.visit(i) for i in g.ifs]
        if isinstance(target, ast.Name):
            args = ast.arguments([], [ast.arg(target.id)], None, [], [], None, [])
            mkl = lambda e: ast.Lambda(args, e)
        else:
            args = ast.arguments([], [ast.arg("__t")], None, [], [], None, [])
            # unpack through nested lambda on fixed structure
            names = []

            def build(t, src):
                if isinstance(t, ast.Name):
                    names.append((t.id, src))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Starred):
                            raise Unsupported("starred comprehension target")
                        build(e, ast.Call(vf("unpack"), [src, ast.Constant(i), ast.Constant(len(t.elts))], []))
                else:
                    raise Unsupported("comprehension target")
            build(target, ast.Name("__t", ast.Load()))

            def mkl(e):
                inner = ast.Lambda(ast.arguments([], [ast.arg(a) for a, _ in names], None, [], [], None, []), e)
                return ast.Lambda(args, ast.Call(inner, [b for _, b in names], []))
        cond = [mkl(c) for c in ifs]
        return ast.copy_location(ast.Call(vf("comp"), [it, mkl(elt), ast.List(cond, ast.Load()), ast.Constant(kind)], []), n)

    def visit_ListComp(s, n):
        return s.comp(n, "list")

    def visit_GeneratorExp(s, n):
        return s.comp(n, "gen")

    def visit_DictComp(s, n):
        pairs = ast.copy_location(ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators), n)
        return ast.copy_location(ast.Call(vf("mkdictcomp"), [s.comp(pairs, "list")], []), n)

    # -- functions
    def visit_FunctionDef(s, n):
        s.fn.append(n.name)
        Extends(n).generic_visit(n)
        decs = [s.visit(d) for d in n.decorator_list]
        n.decorator_list = []
        n.args = s.visit(n.args)
        body = []
        for b in n.body:
            r = s.visit(b)
            body += r if isinstance(r, list) else [r]
        n.body = body
        n.decorator_list = decs
        s.fn.pop()
        return n

    def visit_ClassDef(s, n):
        s.fn.append(n.name)
        s.generic_visit(n)
        s.fn.pop()
        return n

    def visit_Lambda(s, n):
        s.generic_visit(n)
        return n

    def visit_AnnAssign(s, n):
        n.annotation = ast.Constant(None)
        s.generic_visit(n)
        return n

    # -- loops
    def loop(s, n, is_for):
        k = s.q()
        i = s.count.get(k, 0)
        s.count[k] = i + 1
        lid = "%s#%d" % (k, i)
        nm = Names()
        for b in n.body:
            nm.visit(b)
        steps = counters(n) if not is_for else {}
        if is_for:
            nm.visit(n.target)
            it = s.visit(n.iter)
        else:
            for b in ast.walk(n.test):
                if isinstance(b, ast.NamedExpr):
                    nm.add(b.target.id)
            test = s.visit(n.test)
        body = []
        for b in n.body:
            r = s.visit(b)
            body += r if isinstance(r, list) else [r]
        orelse = []
        for b in n.orelse:
            r = s.visit(b)
            orelse += r if isinstance(r, list) else [r]
        L = "__vfL%d" % abs(hash(lid)) if False else "vfL_%s_%d__" % (k.replace(":", "_").replace(".", "_").replace("<", "").replace(">", ""), i)
        names = ast.Tuple([ast.Constant(x) for x in nm.st], ast.Load())
        arg = it if is_for else lam(test)
        enter = ast.Assign([ast.Name(L, ast.Store())], ast.Call(vf("enter"), [
            ast.Constant(lid), arg, names, ast.Call(ast.Name("locals", ast.Load()), [], []), ast.Constant(is_for),
            ast.Dict([ast.Constant(x) for x in steps], [ast.Constant(v) for v in steps.values()])], []))
        out = [enter]
        if nm.st:
            tgt = ast.Tuple([ast.Name(x, ast.Store()) for x in nm.st], ast.Store())
            out.append(ast.If(ast.Attribute(ast.Name(L, ast.Load()), "cut", ast.Load()),
                              [ast.Assign([tgt], ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "havoc", ast.Load()), [], []))], []))
        gen = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "iterate", ast.Load()), [], [])
        if is_for:
            out.append(ast.For(n.target, gen, body, orelse))
        else:
            brk = ast.If(ast.Call(vf("not_"), [ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "test", ast.Load()), [lam(test)], [])], []),
                         (orelse or []) + [ast.Break()], [])
            out.append(ast.For(ast.Name("vf_it__", ast.Store()), gen, [brk] + body, []))
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out

    def visit_For(s, n):
        return s.loop(n, True)

    def visit_While(s, n):
        return s.loop(n, False)


class Extends(ast.NodeTransformer):
    """`x += [a, b]` extends the list x in place: a call, as x.append(a); x.append(b)"""

    def __init__(s, fn):
        s.bound = {t.id for b in ast.walk(fn) if isinstance(b, (ast.Assign, ast.AnnAssign)) for t in ast.walk(b) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        s.bound |= {a.arg for a in fn.args.args}

    def visit_AugAssign(s, n):
        if isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and n.target.id in s.bound and isinstance(n.value, ast.List) and \
                not any(isinstance(e, ast.Starred) for e in n.value.elts):
            c = ast.Expr(ast.Call(vf("extend"), [ast.Name(n.target.id, ast.Load()), n.value], []))
            return ast.fix_missing_locations(ast.copy_location(c, n))
        return n

    def visit_FunctionDef(s, n):
        return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef


def counters(n):
    """names that every iteration changes by the same constant, at the top of the body"""
    stores, out = {}, {}
    for b in n.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Continue):
                return {}
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores[x.id] = stores.get(x.id, 0) + 1
    for b in n.body:
        t, v = None, None
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, (ast.Add, ast.Sub)):
            t, v, sub = b.target.id, b.value, isinstance(b.op, ast.Sub)
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.BinOp) and \
                isinstance(b.value.op, (ast.Add, ast.Sub)) and isinstance(b.value.left, ast.Name) and b.value.left.id == b.targets[0].id:
            t, v, sub = b.targets[0].id, b.value.right, isinstance(b.value.op, ast.Sub)
        if t and stores.get(t) == 1 and isinstance(v, ast.Constant) and type(v.value) is int:
            out[t] = -v.value if sub else v.value
    return out


def vf(name):
    return ast.Attribute(ast.Name("__vf__", ast.Load()), name, ast.Load())


def lam(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


class Loader:
    """Loads instrumented modules of the package under proof."""

    def __init__(s, root, shims, overrides=None, hooks=None):
        s.root = root                # directory that contains trackeddy/
        s.shims = shims              # module name -> shim object
        s.mods = {}
        s.overrides = overrides or {}   # "module:name" -> replacement (callee contract)
        s.sources = {}
        from . import rtlib
        s.vf = rtlib.VF()
        s.builtins = rtlib.make_builtins(s)

    def path(s, name):
        p = os.path.join(s.root, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(s, name):
        if name in s.mods:
            return s.mods[name]
        m = types.ModuleType(name)
        s.mods[name] = m
        p = s.path(name)
        if name == "trackeddy":      # package initialiser: version string only
            return m
        if not os.path.exists(p):
            raise Unsupported("module %s not found" % name)
        src = open(p).read()
        s.sources[name] = src
        tree = ast.parse(src, p)
        tree = Instr(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, "<repo>%s" % os.path.relpath(p, s.root), "exec")
        m.__dict__["__builtins__"] = s.builtins
        m.__dict__["__vf__"] = s.vf
        m.__dict__["__file__"] = p
        exec(code, m.__dict__)
        for k, v in s.overrides.items():
            mod, nm = k.split(":")
            if mod == name:
                if "." in nm:
                    c, a = nm.split(".")
                    if c in m.__dict__:
                        setattr(m.__dict__[c], a, v)
                elif nm in m.__dict__:
                    m.__dict__[nm] = v
        return m

    def imp(s, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__name__", "").rsplit(".", level)[0]
            name = pkg + ("." + name if name else "")
        if name in s.shims:
            full = s.shims[name]
            if fromlist:
                return full
            return s.shims.get(name.split(".")[0], full)
        top = name.split(".")[0]
        if top == "trackeddy":
            if name == "trackeddy" and fromlist:
                pk = s.load("trackeddy")
                for f in fromlist:
                    sub = "trackeddy." + f
                    if sub in s.shims:
                        setattr(pk, f, s.shims[sub])
                    elif os.path.exists(s.path(sub)):
                        setattr(pk, f, s.load(sub))
                return pk
            m = s.load(name)
            if fromlist:
                for f in fromlist:
                    sub = name + "." + f
                    if f != "*" and not hasattr(m, f) and os.path.exists(s.path(sub)):
                        setattr(m, f, s.load(sub))
                return m
            pk = s.load("trackeddy")
            parts = name.split(".")
            cur = pk
            for i in range(1, len(parts)):
                sub = s.load(".".join(parts[:i + 1]))
                setattr(cur, parts[i], sub)
                cur = sub
            return pk
        if top in s.shims:
            sh = s.shims[top]
            for part in name.split(".")[1:]:
                sh = getattr(sh, part)
            return sh if fromlist else s.shims[top]
        if top in ("typing", "functools", "itertools", "collections", "abc", "dataclasses", "enum", "contextlib", "warnings",
                   "string", "re", "json", "copy", "logging", "platform", "__future__", "types", "numbers", "operator", "textwrap"):
            import importlib
            m = importlib.import_module(name)
            if fromlist:
                return m
            return importlib.import_module(top)
        raise Unsupported("import of %s" % name)
