"""C23: contracts of twoD_Gaussian, pass_args, assemble_field, reconstruct_field, makeGaussian and moveGaussian."""
from contracts.util import *
from engine.seq import SList
from engine.shims import Lazy


class Key:
    """the name of the k-th eddy"""
    def __init__(s, k):
        s.k = k
    __hash__ = object.__hash__

    def __str__(s):
        return "eddy"


class Eddies:
    """a dictionary of any number of eddies"""

    def __init__(s, n, item):
        s.n, s.item = n, item

    def items(s):
        return SList(s.n, lambda k: (Key(k), s.item(k)))

    def keys(s):
        return SList(s.n, lambda k: Key(k))

    def values(s):
        return SList(s.n, lambda k: s.item(k))

    def _seq(s):
        return s.n, lambda k: Key(k)

    def _len(s):
        return s.n

    def __getitem__(s, key):
        if not isinstance(key, Key):
            raise KeyError(key)
        return s.item(key.k)


def run(V):
    M = "trackeddy.generator.field_generator.Generate_field."
    V.functions |= {M + q for q in ("twoD_Gaussian", "pass_args", "assemble_field", "reconstruct_field")}
    V.functions |= {"trackeddy.generator.gaussian_field_functions." + q for q in ("makeGaussian", "moveGaussian")}
    V.assumed.add("the location of each eddy is a node of the axes given by the user (random.randint of Generate_field.__init__)")
    mod = V.loader().load("trackeddy.generator.field_generator")
    G = mod.Generate_field

    def eddies(n, nx, ny):
        f = {k: ENG.fresh_fn(k, I, R) for k in ("ra", "rb", "angle", "amp")}
        g = {k: ENG.fresh_fn(k, I, I) for k in ("lx", "ly")}
        k = z3.Int("k!")
        ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.t), z3.And(g["lx"](k) >= 0, g["lx"](k) < nx.t, g["ly"](k) >= 0, g["ly"](k) < ny.t,
                                                                            f["ra"](k) > 0, f["rb"](k) > 0))))

        def item(q):
            t = term(q)
            return {"loc": [[S(g["lx"](t)), S(g["ly"](t))]], "grow": True, "radius": [S(f["ra"](t)), S(f["rb"](t))], "angle": S(f["angle"](t)), "amp": S(f["amp"](t))}
        return Eddies(n, item)

    # ---- twoD_Gaussian
    def two():
        n, m = count("rows", 1), count("cols", 1)
        X, Y = array("X", (n, m)), array("Y", (n, m))
        amp, xo, yo, th = num("amp"), num("xo"), num("yo"), num("theta")
        a, b = num("a"), num("b")
        ENG.assume(z3.And(a.t > 0, b.t > 0))
        self = object.__new__(G)
        ENG.mark("entry")
        r = self.twoD_Gaussian((X, Y, amp, xo, yo), a, b, th)
        ENG.mark("return")
        r = A.asarr(r)
        i, j = index("i", n), index("j", m)
        v = r.reshape(n, m).at(i, j)
        dx, dy = X.at(i, j) - xo, Y.at(i, j) - yo
        c, s = core.cos(th), core.sin(th)
        u, w = dx * c - dy * s, dx * s + dy * c
        want = amp * core.exp(-(u * u / (2 * a * a) + w * w / (2 * b * b)))
        ENG.require(okof(v), "post: defined")
        ENG.require(real(v) == real(want), "post: rotated Gaussian, row-major order", assume=False)
    V.explore("Generate_field.twoD_Gaussian", two)

    # ---- pass_args
    def args(given):
        def body():
            nx, ny, cx, cy, ne = count("nx", 2), count("ny", 2), count("cx", 2), count("cy", 2), count("eddies", 1)
            mg = count("margin", 0)
            x, y = (array("x", (nx,)), array("y", (ny,))) if given else (array("x", (cx,)), array("y", (cy,)))
            lo, hi = {}, {}
            for nm, a in (("x", x), ("y", y)):
                lo[nm], hi[nm] = A.extreme(a, "min", False), A.extreme(a, "max", False)
            E = eddies(ne, nx, ny)
            self = object.__new__(G)
            self.__dict__.update(x=x, y=y, xlen=nx, ylen=ny, eddies=E, opt="", a=num("a"), b=num("b"), n=ne)
            vx, vy = x._ver, y._ver
            k = index("k", ne)
            ENG.mark("entry")
            out = self.pass_args(Key(k), mg)
            ENG.mark("return")
            if not (isinstance(out, tuple) and len(out) == 5):
                raise Unsupported("five results were expected")
            X, Y, amp, x0, y0 = out
            R_, C_ = S(ny.t + 2 * mg.t), S(nx.t + 2 * mg.t)
            same_shape(X, (R_, C_), "post: X")
            same_shape(Y, (R_, C_), "post: Y")
            i, j = index("i", R_), index("j", C_)

            def grid(nm, n, q):
                return lo[nm] + (hi[nm] - lo[nm]) * q / (n - 1)
            ENG.require(eq(X.at(i, j), grid("x", C_, j)), "post: columns span the range of x", assume=False)
            ENG.require(eq(Y.at(i, j), grid("y", R_, i)), "post: rows span the range of y", assume=False)
            it = E.item(k)
            ENG.require(eq(amp, it["amp"]), "post: the amplitude of the eddy", assume=False)
            ENG.require(eq(x0, grid("x", C_, it["loc"][0][0] + mg)), "post: the column of the centre", assume=False)
            ENG.require(eq(y0, grid("y", R_, it["loc"][0][1] + mg)), "post: the row of the centre", assume=False)
            # the range of the axes is kept for the next eddy
            for nm, n, want in (("x", C_, lo), ("y", R_, lo)):
                a = getattr(self, nm)
                ENG.require(eq(a.at(0), lo[nm]), "post: the axis %s starts at its minimum" % nm)
                ENG.require(eq(a.at(n - 1), hi[nm]), "post: the axis %s ends at its maximum" % nm)
                q = index("q", n)
                v, l, h = real(a.at(q)), real(lo[nm]), real(hi[nm])
                ENG.require(real(a.at(q)) == real(grid(nm, n, q)), "lemma: node of the axis")
                f = z3.ToReal(q.t) / z3.ToReal(n.t - 1)
                lemma("between", [R, R, R], lambda l, h, f: z3.Implies(z3.And(l <= h, f >= 0, f <= 1), z3.And(l + (h - l) * f >= l, l + (h - l) * f <= h)), (lo[nm], hi[nm], S(f)))
                lemma("fraction", [I, I], lambda q, n: z3.Implies(z3.And(q >= 0, q < n, n >= 2), z3.And(z3.ToReal(q) / z3.ToReal(n - 1) >= 0, z3.ToReal(q) / z3.ToReal(n - 1) <= 1)), (q, n))
                ENG.require(l <= h, "lemma: the minimum is at most the maximum")
                ENG.require(v == l + (h - l) * f, "lemma: node as a fraction")
                ENG.require(z3.And(v >= l, v <= h), "post: the range of %s is unchanged" % nm, assume=False)
            ENG.require(z3.BoolVal(x._ver == vx and y._ver == vy), "frame: the axes given by the user are not modified")
        return body
    V.explore("Generate_field.pass_args (first eddy)", args(True))
    V.explore("Generate_field.pass_args (next eddies)", args(False))

    # ---- assemble_field, reconstruct_field
    def sums(name, loops):
        def body():
            nx, ny, ne, N = count("nx", 2), count("ny", 2), count("eddies", 1), count("times", 1)
            mg = count("margin", 0) if name == "assemble_field" else 0
            R_, C_ = S(ny.t + 2 * term(mg)), S(nx.t + 2 * term(mg))
            E = eddies(ne, nx, ny)
            F = ENG.fresh_fn("surface", I, I, I, R)          # the surface of eddy k at row i and column j
            T = ENG.fresh_fn("partial", I, I, I, R)          # the sum of those of the first k eddies
            k_, i_, j_ = z3.Ints("k! i! j!")
            ENG.assume(z3.ForAll([i_, j_], T(0, i_, j_) == 0, patterns=[T(0, i_, j_)]))
            self = object.__new__(G)
            self.__dict__.update(x=array("x", (nx,)), y=array("y", (ny,)), xlen=nx, ylen=ny, eddies=E, opt="", n=ne)

            class Args:
                pass

            def pass_args(key, margin=50):
                ENG.require(term(margin) == term(mg), "pre of pass_args: the margin")
                if not isinstance(key, Key):
                    raise KeyError(key)
                p = Args()
                p.k = key.k
                return p

            def twoD(coords, sigma_x, sigma_y, theta):
                if not isinstance(coords, Args):
                    raise Unsupported("twoD_Gaussian of something else")
                it = E.item(coords.k)
                ENG.require(And(eq(sigma_x, it["radius"][0]), eq(sigma_y, it["radius"][1]), eq(theta, it["angle"])), "pre of twoD_Gaussian: widths and angle of the eddy")
                k = term(coords.k)
                ENG.assume(z3.ForAll([i_, j_], T(k + 1, i_, j_) == T(k, i_, j_) + F(k, i_, j_), patterns=[T(k + 1, i_, j_)]))
                return Arr((R_, C_), lambda q: S(F(k, term(q[0]), term(q[1]))), "f").ravel()
            self.pass_args, self.twoD_Gaussian = pass_args, twoD
            three = name == "assemble_field"

            def field(st):
                return st.only("the field", lambda v: isinstance(v, Arr) and v.view is None and v.ndim == (3 if three else 2) and core.same(v.shape[-1], C_))

            def outer(st):
                d = field(st)
                return [("snapshots done", A.forallN((N, R_, C_), lambda t, i, j: real(d.at(t, i, j)) == z3.If(term(t) < term(st.k), T(ne.t, term(i), term(j)), z3.RealVal(0))))]

            def inner(st):
                d = field(st)
                if not three:
                    return [("eddies added", A.forallN((R_, C_), lambda i, j: real(d.at(i, j)) == T(term(st.k), term(i), term(j))))]
                t0 = [q for q in ENG.loopstack if q.lid.endswith("#0")][-1].k if ENG.loopstack else None
                if t0 is None:
                    raise Unsupported("the loop over eddies is not inside the loop over snapshots")
                return [("eddies added", A.forallN((N, R_, C_), lambda t, i, j: real(d.at(t, i, j)) == z3.If(
                    term(t) < term(t0), T(ne.t, term(i), term(j)), z3.If(term(t) == term(t0), T(term(st.k), term(i), term(j)), z3.RealVal(0)))))]
            q = "trackeddy.generator.field_generator:Generate_field." + name
            old = dict(ENG.loop_specs)
            if three:
                ENG.loop_specs[q + "#0"] = NS(inv=outer)
                ENG.loop_specs[q + "#1"] = NS(inv=inner)
            else:
                ENG.loop_specs[q + "#0"] = NS(inv=inner)
            ENG.mark("entry")
            d = self.assemble_field(N, mg) if three else self.reconstruct_field()
            ENG.mark("return")
            d = A.asarr(d)
            i, j, t = index("i", R_), index("j", C_), index("t", N)
            same_shape(d, (N, R_, C_) if three else (R_, C_), "post: the field")
            ENG.require(real(d.at(t, i, j) if three else d.at(i, j)) == T(ne.t, i.t, j.t), "post: the sum over the eddies at every node" + (" and time" if three else ""), assume=False)
        return body
    V.explore("Generate_field.assemble_field", sums("assemble_field", 2))
    V.explore("Generate_field.reconstruct_field", sums("reconstruct_field", 1))

    # ---- moving Gaussians
    mg = V.loader().load("trackeddy.generator.gaussian_field_functions")
    real_make = mg.makeGaussian

    def value(i, j, fwhm, cx, cy):
        dx, dy = S(z3.ToReal(term(j))) - cx, S(z3.ToReal(term(i))) - cy
        return core.exp(-4 * core.log(2) * (dx * dx + dy * dy) / (fwhm * fwhm))

    def make():
        size = count("size", 1)
        fwhm, cx, cy = num("fwhm", nz=True), num("cx"), num("cy")
        ENG.mark("entry")
        g = A.asarr(real_make(size, fwhm, (cx, cy)))
        ENG.mark("return")
        same_shape(g, (size, size), "post: square field")
        i, j = index("i", size), index("j", size)
        v = g.at(i, j)
        ENG.require(okof(v), "post: defined")
        ENG.require(real(v) == real(value(i, j, fwhm, cx, cy)), "post: the declared Gaussian", assume=False)
    V.explore("makeGaussian", make)

    def move(kind):
        def body():
            size, N = count("size", 1), count("times", 1)
            fwhm = num("fwhm", nz=True)
            cen = array("centre", (N, 2), kind)
            F = ENG.fresh_fn("gaussian", R, R, I, I, R)

            def callee(size_, fwhm=3, center=None):
                s2, f2 = size_, fwhm_of(fwhm)
                ENG.require(And(term(s2) == size.t, real(f2) == real(fw)), "pre of makeGaussian: size and width")
                c = center
                cx, cy = (c[0], c[1])
                cx, cy = real(val(cx)), real(val(cy))
                return Arr((size, size), lambda q: S(F(cx, cy, term(q[0]), term(q[1]))), "f")
            fw = fwhm
            fwhm_of = lambda v: v
            mg.makeGaussian = callee
            want = lambda t, i, j: F(real(cen.at(t, 0)), real(cen.at(t, 1)), term(i), term(j))

            def inv(st):
                z = st.only("the field", lambda v: isinstance(v, Arr) and v.view is None and v.ndim == 3)
                return [("snapshots done", A.forallN((N, size, size), lambda t, i, j: z3.Implies(term(t) < term(st.k), real(z.at(t, i, j)) == want(t, i, j))))]
            ENG.loop_specs["trackeddy.generator.gaussian_field_functions:moveGaussian#0"] = NS(inv=inv)
            ENG.mark("entry")
            z = A.asarr(mg.moveGaussian(size, fwhm, cen, N))
            mg.makeGaussian = real_make
            ENG.mark("return")
            same_shape(z, (N, size, size), "post: moving field")
            t, i, j = index("t", N), index("i", size), index("j", size)
            ENG.require(real(z.at(t, i, j)) == want(t, i, j), "post: the Gaussian of each time", assume=False)
        return body
    V.explore("moveGaussian", move("f"))
    V.explore("moveGaussian (integer centres)", move("i"))
