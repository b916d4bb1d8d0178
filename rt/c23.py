import random as rnd
import numpy as np
from common import need


def gen(rng, i):
    nx, ny = int(rng.integers(2, 25)), int(rng.integers(2, 25))
    x0, y0 = rng.uniform(-10, 10, 2)
    x = np.linspace(x0, x0 + rng.uniform(1, 20), nx)
    y = np.linspace(y0, y0 + rng.uniform(1, 20), ny)
    if rng.random() < .2:
        x = np.arange(nx) * 1.0; y = np.arange(ny) * 1.0
    if rng.random() < .15:
        x = x[::-1].copy()
    if rng.random() < .15:
        y = y[::-1].copy()
    return {"x": x, "y": y, "a": float(rng.uniform(.5, 4)), "b": float(rng.uniform(.5, 4)), "n": int(rng.integers(1, 5)),
            "margin": int(rng.choice([0, 1, 5, 12])), "N": int(rng.integers(1, 3)), "seed": int(rng.integers(0, 1 << 30)),
            "size": int(rng.integers(1, 16)), "fwhm": float(rng.uniform(.5, 9)), "centre": rng.uniform(-2, 18, (3, 2)), "mode": i % 5}


def check(case):
    G = need("trackeddy.generator.field_generator", "Generate_field")
    mk = need("trackeddy.generator.gaussian_field_functions", "makeGaussian")
    mv = need("trackeddy.generator.gaussian_field_functions", "moveGaussian")
    if case["mode"] in (0, 1):
        s, f, c = case["size"], case["fwhm"], case["centre"]
        want = lambda a, b: np.array([[np.exp(-4 * np.log(2) * ((i - a) ** 2 + (j - b) ** 2) / f ** 2) for i in range(s)] for j in range(s)])
        g = np.asarray(mk(s, f, tuple(c[0])))
        if g.shape != (s, s) or not np.allclose(g, want(*c[0]), rtol=1e-9, atol=1e-15):
            return "makeGaussian(%d, %r, %r) is not the declared Gaussian" % (s, f, tuple(c[0]))
        m = np.asarray(mv(s, f, c.copy(), len(c)))
        if m.shape != (len(c), s, s):
            return "moveGaussian has shape %r" % (m.shape,)
        for t in range(len(c)):
            if not np.allclose(m[t], want(*c[t]), rtol=1e-9, atol=1e-15):
                return "moveGaussian at time %d is not the Gaussian of centre %r" % (t, c[t])
        return None, {"moving": 1}
    rnd.seed(case["seed"])
    x, y, mg = case["x"], case["y"], case["margin"]
    kx, ky = x.copy(), y.copy()
    g = G(case["a"], case["b"], case["n"], x, y)
    info = {k: (list(v["loc"][0]), list(v["radius"]), v["angle"], v["amp"]) for k, v in g.eddies.items()}
    if len(info) != case["n"]:
        return "%d eddies declared, %d asked" % (len(info), case["n"])

    def want(mg):
        gx = np.linspace(kx.min(), kx.max(), len(kx) + 2 * mg)
        gy = np.linspace(ky.min(), ky.max(), len(ky) + 2 * mg)
        X, Y = np.meshgrid(gx, gy)
        z = np.zeros(X.shape)
        for (lx, ly), (a, b), th, amp in info.values():
            dx, dy = X - gx[lx + mg], Y - gy[ly + mg]
            u, v = dx * np.cos(th) - dy * np.sin(th), dx * np.sin(th) + dy * np.cos(th)
            z = z + amp * np.exp(-(u ** 2 / (2 * a ** 2) + v ** 2 / (2 * b ** 2)))
        return z
    rec = case["mode"] == 4 and hasattr(g, "reconstruct_field")
    if rec:
        d = np.asarray(g.reconstruct_field())[None]
        w = want(0)
    else:
        d = np.asarray(g.assemble_field(case["N"], margin=mg))
        w = want(mg)
    if d.shape != ((1 if rec else case["N"]),) + w.shape:
        return "field of shape %r, expected %r" % (d.shape, w.shape)
    for t in range(d.shape[0]):
        if not np.allclose(d[t], w, rtol=1e-8, atol=1e-10):
            k = np.unravel_index(np.abs(d[t] - w).argmax(), w.shape)
            return "field at time %d, node %r is %r, expected %r" % (t, k, d[t][k], w[k])
    if not (np.array_equal(kx, x) and np.array_equal(ky, y)):
        return "the axes given by the user were modified"
    return None, {"assembled": 1}
