import numpy as np
from common import need


def field(rng, i):
    kind = i % 8
    if kind in (0, 1):
        ny, nx = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    elif kind == 2:
        ny, nx = (2, int(rng.integers(2, 12))) if rng.random() < .5 else (int(rng.integers(2, 12)), 2)
    else:
        ny, nx = int(rng.integers(2, 14)), int(rng.integers(2, 14))
    style = int(rng.integers(0, 5))
    if style == 0:                       # small integers: ties with the level
        z = rng.integers(-1, 2, (ny, nx)).astype(float)
        level = float(rng.integers(-1, 2))
    elif style == 1:                     # binary, never equal to the level
        z = rng.integers(0, 2, (ny, nx)).astype(float)
        level = 0.5
    elif style == 2:
        z = rng.standard_normal((ny, nx))
        level = float(rng.uniform(-1, 1))
    elif style == 3:                     # smooth
        y, x = np.mgrid[0:ny, 0:nx]
        z = np.sin(x * rng.uniform(.2, 1.4) + rng.uniform(0, 6)) * np.cos(y * rng.uniform(.2, 1.4) + rng.uniform(0, 6))
        level = float(rng.uniform(-.8, .8))
    else:                                # nearly everything on one side
        z = -np.ones((ny, nx))
        for _ in range(int(rng.integers(0, 4))):
            z[rng.integers(0, ny), rng.integers(0, nx)] = rng.choice([0., 1., 2.])
        if rng.random() < .5:
            z = -z
        level = float(rng.choice([0.0, 0.25, -0.25]))
    gx = np.cumsum(rng.uniform(.2, 1.5, nx)) + rng.uniform(-5, 5)
    gy = np.cumsum(rng.uniform(.2, 1.5, ny)) + rng.uniform(-5, 5)
    if rng.random() < .2:
        gx = gx[::-1]
    if rng.random() < .2:
        gy = gy[::-1]
    X, Y = np.meshgrid(gx, gy)
    if rng.random() < .3:
        X = X + rng.uniform(-.08, .08, X.shape)
        Y = Y + rng.uniform(-.08, .08, Y.shape)
    return X, Y, z, level


def crossings(X, Y, z, level):
    """[(x, y, kind, row, col)] of the edges with one end above the level."""
    out = []
    ny, nx = z.shape
    up = z > level
    for j in range(ny):
        for i in range(nx):
            for kind, (dj, di) in (("h", (0, 1)), ("v", (1, 0))):
                j2, i2 = j + dj, i + di
                if j2 >= ny or i2 >= nx or up[j, i] == up[j2, i2]:
                    continue
                t = (level - z[j, i]) / (z[j2, i2] - z[j, i])
                out.append((X[j, i] + t * (X[j2, i2] - X[j, i]), Y[j, i] + t * (Y[j2, i2] - Y[j, i]), kind, j, i))
    return out


def cells(e, shape):
    _, _, kind, j, i = e
    ny, nx = shape
    c = [(j - 1, i), (j, i)] if kind == "h" else [(j, i - 1), (j, i)]
    return {(a, b) for a, b in c if 0 <= a < ny - 1 and 0 <= b < nx - 1}


def contours(case):
    f = need("trackeddy.geometry", "extract_contours")
    segs, _ = f(case["X"].copy(), case["Y"].copy(), case["z"].copy(), case["level"])
    return [np.asarray(s, float) for s in segs]


def gen(rng, i):
    X, Y, z, level = field(rng, i)
    if i % 3 == 1:                       # the property is about any unit: scale the field (exactly) and shift it
        s = 2.0 ** float(rng.integers(-60, 40))
        z, level = z * s, level * s
        if rng.random() < .3:
            c = float(rng.uniform(-4, 4)) * s * 2.0 ** float(rng.integers(0, 30))
            z, level = z + c, level + c
    if i % 5 == 2:                       # and the coordinates
        s = 2.0 ** float(rng.integers(-30, 20))
        X, Y = X * s, Y * s
    return {"X": X, "Y": Y, "z": z, "level": level}
