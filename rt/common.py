"""Shared pieces of the run-time oracles (executed by /opt/venv/bin/python on a
freshly built copy of the repository's package)."""
import os, sys, signal, traceback, warnings, importlib

import numpy as np


class Inapplicable(Exception):
    """The interface an oracle observes is not there (renamed, other signature)."""


def need(module, *path):
    obj = importlib.import_module(module)
    for p in path:
        if not hasattr(obj, p):
            raise Inapplicable("%s.%s does not exist" % (module, ".".join(path)))
        obj = getattr(obj, p)
    return obj


class Quiet:
    """Send stdout (progress lines of the code under test) to nowhere."""

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.old


def close(a, b, rtol=1e-9, atol=1e-12):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def dataset(field, lon, lat, dims=("time", "lat", "lon"), name="ssh", extra=None, coords=True):
    """field ordered (time, lat, lon) or (lat, lon)."""
    import xarray as xr
    names = ("time", "lat", "lon") if field.ndim == 3 else ("lat", "lon")
    da = xr.DataArray(field, dims=names, coords={"lon": lon, "lat": lat} if coords else None)
    return xr.Dataset({name: da})


def gaussians(X, Y, specs):
    z = np.zeros(X.shape)
    for (a, x0, y0, sx, sy, th) in specs:
        u = (X - x0) * np.cos(th) + (Y - y0) * np.sin(th)
        v = (Y - y0) * np.cos(th) - (X - x0) * np.sin(th)
        z = z + a * np.exp(-(u ** 2 / (2 * sx ** 2) + v ** 2 / (2 * sy ** 2)))
    return z


def random_field(rng, X, Y, n=None, noise=0.02):
    wx, wy = np.ptp(X), np.ptp(Y)
    n = n if n is not None else int(rng.integers(1, 6))
    specs = []
    for _ in range(n):
        specs.append((rng.choice([-1, 1]) * rng.uniform(0.4, 1.5),
                      rng.uniform(X.min(), X.max()), rng.uniform(Y.min(), Y.max()),
                      rng.uniform(0.05, 0.2) * wx, rng.uniform(0.05, 0.2) * wy,
                      rng.uniform(0, np.pi)))
    z = gaussians(X, Y, specs)
    if noise:
        z = z + noise * rng.standard_normal(X.shape)
    return z


def random_axes(rng, big=False):
    nx = int(rng.integers(14, 34))
    ny = int(rng.integers(12, 30))
    dx = float(rng.choice([0.1, 0.25, 0.5]))
    dy = float(rng.choice([0.1, 0.25, 0.4]))
    lon0 = float(rng.choice([-3.0, 0.0, 10.0, 170.0, -100.0, 2.5]))
    lat0 = float(rng.choice([-2.0, 0.0, -45.0, 30.0, 3.0]))
    lon = lon0 + dx * np.arange(nx)
    lat = lat0 + dy * np.arange(ny)
    if rng.random() < 0.15:
        lat = lat[::-1].copy()
    return lon, lat


def blobs(rng, X, Y, noise=0.0, fill=.8):
    """Well separated eddies on a coarse lattice: many nearly elliptic contours."""
    wx, wy = np.ptp(X), np.ptp(Y)
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    specs = []
    for a in range(nx):
        for b in range(ny):
            if rng.random() > fill:
                continue
            cx = X.min() + (a + .5 + rng.uniform(-.1, .1)) * wx / nx
            cy = Y.min() + (b + .5 + rng.uniform(-.1, .1)) * wy / ny
            s = min(wx / nx, wy / ny) * rng.uniform(.1, .2)
            specs.append((rng.choice([-1, 1]) * rng.uniform(.5, 1.5), cx, cy, s, s * rng.uniform(.65, 1.5), rng.uniform(0, np.pi)))
    z = gaussians(X, Y, specs)
    if noise:
        z = z + noise * rng.standard_normal(X.shape)
    return z
