"""The contract models standing for imported libraries."""
import types
from . import npshim, core
from .core import Unsupported


def default():
    sh = {}
    sh["numpy"] = npshim.make()
    sh["math"] = npshim.make_math()
    sh["scipy"] = Lazy("scipy")
    sh["scipy.optimize"] = npshim.NS(least_squares=unsup("least_squares"))
    sh["trackeddy._cntr"] = npshim.NS(Cntr=unsup("Cntr"))
    from . import pdm, xr
    sh["pandas"] = pdm.make()
    sh["xarray"] = Lazy("xarray", DataArray=xr.DA, Dataset=xr.Dataset)
    for m in ( "matplotlib", "matplotlib.pyplot", "sklearn", "sklearn.neighbors", "astropy", "astropy.convolution", "random",
              "cmocean", "cartopy", "shapely", "shapely.geometry", "scipy.ndimage", "time", "os", "sys", "datetime"):
        sh.setdefault(m, Lazy(m))
    return sh


class Lazy(types.SimpleNamespace):
    """a library without a model: its names exist, using them is out of reach"""

    def __init__(s, name, **k):
        super().__init__(**k)
        s._n = name

    def __getattr__(s, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return unsup("%s.%s" % (s.__dict__.get("_n", "?"), k))


def unsup(n):
    def f(*a, **k):
        raise Unsupported(n)
    return f
