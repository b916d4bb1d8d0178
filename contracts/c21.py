"""C21: contracts of treat_nan, filter_data/_filter_data_, _space_filter and the field part of _detect_snapshot.

astropy.convolution.convolve is an assumed contract: with the normalised kernel of equal weights it
returns the average over the kernel, zeros beyond the edges and missing values interpolated.  Proved:
that it is called on the treated snapshot, with a square kernel of kernel (kernel+1 if even) nodes and
those options, and that the tracked field is the snapshot minus its result; everything else is proved
of the code itself."""
import itertools
from contracts.util import *
from engine import xr
from engine.shims import Lazy

DEFAULTS = dict(boundary="fill", fill_value=0.0, nan_treatment="interpolate", normalize_kernel=True, mask=None, preserve_nan=False,
                normalization_zero_tol=1e-8)


def run(V):
    V.functions |= {"trackeddy.trackeddy.TrackEddy.treat_nan", "trackeddy.trackeddy.TrackEddy._filter_data_", "trackeddy.decorators.filter_data",
                    "trackeddy.trackeddy.TrackEddy._space_filter", "trackeddy.trackeddy.TrackEddy._detect_snapshot"}
    V.assumed.add("astropy.convolution.convolve averages over the kernel (zeros beyond the edges, missing values interpolated) and does not modify its argument")
    V.assumed.add("xarray: copy() copies the values, isel/squeeze/transpose/fillna/mean and arithmetic have the documented meaning, reductions skip missing values")
    calls = []

    def convolve(array, kernel=None, *a, **k):
        if a:
            raise Unsupported("convolve with positional options")
        x = A.asarr(array)
        kk = A.asarr(kernel)
        calls.append((x, kk, k))
        tr = core.same(x.shape[0], st["m"]) and core.same(x.shape[1], st["n"])
        return Arr(x.shape, lambda i: st["F"].at(*(reversed(i) if tr else i)), "f")
    st = {}
    cv = Lazy("astropy.convolution", convolve=convolve)
    shims = {"astropy.convolution": cv, "astropy": Lazy("astropy", convolution=cv)}
    mod = V.loader(shims=shims).load("trackeddy.trackeddy")
    T = mod.TrackEddy

    def make(dims, nan, filt, ftype):
        def body():
            del calls[:]
            n, m, nt = count("rows", 2), count("cols", 2), count("times", 1)
            size = {"time": nt, "lat": n, "lon": m}
            D = nanarray("field", tuple(size[d] for d in dims))
            ver = D._ver
            st.update(n=n, m=m, F=nanarray("average", (n, m)))
            t = index("t", nt)
            kernel = count("kernel", 1)
            raw = xr.DA(D, dims, name="ssh")
            self = object.__new__(T)
            setup = {"filter_type": ftype, "mode": "uniform", "kernel": kernel}
            self.__dict__.update(rawdata=raw, coords={"time": "time" if "time" in dims else "", "x": "lon", "y": "lat"}, nan_treatment=nan, filter=filt,
                                 S_filter_setup=setup, T_filter_setup={}, skip_gaussian_fit=False,
                                 X=array("X", (n, m)), Y=array("Y", (n, m)), Dataset=xr.Dataset({"ssh": raw}))
            ENG.mark("entry")
            out = self._detect_snapshot(t, Arr((0,), lambda i: S(z3.RealVal(0)), "f"))
            ENG.mark("return")
            ENG.require(z3.BoolVal(D._ver == ver), "frame: the field of the user is not modified")
            ENG.require(z3.BoolVal(setup == {"filter_type": ftype, "mode": "uniform", "kernel": kernel}), "frame: the settings are not modified") if not isinstance(setup.get("kernel"), S) else None
            tracked = self.data2track
            ENG.require(z3.BoolVal(isinstance(tracked, xr.DA) and set(tracked.dims) == {"lat", "lon"}), "post: the tracked field is a horizontal field")
            g = tracked.transpose("lat", "lon").a
            same_shape(g, (n, m), "post: tracked field")
            ENG.require(z3.BoolVal(tuple(tracked.dims) == ("lat", "lon")), "post: rows are latitudes and columns longitudes")
            # writing on the tracked field must not reach the data of the user
            tracked.a[0, 0] = num("anything")
            ENG.require(z3.BoolVal(D._ver == ver), "frame: the tracked field shares no memory with the data of the user")
            i, j = index("i", n), index("j", m)

            def snap(a, b):
                v = D.at(*[{"time": t, "lat": a, "lon": b}[d] for d in dims])
                return core.ite(SB(okof(v)), S(real(v)), S(z3.RealVal(0))) if nan else v
            s, v = snap(i, j), g.at(i, j)
            if filt is None:
                ENG.assume(z3.Not(z3.And(i.t == 0, j.t == 0)))      # the node written above
                ENG.require(z3.BoolVal(not calls), "post: no average without a filter")
                ENG.require(z3.And(okof(v) == okof(s), z3.Implies(okof(s), real(v) == real(s))), "post: the snapshot itself", assume=False)
                return
            ENG.assume(z3.Not(z3.And(i.t == 0, j.t == 0)))
            if ftype == "convolution":
                if len(calls) != 1:
                    raise Unsupported("convolve was called %d times" % len(calls))
                x, kk, opts = calls[0]
                for o, w in opts.items():
                    ENG.require(z3.BoolVal(o in DEFAULTS and (w == DEFAULTS[o] if not isinstance(w, S) else False)), "pre of convolve: option %s" % o)
                tr = core.same(x.shape[0], m) and core.same(x.shape[1], n)
                a = x.at(j, i) if tr else x.at(i, j)
                same_shape(x, (m, n) if tr else (n, m), "pre of convolve: array")
                ENG.require(z3.And(okof(a) == okof(s), z3.Implies(okof(s), real(a) == real(s))), "pre of convolve: the treated snapshot", assume=False)
                K = term(kk.shape[0])
                if kk.ndim != 2:
                    raise Unsupported("kernel of %d dimensions" % kk.ndim)
                ENG.require(term(kk.shape[1]) == K, "pre of convolve: square kernel")
                ENG.require(K == z3.If(kernel.t % 2 == 0, kernel.t + 1, kernel.t), "pre of convolve: odd size of the kernel")
                p, q, r, u = index("p", kk.shape[0]), index("q", kk.shape[1]), index("r", kk.shape[0]), index("u", kk.shape[1])
                ENG.require(z3.And(real(kk.at(p, q)) == real(kk.at(r, u)), real(kk.at(p, q)) > 0), "pre of convolve: equal weights", assume=False)
                f = st["F"].at(i, j)
                ENG.require(z3.And(okof(v) == z3.And(okof(s), okof(f)), z3.Implies(okof(v), real(v) == real(s) - real(f))), "post: snapshot minus its average", assume=False)
            else:
                # mean along x of the row, along y of the column
                line = Arr((m,), lambda k: snap(i, k[0]), "f") if ftype == "meridional" else Arr((n,), lambda k: snap(k[0], j), "f")
                mean = A.nanmean(line)
                ENG.require(z3.BoolVal(not calls), "post: no convolution")
                ENG.require(z3.And(okof(v) == z3.And(okof(s), okof(mean)), z3.Implies(okof(v), real(v) == real(s) - real(mean))), "post: snapshot minus its mean along %s" % ("x" if ftype == "meridional" else "y"), assume=False)
        return body
    lay3 = [("time", "lat", "lon"), ("lat", "time", "lon"), ("time", "lon", "lat"), ("lon", "lat", "time"), ("lon", "time", "lat"), ("lat", "lon", "time")]
    lay2 = [("lat", "lon"), ("lon", "lat")]
    for dims in lay3 + lay2:
        for nan in (False, True):
            V.explore("_detect_snapshot %s nan=%s no filter" % ("/".join(dims), nan), make(dims, nan, None, "convolution"))
            for ftype in ("convolution", "meridional", "zonal"):
                V.explore("_detect_snapshot %s nan=%s %s" % ("/".join(dims), nan, ftype), make(dims, nan, "space", ftype))
