"""C14: what is recorded (see onelevel.py for the attributes, here for the tables)."""
from contracts.onelevel import one_level
from contracts.util import *
from engine import tables as TB


def run(V):
    one_level(V, record=True)
    V.functions |= {"trackeddy.eddy.Eddy." + f for f in ("__init__", "to_dict", "to_table", "store", "discarded")}
    V.functions.add("trackeddy.decorators.eddy_identifier")
    V.assumed.add("pandas: DataFrame of a dictionary of columns and numbers, from_dict, reset_index and concat as modelled in engine/tables.py")
    emod = V.loader(shims={"pandas": TB.make()}).load("trackeddy.eddy")
    Eddy = emod.Eddy

    def measured(st, full, fitted, extremum):
        """an eddy with the attributes the search gives it (above)"""
        p = count("vertices", 2)
        st.update(p=p, C=array("contour", (p, 2)), level=num("level"), area=num("area"), radius=num("radius"), ep=array("ellipse_params", (3,)), score=num("ellipse_score"),
                  ecc=num("eccentricity"), mean=array("mean_vertex", (2,)), sign=S(ENG.fresh("sign", I)), mx=array("maxima", (3,)), gp=array("gaussian_params", (5,)), gs=num("surface_score"))
        e = Eddy(st["C"], st["level"])
        e.area_eddy, e.radius_eddy, e.contour_center = st["area"], A.asarr(st["radius"]), st["mean"]
        if full:
            e.ellipse_params, e.ellipse_eccen, e.contour_ellipse_error = st["ep"], st["ecc"], st["score"]
        if extremum:
            e.eddy_sign, e.eddy_maxima = st["sign"], st["mx"]
        if fitted:
            e.gaussian_params, e.contour_gaussian_error = st["gp"], st["gs"]
        return e

    def fresh_store(f):
        f.calls, f.df_store = 0, TB.DataFrame({"": []})

    def check(t, r, want):
        for c, v in want.items():
            if c not in t.cols:
                ENG.require(z3.BoolVal(False), "post: column %s of the record" % c, assume=False)
                continue
            got = t.cols[c](r)
            if isinstance(v, str):
                ENG.require(z3.BoolVal(str(core.unwrap0(got)) == v), "post: column %s of the record" % c, assume=False)
            else:
                ENG.require(And(okof(val(got)), real(val(got)) == real(v)), "post: column %s of the record" % c, assume=False)

    def stored(fitted):
        def body():
            st = {}
            e = measured(st, True, fitted, True)
            fresh_store(Eddy.store)
            ENG.mark("entry")
            t = e.store()
            ENG.mark("return")
            if not isinstance(t, TB.DataFrame):
                raise Unsupported("store does not return a table")
            n, slot, place = t.rows.enum()
            ENG.require(term(n) == st["p"].t, "post: one row for each vertex")
            r = index("row", st["p"])
            s = slot(r)
            want = {"contour_path_x": st["C"].at(r, 0), "contour_path_y": st["C"].at(r, 1), "level": st["level"], "area_eddy": st["area"], "radius_eddy": st["radius"],
                    "ellipse_params_a": st["ep"].at(0), "ellipse_params_b": st["ep"].at(1), "ellipse_params_theta": st["ep"].at(2), "contour_ellipse_error": st["score"],
                    "ellipse_eccen": st["ecc"], "contour_x": st["mean"].at(0), "contour_y": st["mean"].at(1), "eddy_sign": st["sign"], "maxima": st["mx"].at(0),
                    "maxima_y": st["mx"].at(1), "maxima_x": st["mx"].at(2), "identifier": 0, "index": r}
            if fitted:
                want.update({"gaussian_params_" + c: st["gp"].at(i) for i, c in enumerate(("x", "y", "sigma_x", "sigma_y", "theta"))})
                want["contour_gaussian_error"] = st["gs"]
            check(t, s, want)
        return body

    def dropped(full, extremum, fitted):
        def body():
            st = {}
            e = measured(st, full, fitted, extremum)
            fresh_store(Eddy.discarded)
            ENG.mark("entry")
            t = e.discarded("a reason")
            ENG.mark("return")
            if not isinstance(t, TB.DataFrame):
                raise Unsupported("discarded does not return a table")
            n, slot, place = t.rows.enum()
            ENG.require(term(n) == 1, "post: one row for a discarded contour")
            want = {"reason": "a reason", "level": st["level"], "area_eddy": st["area"], "radius_eddy": st["radius"], "contour_x": st["mean"].at(0), "contour_y": st["mean"].at(1)}
            if full:
                want.update({"contour_ellipse_error": st["score"], "ellipse_eccen": st["ecc"]})
            if extremum:
                want.update({"eddy_sign": st["sign"], "maxima": st["mx"].at(0), "maxima_y": st["mx"].at(1), "maxima_x": st["mx"].at(2)})
            if fitted:
                want["contour_gaussian_error"] = st["gs"]
            check(t, slot(0), want)
        return body
    for fitted in (True, False):
        V.explore("store, %s a fitted surface" % ("with" if fitted else "without"), stored(fitted))
    for full, extremum, fitted in ((False, False, False), (True, False, False), (True, True, False), (True, True, True)):
        V.explore("discarded (%s)" % ", ".join(n for n, b in (("ellipse", full), ("extremum", extremum), ("surface", fitted)) if b), dropped(full, extremum, fitted))
