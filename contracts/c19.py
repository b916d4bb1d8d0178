"""C19: the candidates track_online hands over to _detect_nearest."""
from contracts.linking import *


def run(V):
    V.functions |= {"trackeddy.utils." + f for f in ("unlink_eddies_in_previous_times", "track_online")}
    V.assumed.add("pandas: reset_index, groupby(...).transform('max'), selection by a mask, set_index as modelled in engine/tables.py")
    mod = V.loader(shims={"pandas": TB.make()}).load("trackeddy.utils")
    st = {}

    def body():
        O = tracks()
        N = snapshot(O.t)
        nt = count("ntimes", 0)
        pred = lambda r: candidate(O, nt, r)

        def nearest(p, n):
            rows_kept(p, O.fn, "candidates", pred, O.n, 1, ("identifier", "index"))
            rows_kept(n, N.fn, "new eddies", lambda r: TRUE, N.n, -1, ("identifier", "index"))
            ENG.require(p.rows.exists(), "pre of _detect_nearest: there are candidates", assume=False)
            ENG.mark("candidates")
            raise core.PathEnd()
        mod._detect_nearest = nearest
        ENG.mark("entry")
        ENG.loop_specs["trackeddy.utils:_rename_eddies_in_time#0"] = NS()
        mod.track_online(O.table, N.table, O.t, nt)
        r = index("some_row", O.n)
        ENG.require(Not(pred(r)), "every candidate is compared with the new eddies", assume=False)
        ENG.mark("no candidates")
    V.explore("track_online: candidates", body)
