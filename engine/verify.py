#!/usr/bin/env python3
"""verify.py ID --root DIR --out FILE: generates and discharges the obligations of one property."""
import argparse, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(12000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    import gc
    gc.disable()                # terms are reference counted
    t0 = time.time()
    from engine import core, prove
    from engine.core import ENG
    import z3
    V = Verifier(a.root, a.tier, a.only)
    ENG.deadline = time.time() + (150 if a.tier == "quick" else 900)
    try:
        mod = importlib.import_module("contracts." + a.id.lower())
        mod.run(V)
    except BaseException as e:
        ENG.fail("the contract could be set up", "".join(traceback.format_exception_only(type(e), e))[:500] + core.repo_tb(e) + traceback.format_exc()[-800:])
    tg = time.time()
    prove.discharge_all(V.obls, workers=V.workers, budget=60 if a.tier == "quick" else 300, total=V.total if a.tier == "quick" else 1800)
    out = []
    be = {}
    for o in V.obls:
        out.append({"name": o.name, "func": o.func, "status": o.status, "backend": o.backend, "seconds": round(o.time, 3),
                    "why": (o.why + " " + (o.info or ""))[:3000] if o.status != "proved" else ""})
        if o.status == "proved":
            be[o.backend] = be.get(o.backend, 0) + 1
    for f, n, info in ENG.errors:
        out.append({"name": n, "func": f, "status": "unsupported", "backend": "", "seconds": 0, "why": info[:3000]})
    marks = 0
    for (f, n), r in ENG.reach.items():
        if any(x is True for x in r):
            marks += 1
        elif not any(x is None for x in r):
            out.append({"name": "reachable: " + n, "func": f, "status": "refuted", "backend": "", "seconds": 0, "why": "no path reaches this point: the contract would hold vacuously"})
        else:
            marks += 1
    for f, n in V.expected:
        if (f, n) not in ENG.reach:
            out.append({"name": "reachable: " + n, "func": f, "status": "refuted", "backend": "", "seconds": 0, "why": "no path reaches this point"})
    res = {"id": a.id, "obligations": out, "functions": sorted(V.functions), "trusted": sorted(V.trusted | ENG.assumptions), "dropped": V.dropped,
           "assumptions": sorted(V.assumed), "backends": be, "marks": marks, "z3": z3.get_version_string(),
           "seconds": round(sum(o.time for o in V.obls), 2), "generation_seconds": round(tg - t0, 2), "wall": round(time.time() - t0, 2), "paths": ENG.paths}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f, indent=1)
    if a.v or not a.out:
        bad = [o for o in out if o["status"] != "proved"]
        slow = sorted(out, key=lambda o: -o["seconds"])[:6]
        print("%s: %d/%d obligations, %d paths, %d marks, generation %.1f s, total %.1f s, %s" % (
            a.id, len(out) - len(bad), len(out), ENG.paths, marks, tg - t0, time.time() - t0, be))
        for o in slow:
            if o["seconds"] > 1:
                print("   slow %.1f %s: %s (%s)" % (o["seconds"], o["func"], o["name"], o["backend"]))
        for o in bad[:14]:
            print(" --", o["func"], "|", o["name"], "|", o["status"], "|", o["why"][:1400])


class Verifier:
    """what a contract file uses"""

    def __init__(s, root, tier, only=None):
        s.root, s.tier, s.only = root, tier, only
        s.obls = []
        s.functions = set()
        s.trusted = set()
        s.assumed = set()
        s.expected = []
        s.workers = 4
        s.total = 200
        s.dropped = ["numeric literals become exact rationals", "loops are cut at invariants when their length is symbolic",
                     "library modules are replaced by the contract models of engine/*shim.py", "print output is dropped"]

    def loader(s, overrides=None, shims=None):
        from engine import instr, shims as SH
        sh = SH.default()
        sh.update(shims or {})
        return instr.Loader(s.root, sh, overrides or {})

    def explore(s, func, body, **opts):
        from engine.core import ENG
        if s.only and s.only not in func:
            return []
        old = dict(ENG.opts)
        ENG.opts.update(opts)
        try:
            r = ENG.explore(func, body)
        finally:
            ENG.opts = old
        s.obls += r
        return r


if __name__ == "__main__":
    t = threading.Thread(target=main)
    t.start()
    t.join()
