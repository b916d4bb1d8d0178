"""run.py ID --src DIR --seed S --start I --count N [--seconds T] --out FILE
   run.py ID --src DIR --seed S --case I --out FILE        (replay of one case)
Runs the oracle of one property on cases I, I+1, ... of one seed."""
import argparse, contextlib, hashlib, pickle, importlib, io, json, os, signal, sys, time, traceback, warnings

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--src", required=True)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--start", type=int, default=0)
ap.add_argument("--step", type=int, default=1)
ap.add_argument("--count", type=int, default=10)
ap.add_argument("--case", type=int, default=None)
ap.add_argument("--seconds", type=float, default=600)
ap.add_argument("--out", required=True)
a = ap.parse_args()
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, a.src)
warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")
import common

res = {"id": a.id, "seed": a.seed, "start": a.start, "step": a.step, "cases": 0, "stats": {},
       "failure": None, "inapplicable": None}


def show(case):
    with np.printoptions(threshold=4000, precision=17, linewidth=160):
        return {k: repr(v) for k, v in case.items()} if isinstance(case, dict) else repr(case)


class Slow(Exception):
    pass


def on_alarm(*x):
    raise Slow("the code under test did not finish within the time limit")


signal.signal(signal.SIGALRM, on_alarm)

try:
    import trackeddy
    assert os.path.realpath(trackeddy.__file__).startswith(os.path.realpath(a.src)), trackeddy.__file__
    mod = importlib.import_module(a.id.lower())
except Exception as e:
    mod = None
    res["failure"] = {"case": None, "message": "the package cannot be imported: " + traceback.format_exc()[-1500:]}

seen = set()
t0 = time.time()
if mod is not None:
    if a.case is not None:
        todo = [a.case]
    else:
        todo = range(a.start, a.start + a.count * a.step, a.step)
    for i in todo:
        if time.time() - t0 > a.seconds:
            res["stats"]["stopped_by_time"] = 1
            break
        rng = np.random.default_rng([a.seed, i, sum(map(ord, a.id)) * 7919 + int(a.id[1:])])
        case = None
        msg = None
        try:
            case = mod.gen(rng, i)
            signal.alarm(int(getattr(mod, "LIMIT", 120)))
            with common.Quiet():
                msg = mod.check(case)
        except common.Inapplicable as e:
            res["inapplicable"] = str(e)
            break
        except Slow as e:
            msg = str(e)
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            here = os.path.dirname(os.path.abspath(__file__))
            if isinstance(e, TypeError) and os.path.dirname(os.path.abspath(tb.tb_frame.f_code.co_filename)) == here \
                    and ("argument" in str(e) or "callable" in str(e)):
                res["inapplicable"] = "the call no longer matches the signature: %s" % e
                break
            msg = "the code raised: " + traceback.format_exc()[-1800:]
        finally:
            signal.alarm(0)
        trivial = isinstance(msg, tuple) and any(msg[1].get(k) for k in ("skipped", "ambiguous"))
        if case is not None and not trivial:
            seen.add(hashlib.blake2b(pickle.dumps(case), digest_size=6).hexdigest())
            if res.get("sample") is None:
                res["sample"] = {"case": i, "input": str(show(case))[:1500]}
        if isinstance(msg, tuple):
            for k, v in msg[1].items():
                res["stats"][k] = res["stats"].get(k, 0) + v
            msg = msg[0]
        res["cases"] += 1
        if msg:
            res["failure"] = {"case": i, "seed": a.seed, "message": msg, "input": show(case)}
            break
res["nontrivial"] = sorted(seen)
res["seconds"] = round(time.time() - t0, 2)
with open(a.out, "w") as f:
    json.dump(res, f)
