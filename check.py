#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current working tree.

1. copies the package to a scratch directory and builds the C extension there;
2. has the deductive verifier (engine/verify.py) regenerate and discharge the
   obligations of the contracts in contracts/<id>.py from the source of /repo;
3. runs the runtime oracle of the property (rt/<id>.py: the same contract,
   evaluated on generated inputs by the real code) as a search for
   counterexamples to replay; the search is enlarged when an obligation fails;
4. writes evidence/<ID>.json; exit 0, or exit 1 with a VIOLATION line."""
import json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
VT = "python3-vt"
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON_ASSUMPTIONS

T0 = time.time()


def build(scratch, sub, flags):
    dst = os.path.join(scratch, sub)
    shutil.copytree(os.path.join(REPO, "trackeddy"), os.path.join(dst, "trackeddy"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    inc = subprocess.run([VENV, "-c", "import sysconfig,numpy;print(sysconfig.get_paths()['include']);"
                          "print(numpy.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True).stdout.split()
    out = os.path.join(dst, "trackeddy", "_cntr" + inc[2])
    cmd = ["gcc", "-shared", "-fPIC", "-w", "-fno-strict-aliasing", "-I" + inc[0], "-I" + inc[1]] + flags + \
          [os.path.join(dst, "trackeddy", "src", "cntr.c"), "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-3000:]
    return dst, None


def limit():
    os.setsid()


class Pool:
    """child processes, all ended when the check ends"""
    def __init__(self):
        self.procs = []

    def start(self, cmd, env=None, out=None):
        p = subprocess.Popen(cmd, stdout=out or subprocess.DEVNULL, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        self.procs.append(p)
        return p

    def end(self):
        for p in self.procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()


def env_for(scratch):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TMPDIR=scratch,
             HOME=scratch, MPLBACKEND="Agg")
    e.pop("PYTHONPATH", None)
    if os.path.isdir(os.path.join(scratch, "asan")):
        e["TRACKEDDY_ASAN_SRC"] = os.path.join(scratch, "asan")
    return e


def search(pool, pid, scratch, seed, total, workers, seconds, tag):
    """the runtime oracle over cases 0..total-1, spread over processes"""
    per = -(-total // workers)
    jobs = []
    for w in range(workers):
        out = os.path.join(scratch, "rt-%s-%d.json" % (tag, w))
        log = open(out + ".log", "wb")
        cmd = [VENV, os.path.join(HERE, "rt", "run.py"), pid, "--src", os.path.join(scratch, "plain"), "--seed", str(seed),
               "--start", str(w), "--step", str(workers), "--count", str(per), "--seconds", str(seconds), "--out", out]
        jobs.append((pool.start(cmd, env_for(scratch), log), out, seconds))
    return jobs


def gather(jobs):
    res = {"cases": 0, "stats": {}, "failure": None, "inapplicable": None, "errors": [], "samples": [], "nontrivial": set()}
    for p, out, seconds in jobs:
        try:
            p.wait(max(1, seconds + 340))
        except subprocess.TimeoutExpired:
            res["errors"].append("search process did not finish")
            continue
        try:
            d = json.load(open(out))
        except Exception:
            tail = open(out + ".log", "rb").read()[-1500:].decode("utf8", "replace")
            if p.returncode is not None and p.returncode < 0 and res["failure"] is None:
                res["failure"] = {"case": None, "seed": None, "message": "the process running the code was ended by signal %d\n%s" % (-p.returncode, tail)}
            else:
                res["errors"].append("search process failed (%s): %s" % (p.returncode, tail))
            continue
        res["cases"] += d["cases"]
        res["nontrivial"] |= set(d["nontrivial"])
        for k, v in d["stats"].items():
            res["stats"][k] = res["stats"].get(k, 0) + v
        if d["inapplicable"]:
            res["inapplicable"] = d["inapplicable"]
        if d["failure"] and (res["failure"] is None or (d["failure"]["case"] or 0) < (res["failure"]["case"] or 0)):
            res["failure"] = d["failure"]
        if len(res["samples"]) < 2 and d.get("sample"):
            res["samples"].append(d["sample"])
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = CHECKS[pid]
    ev_dir = os.path.join(HERE, "evidence")
    rp_dir = os.path.join(HERE, "replay")
    os.makedirs(ev_dir, exist_ok=True)
    os.makedirs(rp_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="trackeddy-check-")
    pool = Pool()
    try:
        return run(pid, cfg, tier, seed, scratch, pool, ev_dir, rp_dir)
    finally:
        pool.end()
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, cfg, tier, seed, scratch, pool, ev_dir, rp_dir):
    replay = os.path.join(rp_dir, "%s.json" % pid)
    known = [l.strip() for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) if l.startswith("finding: property=%s " % pid)]
    violations = []
    _, err = build(scratch, "plain", ["-O1"])
    if err is None and cfg.get("asan"):
        _, err = build(scratch, "asan", ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"])
    proof = None
    rt = {"cases": 0, "stats": {}, "failure": None, "inapplicable": None, "errors": [], "samples": [], "nontrivial": set()}
    if err is not None:
        violations.append(("the C extension does not compile", {"kind": "build", "output": err}, False))
    else:
        workers = cfg.get("workers", 3)
        n, secs = cfg["quick"] if tier == "quick" else cfg["thorough"]
        jobs = search(pool, pid, scratch, seed, n, workers, secs, "a")
        pj = None
        if cfg.get("contracts"):
            out = os.path.join(scratch, "proof.json")
            log = open(out + ".log", "wb")
            pj = pool.start([VT, os.path.join(HERE, "engine", "verify.py"), pid, "--root", os.path.join(scratch, "plain"), "--out", out,
                             "--tier", tier], dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"), log)
        rt = gather(jobs)
        if pj is not None:
            try:
                pj.wait(720 if tier == "quick" else 3000)
            except subprocess.TimeoutExpired:
                os.killpg(pj.pid, signal.SIGKILL)
                pj.wait()
            try:
                proof = json.load(open(out))
            except Exception:
                tail = open(out + ".log", "rb").read()[-3000:].decode("utf8", "replace")
                proof = {"obligations": [{"name": "the verifier finished", "func": "", "status": "unknown", "why": tail, "seconds": 0, "backend": ""}],
                         "functions": [], "trusted": [], "dropped": [], "seconds": 0}
            bad = [o for o in proof["obligations"] if o["status"] != "proved"]
            if not proof["obligations"]:
                bad = [{"name": "obligations were generated", "func": "", "status": "unknown", "why": "none"}]
            if bad and rt["failure"] is None and not rt["errors"]:
                # counterexample search, enlarged
                for s in (seed + 1000, seed + 2000):
                    left = 600 - (time.time() - T0)
                    if left < 20:
                        break
                    more = gather(search(pool, pid, scratch, s, n * 4, 7, min(90, left), "b%d" % s))
                    rt["cases"] += more["cases"]
                    for k, v in more["stats"].items():
                        rt["stats"][k] = rt["stats"].get(k, 0) + v
                    rt["nontrivial"] |= more["nontrivial"]
                    rt["errors"] += more["errors"]
                    if more["failure"]:
                        rt["failure"] = more["failure"]
                        break
            if bad and rt["failure"] is None:
                violations.append((
                    "obligation not discharged: " + "; ".join("%s: %s [%s]" % (o["func"], o["name"], o["status"]) for o in bad[:5]),
                    {"kind": "obligation", "failed": bad[:50]}, False))
            elif bad:
                rt["failure"]["failed_obligations"] = bad[:20]
        if rt["failure"] is not None:
            f = rt["failure"]
            violations.insert(0, (f["message"], {"kind": "input", "failure": f,
                              "replay_cmd": "%s %s %s --src <copy of /repo with the extension built> --seed %s --case %s --out out.json" % (
                                  VENV, os.path.join(HERE, "rt", "run.py"), pid, f.get("seed"), f.get("case"))}, True))
        elif rt["errors"]:
            violations.append(("search process failed: " + rt["errors"][0][-300:], {"kind": "search", "errors": rt["errors"]}, False))
        elif rt["inapplicable"] and not (proof and not bad):
            # neither executed nor proved: nothing was decided
            violations.append(("the interface the contract is about is gone: " + rt["inapplicable"], {"kind": "interface", "why": rt["inapplicable"]}, False))
    # ---------------------------------------------------------------- evidence
    cov = {"evaluations": rt["cases"], "distinct_nontrivial": len(rt["nontrivial"]),
           "rule": cfg["rule"], "samples": rt["samples"], "counters": rt["stats"]}
    assumptions = list(COMMON_ASSUMPTIONS) + list(cfg.get("assumptions", []))
    if proof is not None:
        ob = proof["obligations"]
        cov.update({"obligations": len(ob), "discharged": sum(o["status"] == "proved" for o in ob),
                    "checker_cmd": "%s engine/verify.py %s --root /repo (z3 %s)" % (VT, pid, proof.get("z3", "")),
                    "trusted_base": proof.get("trusted", []),
                    "functions_under_contract": proof.get("functions", []),
                    "by_backend": proof.get("backends", {}), "solver_seconds": proof.get("seconds", 0),
                    "vacuity_marks_reached": proof.get("marks", 0),
                    "bounded": cfg.get("bounded", []),
                    "source_changes_for_verification": proof.get("dropped", []),
                    "obligation_list": [{k: o.get(k) for k in ("func", "name", "status", "backend", "seconds")} for o in ob][:400]})
        assumptions += proof.get("assumptions", [])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in known:
        print("KNOWN-FINDING: " + k[len("finding: "):])
    if violations:
        what, body, found = violations[0]
        with open(replay, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "what": what, **body}, f, indent=1, default=str)
        print("%s: %s" % (pid, what))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if found else " no-failing-input-found"))
        return 1
    print("%s: held; %d cases, %s, %.1f s" % (pid, rt["cases"], "%d/%d obligations" % (cov["discharged"], cov["obligations"])
                                              if proof else "no proof part", time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
