"""Make and confirm a planted bug from a spec file:  seedtool.py SPEC.py [...]

A spec defines  prop, needs, breaks, edits=[(file, old, new)], demo (python text) and optionally sh.
The change is made in a copy of /repo; the demo must pass before and fail after; the stable tests must pass.
"""
import json, os, re, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(d):
    for f in os.listdir(d + "/trackeddy"):
        if f.startswith("_cntr") and f.endswith(".so"):
            os.unlink(d + "/trackeddy/" + f)
    r = run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], d)
    return r.returncode == 0


def make(spec):
    name = os.path.basename(spec)[:-3]
    g = {}
    exec(open(spec).read(), g)
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        out = "/tmp/seedout/" + name
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/demo.py", "w").write(g["demo"])
        open(out + "/demo.sh", "w").write(g.get("sh", SH))
        os.chmod(out + "/demo.sh", 0o755)
        if not build(r):
            return name, "build before"
        a = run(["bash", out + "/demo.sh"], r, timeout=300)
        if a.returncode:
            return name, "demo fails on the unchanged tree\n" + a.stdout[-1500:]
        for f, old, new in g["edits"]:
            s = open(r + "/" + f).read()
            if s.count(old) != 1:
                return name, "edit of %s matches %d times: %r" % (f, s.count(old), old)
            open(r + "/" + f, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], r).stdout
        open(out + "/patch.diff", "w").write(diff)
        base = run(["git", "diff", "-U0", "HEAD"], r).stdout
        if not build(r):
            return name, "build after"
        try:
            b = run(["bash", out + "/demo.sh"], r, timeout=300)
            if b.returncode == 0:
                return name, "demo passes with the change\n" + b.stdout[-500:]
        except subprocess.TimeoutExpired:
            return name, "demo timeout"
        if "--notest" not in sys.argv:
            x = d + "/r.xml"
            t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--timeout=300", "-p", "randomly", "--randomly-seed=0",
                     "--randomly-dont-reorganize", "-o", "junit_family=xunit2", "--junitxml=" + x], r, timeout=1500)
            json.dump({}, open(d + "/o.json", "w"))
            run([PY, "/opt/vp/results.py", d + "/o.json", "junit:" + x], r)
            res = json.load(open(d + "/o.json"))
            miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"]))
            if miss:
                return name, "stable tests fail: %s" % miss
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        dst = "/verif/seeded/" + name
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return name, "ok: " + b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else "ok"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    for s in sys.argv[1:]:
        if not s.startswith("--"):
            print(*make(s), sep=": ", flush=True)
