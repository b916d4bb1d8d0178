#!/usr/bin/env python3
"""seedcheck.py [names...]: which planted bugs the check of their property catches (in copies; -j N in parallel)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    d = tempfile.mkdtemp(prefix="seedcheck")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        os.makedirs(d + "/verif")
        subprocess.run("git -C %s ls-files -co --exclude-standard | grep -v ^seeded/ | tar -C %s -cf - -T - | tar -C %s/verif -xf -" % (V, V, d), shell=True, check=True)
        p = subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (V, name)], cwd=d + "/repo", capture_output=True, text=True)
        if p.returncode:
            return name, "does not apply"
        pid = json.load(open("%s/seeded/%s/meta.json" % (V, name)))["property"]
        p = subprocess.run(["python3", "check.py", pid], cwd=d + "/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
        lines = [l for l in p.stdout.splitlines() if "VIOLATION" in l or "held" in l]
        fails = [l for l in p.stdout.splitlines() if l.strip().startswith(("obligation", "failed"))]
        return name, "rc=%d %s %s" % (p.returncode, " | ".join(lines)[:160], " ".join(fails)[:200])
    finally:
        shutil.rmtree(d)


args = sys.argv[1:]
j = 2
if args and args[0] == "-j":
    j = int(args[1]); args = args[2:]
names = args or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(j) as ex:
    for n, r in ex.map(one, names):
        print(n, r, flush=True)
