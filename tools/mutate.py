#!/usr/bin/env python3
"""mutate.py ID FILE OLD NEW [...]: applies the replacement in a scratch copy and runs the contracts of ID (development aid)"""
import shutil, subprocess, sys, tempfile
pid, f = sys.argv[1:3]
d = tempfile.mkdtemp(prefix="mutate")
try:
    shutil.copytree("/repo/trackeddy", d + "/trackeddy")
    p = d + "/trackeddy/" + f
    s = open(p).read()
    for a, b in zip(sys.argv[3::2], sys.argv[4::2]):
        assert a in s, a
        s = s.replace(a, b, 1)
    open(p, "w").write(s)
    r = subprocess.run(["python3-vt", "/verif/engine/verify.py", pid, "-v", "--root", d], capture_output=True, text=True)
    print("\n".join(l[:330] for l in r.stdout.splitlines()[:6]), r.stderr[-300:])
finally:
    shutil.rmtree(d)
