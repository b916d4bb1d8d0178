"""Cases are run in a child process on a build of the extension with
AddressSanitizer (TRACKEDDY_ASAN_SRC); without it, on the plain build."""
import json, os, subprocess, sys
import numpy as np
from common import need, Inapplicable
import contour_common

CHILD = r'''
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import numpy as np
import c03, warnings
warnings.filterwarnings("ignore")
from trackeddy.geometry import extract_contours
seed, first, n = map(int, sys.argv[3:6])
for i in range(first, first + n):
    print(i, flush=True)
    X, Y, z, level = c03.one(np.random.default_rng([seed, i]), i)
    segs, codes = extract_contours(X, Y, z, level)
    assert len(segs) == len(codes), "segments and codes differ in number"
    for s, c in zip(segs, codes):
        assert len(s) == len(c), "codes and vertices differ in number"
    if i % 25 == 7:         # arrays that do not fit are refused; nothing is freed twice
        try:
            extract_contours(X[:, 1:], Y, z, level)
        except Exception:
            pass
print("done", flush=True)
'''
LIMIT = 300
BATCH = 150


def one(rng, i):
    X, Y, z, level = contour_common.field(rng, i)
    if rng.random() < .15:
        ny, nx = int(rng.integers(2, 60)), int(rng.integers(2, 60))
        X, Y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
        z = rng.integers(0, 2, (ny, nx)) * 1.0 if rng.random() < .5 else rng.standard_normal((ny, nx))
        level = .5
    z = z.copy()
    for _ in range(int(rng.integers(0, 5))):
        z[rng.integers(0, z.shape[0]), rng.integers(0, z.shape[1])] = rng.choice([np.nan, np.inf, -np.inf])
    if rng.random() < .05:
        z[:] = rng.choice([np.nan, np.inf, -np.inf, 0.0])
    if rng.random() < .1:
        level = float(rng.choice([np.nan, np.inf, -np.inf, 0.0]))
    return X, Y, z, level


def gen(rng, i):
    return {"seed": int(rng.integers(0, 2**31)), "first": i * BATCH, "n": BATCH}


def check(case):
    need("trackeddy.geometry", "extract_contours")
    import trackeddy
    src = os.path.dirname(os.path.dirname(os.path.abspath(trackeddy.__file__)))
    env = dict(os.environ, PYTHONMALLOC="malloc", OMP_NUM_THREADS="1")
    asan = os.environ.get("TRACKEDDY_ASAN_SRC")
    if asan:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=lib, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1")
        src = asan
    here = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.run([sys.executable, "-c", CHILD, here, src, str(case["seed"]), str(case["first"]), str(case["n"])],
                       env=env, capture_output=True, text=True, timeout=280)
    out = p.stdout.split()
    if p.returncode == 0 and out and out[-1] == "done":
        return None, {"fields": case["n"]}
    last = out[-1] if out else "?"
    desc = ""
    if last.isdigit():
        X, Y, z, level = one(np.random.default_rng([case["seed"], int(last)]), int(last))
        with np.printoptions(threshold=4000):
            desc = "\nlevel %r field %r" % (level, z)
    return "field %s: exit status %s%s\n%s" % (last, p.returncode, desc, p.stderr[-2500:])
