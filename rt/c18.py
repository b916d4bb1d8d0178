import linking, tables as T


def gen(rng, i):
    nt = int(rng.integers(2, 9))
    return {"snaps": linking.history(rng, nt), "t0": 0, "tf": nt, "ntimes": int(rng.choice([0, 1, 2, 5]))}


def check(case):
    try:
        r, st = linking.run(case)
    except T.Ambiguous:
        return None, {"ambiguous": 1}
    return r, st
