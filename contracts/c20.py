"""C20: contracts of time_tracking (its loop), store_snapshot and Printer.

Snapshots are arbitrary tables (or no table at all); linking is a function of the tables it is given."""
from contracts.util import *
from contracts.linking import KEYS
from contracts.c17 import NUM
from engine import tables as TB, xr
from engine.shims import Lazy

TABLE = z3.DeclareSort("Tracks")
FIRST = z3.Function("first_tracks", I, TABLE)
LINK = z3.Function("linked", TABLE, I, I, TABLE)
LEN = z3.Function("tracks_in", TABLE, I)


class Tracks:
    """the table of tracks made so far; only linking looks into it"""
    _table = True

    def __init__(s, g):
        s.g = g

    empty = False

    @property
    def index(s):
        n = S(LEN(s.g))
        ENG.assume(n.t >= 1)
        lv = NS(_len=lambda: n, size=n, nunique=lambda: n)
        return NS(levels=[lv] * 3, unique=lambda *a, **k: lv, get_level_values=lambda *a: NS(nunique=lambda: n, unique=lambda: lv))

    def _len(s):
        return s.index.levels[0]._len()

    def _veq(s, o):
        return s.g == o.g if isinstance(o, (Tracks, Expect)) else z3.BoolVal(False)

    def __getattr__(s, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported("table of tracks: %s" % k)


class Expect:
    """what the table of tracks is after snapshot t"""

    def __init__(s, g, t, fresh, snap):
        s.g, s.t, s.fresh, s.snap = g, t, fresh, snap

    def _veq(s, v):
        if isinstance(v, Tracks):
            return s.g == v.g
        if isinstance(v, TB.DataFrame) and v.cols and "<tag>" in v.cols:
            return And(s.fresh, is_snapshot(v, s.snap, s.t))
        return z3.BoolVal(False)


def is_snapshot(tab, snap, t, names=KEYS, order=True):
    """the table holds the records of the snapshot, labelled with its time"""
    if not isinstance(tab, TB.DataFrame) or "<tag>" not in tab.cols:
        return FALSE
    if names is not None and sorted(str(l.name) for l in tab._levels) != sorted(names):
        return FALSE
    a, b = S(A.gvar("a")), S(A.gvar("b"))
    with A.pure():
        ia, ib = tab.rows.inside(a), tab.rows.inside(b)
        ta, tb = term(tab.cols["<tag>"](a)), term(tab.cols["<tag>"](b))
        r = S(ta)
        cs = [And(ta >= 0, ta < snap.n.t, snap.found(ta))]
        for c in ("identifier", "index", "time"):
            v = tab._col(c) if c in tab.cols or c in [l.name for l in tab._levels] else None
            if v is None:
                return FALSE
            cs.append(term(v(a)) == (term(t) if c == "time" else term(snap.fn[c](r))))
        for c in NUM:
            if c not in tab.cols:
                return FALSE
            cs.append(real(tab.cols[c](a)) == real(snap.fn[c](r)))
        if set(tab.cols) - set(NUM) - {"<tag>", "time", "identifier", "index"}:
            return FALSE
        every = z3.ForAll([b.t], z3.Implies(And(b.t >= 0, b.t < snap.n.t), Or(And(ib, tb == b.t), tab.rows.exists(lambda x: term(tab.cols["<tag>"](x)) == b.t))))
        out = [z3.ForAll([a.t], z3.Implies(ia, And(*cs))), z3.ForAll([a.t, b.t], z3.Implies(And(ia, ib, a.t != b.t), ta != tb)), every]
        if order:
            less = TB.lexless([tab._col(c)(b) for c in KEYS], [tab._col(c)(a) for c in KEYS])
            out.append(z3.ForAll([a.t, b.t], z3.Implies(And(ia, ib, tab.rows.before(a, b)), Not(less))))
    return And(*out)


def run(V):
    V.functions |= {"trackeddy.trackeddy.TrackEddy.time_tracking", "trackeddy.utils.store_snapshot", "trackeddy.printfunc.Printer.timepercentprint"}
    V.assumed.add("pandas: DataFrame.to_csv, to_json and to_hdf write the table to the named file; column assignment, reset_index, set_index, sort_index as modelled in engine/tables.py")
    V.assumed.add("track_online by its contracts (C18, C19): a function of the tables, the time and ntimes")
    loop(V)
    printer(V)


def snapshot_at(t, FN):
    """the table _detect_snapshot gives for snapshot t (sorted by identifier and vertex)"""
    n = S(FN["n"](term(t)))
    ENG.assume(n.t >= 1)
    fn = {c: (lambda r, c=c: S(FN[c](term(t), term(r)))) for c in NUM + ("identifier", "index")}
    fn["<tag>"] = lambda r: S(term(r))
    idf, ix = fn["identifier"], fn["index"]
    ENG.assume(A.forall(n, lambda r: And(idf(r).t >= 0, ix(r).t >= 0)))
    return NS(n=n, fn=fn, found=lambda r: TRUE)


def make_table(s):
    return TB.table(s.n, {c: s.fn[c] for c in NUM + ("<tag>",)}, [(c, s.fn[c]) for c in ("identifier", "index")])


def loop(V):
    import os.path as P
    paths = Lazy("os.path", **{k: getattr(P, k) for k in ("join", "normpath", "split", "basename", "dirname", "sep", "splitext")})
    L = V.loader(shims={"pandas": TB.make(), "os": Lazy("os", path=paths, sep="/"), "os.path": paths})
    mod = L.load("trackeddy.trackeddy")
    utils = L.load("trackeddy.utils")
    T = mod.TrackEddy
    st = {}

    def writer(kind):
        def write(self, path=None, *a, **k):
            bad = {"to_csv": {"index", "columns", "header", "mode", "index_label", "na_rep", "float_format", "compression"}, "to_json": {"orient", "index", "lines", "mode"},
                   "to_hdf": {"mode", "append"}}[kind]
            if a or any(x in bad for x in k):
                raise Unsupported("options of %s" % kind)
            if kind == "to_hdf" and "key" not in k:
                raise TypeError("NDFrame.to_hdf() missing 1 required positional argument: 'key'")
            if not isinstance(path, str):
                raise Unsupported("%s without a path" % kind)
            st["events"].append((kind, self, path))
        return write
    for kind in ("to_csv", "to_json", "to_hdf"):
        setattr(TB.DataFrame, kind, writer(kind))

    def detect(self, time, levels=None, *a, **k):
        if a or k or not ENG.loopstack:
            raise Unsupported("_detect_snapshot with other arguments, or outside a loop")
        time = core.unwrap0(time)
        ENG.require(z3.BoolVal(levels is st["levels"]), "the levels given are those searched", assume=False)
        st["events"].append(("detect", time, None))
        if ENG.decide(st["none"](term(time))):
            return TB.DataFrame({"": []})
        return make_table(snapshot_at(time, st["FN"]))

    def online(tracks, current, time=None, ntimes=None, **k):
        if k:
            raise Unsupported("track_online with other arguments")
        time = core.unwrap0(time)
        st["events"].append(("link", time, None))
        s = st["now"]
        if isinstance(tracks, TB.DataFrame):
            ENG.require(FALSE, "pre of track_online: there are tracks", assume=False)
            raise core.PathEnd()
        if not isinstance(tracks, Tracks):
            raise Unsupported("track_online of something else than a table")
        ENG.require(term(time) == st["t"].t, "pre of track_online: the time of the snapshot", assume=False)
        ENG.require(z3.BoolVal([l.name for l in current._levels] == list(KEYS)), "pre of track_online: index of the snapshot", assume=False)
        ENG.require(is_snapshot(current, s, st["t"], order=False), "pre of track_online: the records of the snapshot, labelled with its time", assume=False)
        return Tracks(LINK(tracks.g, term(time), term(core.unwrap0(ntimes))))

    class Printer:
        def timepercentprint(self, maxv, step, i, neddies):
            ENG.require(And(term(maxv) >= 1, term(step) == 1, term(i) >= 0), "pre of timepercentprint", assume=False)

        def printtextoneline(self, string):
            pass
    mod._detect_nearest = None
    T._detect_snapshot, mod.track_online, mod.Printer = detect, online, Printer

    def case(given, on, fmt):
        def body():
            st.clear()
            t0, nt = count("t0", 0), count("times", 1)
            end = count("tf", 1) if given else nt
            ENG.assume(And(t0.t < end.t, end.t <= nt.t))
            ntimes = count("ntimes", 0)
            st["none"] = ENG.fresh_fn("no_eddies", I, z3.BoolSort())
            st["FN"] = {c: ENG.fresh_fn("found_" + c, I, I, R) for c in NUM}
            st["FN"].update({c: ENG.fresh_fn("found_" + c, I, I, I) for c in ("identifier", "index")}, n=ENG.fresh_fn("found_rows", I, I))
            st["levels"] = array("levels", (count("nlevels", 0),))
            st["events"] = []
            self = object.__new__(T)
            field = xr.DA(nanarray("field", (nt, count("rows", 2), count("cols", 2))), ("time", "lat", "lon"), name="ssh")
            times = xr.DA(array("time", (nt,)), ("time",), name="time")
            self.__dict__.update(Dataset=xr.Dataset({"ssh": field}, {"time": times}), rawdata=field, coords={"time": "time", "x": "lon", "y": "lat"}, filter="space",
                                 out_path="/out put/", out_format=fmt)
            J, HAS = ENG.fresh_fn("tracks", I, TABLE), ENG.fresh_fn("any_found", I, z3.BoolSort())
            ENG.assume(Not(HAS(0)))

            def at(k, base):
                if ENG.decide(HAS(term(k))):
                    return Tracks(J(term(k)))
                return base

            def step(k, base):
                t = t0.t + term(k)
                k = term(k)
                new = Not(st["none"](t))
                ENG.assume(HAS(k + 1) == Or(HAS(k), new))
                g = z3.If(HAS(k), LINK(J(k), t, ntimes.t) if on else J(k), FIRST(t))
                ENG.assume(J(k + 1) == z3.If(new, g, J(k)))
                if ENG.decide(HAS(k + 1)):
                    return Expect(J(k + 1), S(t), And(new, Not(HAS(k))), snapshot_at(S(t), st["FN"]))
                return base

            def form(loop):
                out = {}
                for nm in loop.names:
                    e = loop.locs.get(nm, 0)
                    if e is None or hasattr(e, "_table"):
                        out[nm] = NS(base=lambda locs, e=e: e, at=lambda k, locs, e=e: at(k, e), step=lambda k, locs, e=e: step(k, e))
                if len(out) > 1:
                    raise Unsupported("%d tables are carried by the loop" % len(out))
                return out

            def begin(loop):
                if st["events"]:
                    raise Unsupported("snapshots are analysed before the loop, or in another one")
                if loop.mode == "exit":
                    st["visited"] = loop.k
                else:
                    st["t"] = t0 + loop.k
                    st["now"] = snapshot_at(st["t"], st["FN"])

            def end_(loop, locs):
                ev = st["events"]
                d = [e for e in ev if e[0] == "detect"]
                ENG.require(z3.BoolVal(len(d) == 1), "one snapshot is analysed in each step", assume=False)
                for e in d:
                    ENG.require(term(e[1]) == st["t"].t, "the snapshots are analysed in order, from t0 on", assume=False)
                w = [e for e in ev if e[0].startswith("to_")]
                if on:
                    ENG.require(z3.BoolVal(not w), "no files when linking online", assume=False)
                elif ENG.decide(st["none"](st["t"].t)):
                    ENG.require(z3.BoolVal(not w), "no file for a snapshot without eddies", assume=False)
                else:
                    ENG.require(z3.BoolVal(len(w) == 1), "one file for each snapshot with eddies", assume=False)
                    for kind, tab, path in w:
                        ENG.require(z3.BoolVal(kind == {"csv": "to_csv", "json": "to_json", "hd5": "to_hdf"}[fmt]), "the format of the file", assume=False)
                        named(path, "/out put/identified_eddies_%s." + fmt, st["t"])
                        ENG.require(is_snapshot(tab, st["now"], st["t"], order=False), "the file has the records of the snapshot, labelled with its time", assume=False)
                st["events"] = []
            for k in range(3):
                ENG.loop_specs["trackeddy.trackeddy:TrackEddy.time_tracking#%d" % k] = NS(form=form, begin=begin, end=end_)
            ENG.mark("entry")
            kw = dict(t0=t0, lin_levels=st["levels"], ntimes=ntimes, online_track=on)
            if given:
                kw["tf"] = end
            out = self.time_tracking(**kw)
            ENG.mark("return")
            if "visited" not in st:
                ENG.require(FALSE, "post: every snapshot is analysed", assume=False)
                return
            N = term(st["visited"])
            ENG.require(N == end.t - t0.t, "post: the snapshots from t0 to tf are analysed", assume=False)
            if not on:
                return
            if isinstance(out, Tracks):
                ENG.require(And(HAS(N), out.g == J(N)), "post: the tracks of all the snapshots")
            else:
                ENG.require(Not(HAS(N)), "post: no tracks only if no snapshot has eddies")
                ENG.require(z3.BoolVal(hasattr(out, "_table") and bool(out.empty)), "post: an empty table if no snapshot has eddies")
        return body
    for given in (True, False):
        for on, fmt in ((True, "csv"), (False, "csv"), (False, "json"), (False, "hd5")):
            V.explore("time_tracking (%s, %s)" % ("tf" if given else "to the end", "linked" if on else fmt), case(given, on, fmt))


def named(path, pattern, t):
    """the path is the pattern, with the number t in five digits"""
    import os
    hits = [(x, v) for x, v in ENG.texts.items() if x in path]
    if len(hits) != 1:
        if not hits:
            ENG.require(FALSE, "the name of the file has the index of the snapshot", assume=False)
            return
        raise Unsupported("the name of the file")
    x, (v, spec) = hits[0]
    if spec not in ("05", "05d"):
        ENG.require(FALSE, "the index of the snapshot has five digits in the name of the file", assume=False)
        return
    ENG.require(term(v) == term(t), "the name of the file has the index of the snapshot", assume=False)
    ENG.require(z3.BoolVal(os.path.normpath(path) == pattern % x), "the path of the file", assume=False)


def printer(V):
    V.assumed.add("time.time() does not decrease")
    st = {}

    def clock():
        v = num("clock", 0)
        if "last" in st:
            ENG.assume(v.t >= st["last"].t)
        st["last"] = v
        return v

    class Out:
        def write(self, text):
            if not isinstance(text, str):
                raise TypeError("write() argument must be str")

        def flush(self):
            pass
    L = V.loader(shims={"time": Lazy("time", time=clock), "sys": Lazy("sys", stdout=Out())})
    mod = L.load("trackeddy.printfunc")

    def body():
        st.clear()
        maxv, i = count("maxv", 1), count("i", 0)
        ENG.mark("entry")
        p = mod.Printer()
        p.timepercentprint(maxv, 1, i, "# of E")
        p.timepercentprint(maxv, 1, i + 1, "# of E")
        ENG.mark("return")
    V.explore("Printer.timepercentprint", body)
