"""Contract models of tables (pandas): a DataFrame here is a list of records."""
from . import core
from .core import ENG, Unsupported, SB
from .shims import Lazy


class DataFrame:
    _table = True

    def __init__(s, data=None, index=None, columns=None):
        if isinstance(data, dict) and all(isinstance(v, (list, tuple)) and not v for v in data.values()):
            s.rows = []
            s.index_names = (None,)
        elif isinstance(data, dict) and isinstance(index, (list, tuple)) and len(index) == 1:
            s.rows = [dict(data, **{"<index>": index[0]})]
            s.index_names = (None,)
        elif data is None:
            s.rows = []
            s.index_names = (None,)
        else:
            raise Unsupported("a DataFrame of these data")
        s.sources = []

    @property
    def empty(s):
        return len(s.rows) == 0

    def __len__(s):
        return len(s.rows)

    def set_index(s, names, **k):
        r = DataFrame()
        r.rows = list(s.rows)
        r.index_names = tuple(names) if isinstance(names, (list, tuple)) else (names,)
        return r

    @staticmethod
    def from_dict(d, **k):
        t = DataFrame()
        t.rows = [dict(d)]
        t.index_names = (None,)
        return t

    def reset_index(s, *a, **k):
        r = DataFrame()
        r.rows = list(s.rows)
        r.index_names = (None,)
        return r


def concat(ts, *a, **k):
    r = DataFrame()
    for t in ts:
        if not isinstance(t, DataFrame):
            raise Unsupported("concat of %s" % type(t).__name__)
        r.rows = r.rows + t.rows
        r.index_names = t.index_names
    return r


def make():
    return Lazy("pandas", DataFrame=DataFrame, concat=concat)
