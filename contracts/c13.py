"""C13: one verdict for every contour (see onelevel.py)."""
from contracts.onelevel import one_level


def run(V):
    one_level(V, verdict=True)
