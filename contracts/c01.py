"""C01: the vertices are the level crossings (see cwhole.py)."""
from contracts.cwhole import whole


def run(V):
    whole(V, values=True, once=False)
