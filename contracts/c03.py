"""C03: memory (see cwhole.py)."""
from contracts.cwhole import whole


def run(V):
    whole(V, values=False, once=False)
