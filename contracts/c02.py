"""C02: every crossed edge has one vertex (see cwhole.py)."""
from contracts.cwhole import whole


def run(V):
    whole(V, values=True, once=True)
