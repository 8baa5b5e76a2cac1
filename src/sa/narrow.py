"""Conversions of 64-bit or floating values to types that cannot hold them."""
from .facts import body_nodes
from .vg import bare

WIDE = {"long", "long long", "double", "long double"}          # not size_t: a count of elements
NARROW = {"int", "unsigned int", "short", "unsigned short", "char", "signed char", "unsigned char", "float"}
KINDS = ("FloatingToIntegral", "IntegralCast", "FloatingCast", "IntegralToFloating")


def narrowing(f):
    """(node, from, to) for every such conversion in the body of f, explicit or implicit; constants are left out"""
    for n in body_nodes(f):
        if n.k != "cast" or n.ck not in KINDS or n.e is None:
            continue
        e = n.e
        while e.k in ("paren", "cast") and e.e is not None and bare(e.t or "") == bare(e.e.t or ""):
            e = e.e
        if e.k in ("int", "flt") or e.k == "un" and e.e is not None and e.e.k in ("int", "flt"):
            continue
        a, b = bare(n.e.t or ""), bare(n.t or "")
        if a in WIDE and b in NARROW:
            yield n, a, b
