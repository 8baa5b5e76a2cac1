"""Emptiness of a polyhedron: the linear part of the conditions along a path (Fourier-Motzkin over the rationals)."""
from fractions import Fraction
from .terms import as_poly, p_add, p_mul


def constraints(lits):
    """[(coefs, const, strict, origin)] meaning coefs.x + const > 0 (strict) or >= 0; disequalities are returned apart"""
    cs, ne = [], []
    sizes = set()
    for i, (a, pol) in enumerate(lits):
        if a.op not in ("pos", "posr", "eq0"):
            continue
        p = as_poly(a.args[0])
        k = p.get((), Fraction(0))
        v = {m: c for m, c in p.items() if m}
        for m in v:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("size", "it"):
                sizes.add(m)
        n = {m: -c for m, c in v.items()}
        o = frozenset([i])
        if a.op == "eq0":
            if pol:
                cs += [(v, k, False, o), (n, -k, False, o)]
            else:
                ne.append((v, k, o))
        elif pol:
            # integer conditions carry integer coefficients: p > 0 is p >= 1
            cs.append((v, k - 1, False, o) if a.op == "pos" and all(c.denominator == 1 for c in p.values()) else (v, k, True, o))
        else:
            cs.append((n, -k, False, o))
    for m in sizes:
        cs.append(({m: Fraction(1)}, Fraction(0), False, frozenset()))
    return cs, ne


def empty(cs, limit=3000):
    """the origins of an infeasible combination, or None"""
    def bad(c):
        v, k, s, o = c
        return not v and (k < 0 or s and k <= 0)
    for c in cs:
        if bad(c):
            return c[3]
    while True:
        vs = {}
        for v, k, s, o in cs:
            for m, c in v.items():
                u = vs.setdefault(m, [0, 0])
                u[c > 0] += 1
        if not vs:
            return None
        m = min(vs, key=lambda x: (vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1], x[0][0].id))
        up = [c for c in cs if c[0].get(m, 0) > 0]
        dn = [c for c in cs if c[0].get(m, 0) < 0]
        cs = [c for c in cs if m not in c[0]]
        for v, k, s, o in up:
            for w, l, t, q in dn:
                a, b = v[m], -w[m]
                r = {}
                for x, c in v.items():
                    r[x] = c * b
                for x, c in w.items():
                    r[x] = r.get(x, 0) + c * a
                r = {x: c for x, c in r.items() if c}
                n = (r, k * b + l * a, s or t, o | q)
                if bad(n):
                    return n[3]
                if not r:
                    continue
                cs.append(n)
        if len(cs) > limit:
            return None


def substituted(cs):
    """cs with a variable replaced that p >= 0 and -p >= 0 determine, also inside products; or None"""
    seen = {}
    for v, k, s, o in cs:
        if s or not v:
            continue
        key = frozenset(v.items()), k
        q = seen.get((frozenset((m, -c) for m, c in v.items()), -k))
        seen.setdefault(key, o)
        if q is None:
            continue
        for m, c in sorted(v.items(), key=lambda x: x[0][0][0].id):
            if len(m) != 1 or m[0][1] != 1 or any(a is m[0][0] for n in v if n is not m for a, _ in n):
                continue
            x = m[0][0]
            if not any(a is x and len(n) > 1 for w, _, _, _ in cs for n in w for a, _ in n):
                continue
            e = {n: -d / c for n, d in v.items() if n is not m}
            if k:
                e[()] = -k / c
            out = []
            for w, l, t, r in cs:
                if not any(a is x for n in w for a, _ in n):
                    out.append((w, l, t, r))
                    continue
                p = {(): l} if l else {}
                for n, d in w.items():
                    z = {tuple(y for y in n if y[0] is not x): d}
                    for y in n:
                        if y[0] is x:
                            if y[1] != int(y[1]) or y[1] < 0:
                                return None
                            for _ in range(int(y[1])):
                                z = p_mul(z, e)
                    p = p_add(p, z)
                out.append(({n: d for n, d in p.items() if n and d}, p.get((), Fraction(0)), t, r | o | q))
            return out
    return None


def conflict(lits):
    """indices of literals that cannot hold together, or None"""
    cs, ne = constraints(lits)
    if not cs:
        return None
    o = empty(cs)
    if o is not None:
        return o
    for _ in range(3):
        es = substituted(cs)
        if es is None:
            break
        cs = es
        o = empty(cs)
        if o is not None:
            return o
    for v, k, q in ne[:6]:
        a = empty(cs + [(v, k, True, q)])
        if a is None:
            continue
        b = empty(cs + [({m: -c for m, c in v.items()}, -k, True, q)])
        if b is not None:
            return a | b
    return None
