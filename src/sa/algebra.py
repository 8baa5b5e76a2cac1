"""Identities between real functions given as terms: is a term identically zero; its formal derivative; its power series.

Terms are polynomials (negative exponents allowed) over inputs and the functions sin, cos, sqrt, atan2, asin, acos.  The zero
test brings a term over a common denominator and expands angles over a common base; it never evaluates anything at a point."""
from fractions import Fraction
from math import gcd
from .terms import *
from .eigen import trig, sqrt

MAXTERMS = 60000


class TooHard(Exception):
    pass


def lcm(a, b):
    return a * b // gcd(a, b)


def trigatoms(t):
    return {x for x in subterms(t) if x.op == "fn1" and x.args[0] in ("sin", "cos")}


def angle_basis(ts):
    """common denominators of every angle monomial used in the given terms"""
    den = {}
    for t in ts:
        for x in trigatoms(t):
            for m, c in as_poly(x.args[1]).items():
                den[m] = lcm(den.get(m, 1), c.denominator)
    return den


def expand_angle(p, den):
    """(sin, cos) of the angle with coefficients p over the basis monomials m/den"""
    s, c = ZERO, ONE
    for m, k in sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])):
        d = den.get(m, k.denominator)
        base = norm({m: Fraction(1, d)})
        n = int(k * d)
        bs, bc = trig("sin", base), trig("cos", base)
        if n < 0:
            bs, n = neg(bs), -n
        ms, mc = ZERO, ONE
        for _ in range(n):
            ms, mc = add(mul(ms, bc), mul(mc, bs)), sub(mul(mc, bc), mul(ms, bs))
        s, c = add(mul(s, mc), mul(c, ms)), sub(mul(c, mc), mul(s, ms))
    return s, c


def expand_trig(t, den):
    """rewrite every sin and cos over the base angles"""
    m = {}
    for x in trigatoms(t):
        p = as_poly(x.args[1])
        if len(p) == 1:
            (mm, k), = p.items()
            if k == Fraction(1, den.get(mm, 1)):
                continue
        s, c = expand_angle(p, den)
        m[x] = s if x.args[0] == "sin" else c
    return substpoly(t, m) if m else t


def substpoly(t, m):
    return subst(t, m)


def clear(p):
    """multiply a polynomial by its denominators until it has none; every denominator is assumed nonzero"""
    for _ in range(200):
        worst = None
        for m in p:
            for a, e in m:
                if e < 0 and (worst is None or e < worst[1] or (e == worst[1] and rank(a) > rank(worst[0]))):
                    worst = (a, e)
        if worst is None:
            return p
        a, e = worst
        k = -e
        q = {}
        pw = [{(): Fraction(1)}]
        ap = as_poly(a) if a.op == "poly" else {((a, 1),): Fraction(1)}
        for m, c in p.items():
            ex = next((f for b, f in m if b is a), 0) + k
            rest = tuple((b, f) for b, f in m if b is not a)
            while len(pw) <= ex:
                pw.append(p_mul(pw[-1], ap))
            for m2, c2 in (p_mul({rest: c}, pw[ex]) if ex else {rest: c}).items():
                v = q.get(m2, 0) + c2
                if v:
                    q[m2] = v
                else:
                    q.pop(m2, None)
            if len(q) > MAXTERMS:
                raise TooHard("%d terms" % len(q))
        p = q
    raise TooHard("denominators")


def rank(a):
    """nested denominators go first"""
    return a.id


def is_zero(t, assume=()):
    """identically zero wherever it is defined"""
    if t is ZERO:
        return True
    if t.op == "num":
        return False
    t = prepare(t)
    p = dict(as_poly(t))
    p = reduce(clear(p))
    if not p:
        return True
    # positive powers of polynomial atoms left by the denominators
    for _ in range(20):
        if not any(a.op == "poly" and e > 0 for m in p for a, e in m):
            break
        q = {}
        for m, c in p.items():
            r = {tuple((a, e) for a, e in m if not (a.op == "poly" and e > 0)): c}
            for a, e in m:
                if a.op == "poly" and e > 0:
                    for _ in range(e):
                        r = p_mul(r, as_poly(a))
            q = p_add(q, r)
        p = reduce(clear(q))
    return not p


def prepare(t):
    """roots and angles in a common form"""
    for _ in range(6):
        den = angle_basis([t])
        u = expand_trig(t, den)
        u = rootforms(u)
        if u is t:
            return t
        t = u
    return t


def rootforms(t):
    """sqrt(p) with arguments in normal form: equal radicands become one atom, squares come out of the root"""
    m = {}
    for x in subterms(t):
        if x.op == "fn1" and x.args[0] == "sqrt":
            a = x.args[1]
            b = prepare(a) if a.op in ("poly",) else a
            pb = as_poly(b)
            if any(e < 0 for mm in pb for _, e in mm):
                # sqrt(n/d) = sqrt(n*d)/d for d>0 is only safe for squares; leave it
                pass
            if b is not a or x not in RULES:
                m[x] = sqrt(b)
        elif x.op == "fn1" and x.args[0] in ("sin", "cos"):
            trig("cos", x.args[1])    # knows its square
    return subst(t, m) if m else t


# ---------------------------------------------------------------- derivatives
def deriv(t, x, memo=None):
    """formal derivative of a term without gates with respect to the atom x"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t is x:
        r = ONE
    elif t.op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            for i, (a, e) in enumerate(m):
                da = deriv(a, x, memo)
                if da is ZERO:
                    continue
                rest = tuple((b, f if j != i else e - 1) for j, (b, f) in enumerate(m))
                rest = tuple((b, f) for b, f in rest if f)
                r = add(r, mul(norm({rest: c * e}), da))
    elif t.op == "num":
        r = ZERO
    elif not contains(t, lambda y: y is x):
        r = ZERO
    elif t.op == "fn1":
        n, a = t.args[0], t.args[1]
        da = deriv(a, x, memo)
        if n == "sin":
            r = mul(trig("cos", a), da)
        elif n == "cos":
            r = neg(mul(trig("sin", a), da))
        elif n == "sqrt":
            r = mul(da, mul(num(Fraction(1, 2)), inv(t)))
        elif n == "acos":
            r = neg(mul(da, inv(sqrt(sub(ONE, mul(a, a))))))
        elif n == "asin":
            r = mul(da, inv(sqrt(sub(ONE, mul(a, a)))))
        elif n == "atan":
            r = mul(da, inv(add(ONE, mul(a, a))))
        elif n == "atan2":
            b = t.args[2]
            db = deriv(b, x, memo)
            r = mul(sub(mul(b, da), mul(a, db)), inv(add(mul(a, a), mul(b, b))))
        else:
            raise TooHard("derivative of " + n)
    else:
        raise TooHard("derivative of " + t.op)
    memo[t] = r
    return r


# ---------------------------------------------------------------- power series
class Series:
    """Laurent series in one variable with term coefficients: sum c[k] x^k for k < N"""


def series(t, x, N, memo=None):
    """coefficients {k: term} of t around x = 0 up to x^(N-1); x an atom taken as positive"""
    if memo is None:
        memo = {}
    key = t
    r = memo.get(key)
    if r is not None:
        return r
    if t is x:
        r = {1: ONE}
    elif t.op == "num" or not contains(t, lambda y: y is x):
        r = {0: t} if t is not ZERO else {}
    elif t.op == "poly":
        r = {}
        for m, c in t.args[0]:
            s = {0: num(c)}
            # negative powers lower the order: work with margin
            for a, e in m:
                f = series(a, x, N + 8, memo)
                if e < 0:
                    f, e = s_inv(f, N + 8), -e
                for _ in range(e):
                    s = s_mul(s, f, N + 8)
            for k, v in s.items():
                w = add(r.get(k, ZERO), v)
                r[k] = w
        r = {k: v for k, v in r.items() if v is not ZERO and k < N + 8}
    elif t.op == "fn1":
        n = t.args[0]
        f = series(t.args[1], x, N + 8, memo)
        f = {k: v for k, v in f.items() if v is not ZERO}
        if n in ("sin", "cos", "asin") :
            if f and min(f) <= 0:
                raise TooHard("series of %s at a nonzero point" % n)
            r = s_compose(TAYLOR[n](N + 8), f, N + 8)
        elif n == "sqrt":
            r = s_sqrt(f, N + 8)
        elif n == "acos":
            # near 1: handled by the caller through the angle itself
            raise TooHard("series of acos")
        else:
            raise TooHard("series of " + n)
    else:
        raise TooHard("series of " + t.op)
    memo[key] = r
    return r


def s_mul(a, b, N):
    r = {}
    for i, p in a.items():
        for j, q in b.items():
            if i + j < N:
                r[i + j] = add(r.get(i + j, ZERO), mul(p, q))
    return {k: v for k, v in r.items() if v is not ZERO}


def s_inv(a, N):
    a = {k: v for k, v in a.items() if v is not ZERO}
    if not a:
        raise TooHard("division by zero series")
    o = min(a)
    c = inv(a[o])
    # 1/(x^o a0 (1+u))
    r = {0: ONE}
    u = {k - o: neg(mul(v, c)) for k, v in a.items() if k != o}
    pw = {0: ONE}
    for _ in range(N + abs(o) + 2):
        pw = s_mul(pw, u, N + abs(o) + 1)
        if not pw:
            break
        for k, v in pw.items():
            r[k] = add(r.get(k, ZERO), v)
    return {k - o: mul(v, c) for k, v in r.items() if v is not ZERO}


def s_compose(co, f, N):
    r = {}
    pw = {0: ONE}
    for k, c in enumerate(co):
        if c:
            for j, v in pw.items():
                r[j] = add(r.get(j, ZERO), mul(num(c), v))
        pw = s_mul(pw, f, N)
        if not pw:
            break
    return {k: v for k, v in r.items() if v is not ZERO}


def s_sqrt(f, N):
    if not f:
        return {}
    o = min(f)
    if o % 2:
        raise TooHard("root of an odd order")
    a = sqrt(f[o])
    if f[o].op == "poly" and len(f[o].args[0]) == 1:
        (m, c), = f[o].args[0]
        if all(e % 2 == 0 for _, e in m) and sqrt(num(c)).op == "num":
            pass
    c = inv(f[o])
    u = {k - o: mul(v, c) for k, v in f.items() if k != o}
    co, b = [], Fraction(1)
    for k in range(N + 1):
        co.append(b)
        b = b * (Fraction(1, 2) - k) / (k + 1)
    r = s_compose(co, u, N)
    return {k + o // 2: mul(v, a) for k, v in r.items()}


def _sin(N):
    r, f = [], 1
    for k in range(N):
        f = f * k if k else 1
        r.append(Fraction((-1) ** (k // 2), f) if k % 2 else Fraction(0))
    return r


def _cos(N):
    r, f = [], 1
    for k in range(N):
        f = f * k if k else 1
        r.append(Fraction((-1) ** (k // 2), f) if k % 2 == 0 else Fraction(0))
    return r


def _asin(N):
    r = [Fraction(0)] * N
    c = Fraction(1)
    for k in range(1, N, 2):
        r[k] = c / k
        c = c * Fraction(k, k + 1)
    return r


TAYLOR = {"sin": _sin, "cos": _cos, "asin": _asin}
