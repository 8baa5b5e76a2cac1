"""Hash-consed value terms with gates (ordered decision nodes) and polynomial arithmetic.

A term is a leaf/operator application or a decision node ite(atom, hi, lo) with atoms ordered by creation:
a multi-terminal decision diagram, so that equal functions of the same atoms are the same object."""
from fractions import Fraction

LIMIT = 4000


class T:
    __slots__ = ("op", "args", "id", "_mu")

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, m):
        return self


_tab = {}
_n = [0]


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
VOID = mk("void")
NULL = mk("null")


def num(x):
    return mk("num", Fraction(x))


ZERO, ONE = num(0), num(1)


def boolc(b):
    return TRUE if b else FALSE


def string(s):
    return mk("str", s)


# ---------------------------------------------------------------- decision nodes
_ite = {}


def node(a, hi, lo):
    if a.op == "eq0" or a.op == "eq":
        k = rivals(a)
        if hi.op == "ite" and k is not None and len(k) > 1:
            hi = without(hi, k)
    if hi is lo:
        return hi
    return mk("ite", a, hi, lo)


_rivals, _group, _without = {}, {}, {}


def rivals(a):
    """the conditions that say that the same quantity is some constant: no two of them hold together"""
    if a in _rivals:
        return _rivals[a]
    key = None
    if a.op == "eq0":
        x = a.args[0]
        key = tuple(t for t in x.args[0] if t[0] != ()) if x.op == "poly" else ((((x, 1),), 1),)
    elif a.args[1].op == "str" and a.args[0].op != "str":
        key = ("eq", a.args[0])
    elif a.args[0].op == "str" and a.args[1].op != "str":
        key = ("eq", a.args[1])
    g = None
    if key is not None:
        g = _group.setdefault(key, [])
        g.append(a)
    _rivals[a] = g
    return g


def without(t, g):
    """t where none of the conditions holds"""
    if t.op != "ite":
        return t
    k = (t, id(g), len(g))
    r = _without.get(k)
    if r is None:
        a = t.args[0]
        lo = without(t.args[2], g)
        if (a.op == "eq0" or a.op == "eq") and rivals(a) is g:
            r = lo
        else:
            r = node(a, without(t.args[1], g), lo)
        _without[k] = r
    return r


def atom(t):
    """the decision term of an atomic boolean"""
    if t is TRUE or t is FALSE or t.op == "ite":
        return t
    if t.op == "num":
        return boolc(t.args[0] != 0)
    return node(t, TRUE, FALSE)


BIG = 1 << 60


def topid(t):
    return t.args[0].id if t.op == "ite" else BIG


def cof(t, a, v):
    if t.op == "ite" and t.args[0] is a:
        return t.args[1] if v else t.args[2]
    return t


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        c = atom(c)
        return ite(c, a, b)
    m = min(topid(c), topid(a), topid(b))
    for t in (c, a, b):
        if topid(t) == m:
            v = t.args[0]
            break
    r = node(v, ite(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1)), ite(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0)))
    _ite[k] = r
    return r


def constrain(f, c):
    """f where c holds, in a form that depends only on that (the generalised cofactor)"""
    memo = {}

    def rec(f, c):
        if c is TRUE or c is FALSE or f.op != "ite":
            return f
        k = (f, c)
        r = memo.get(k)
        if r is None:
            a = f.args[0] if topid(f) <= topid(c) else c.args[0]
            c1, c0 = cof(c, a, 1), cof(c, a, 0)
            if c1 is FALSE:
                r = rec(cof(f, a, 0), c0)
            elif c0 is FALSE:
                r = rec(cof(f, a, 1), c1)
            else:
                r = node(a, rec(cof(f, a, 1), c1), rec(cof(f, a, 0), c0))
            memo[k] = r
        return r
    return rec(f, c)


def and_(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, tobool(x), FALSE)
    return r


def or_(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, tobool(x))
    return r


def not_(x):
    return ite(tobool(x), FALSE, TRUE)


def implies(a, b):
    return and_(a, not_(b)) is FALSE


class TooBig(Exception):
    pass


def lift(f, *args):
    """apply f to the leaves of decision terms"""
    if all(not isinstance(a, T) or a.op != "ite" for a in args):
        return f(*args)
    memo = {}
    cnt = [0]

    def rec(xs):
        r = memo.get(xs)
        if r is not None:
            return r
        m = BIG
        v = None
        for x in xs:
            if isinstance(x, T) and x.op == "ite" and x.args[0].id < m:
                m, v = x.args[0].id, x.args[0]
        if v is None:
            cnt[0] += 1
            if cnt[0] > LIMIT:
                raise TooBig()
            r = f(*xs)
        else:
            hi = rec(tuple(cof(x, v, 1) if isinstance(x, T) else x for x in xs))
            lo = rec(tuple(cof(x, v, 0) if isinstance(x, T) else x for x in xs))
            r = ite(node(v, TRUE, FALSE), hi, lo)
        memo[xs] = r
        return r
    return rec(tuple(args))


def tobool(t):
    """any scalar used as a condition"""
    if t is TRUE or t is FALSE:
        return t
    if t.op == "ite":
        return lift(tobool, t)
    if t.op in ("num", "poly") or t.op in NUMERIC:
        return not_(eq(t, ZERO))
    if t.op == "null":
        return FALSE
    if t.op in ("ptr", "str", "fn", "lam"):
        return TRUE
    return node(t, TRUE, FALSE)


STREQ = None
STROPS = {"substr", "str", "cat"}
NUMERIC = {"size", "idiv", "irem", "trunc", "fn1"}


# ---------------------------------------------------------------- polynomials
# ('poly', ((mono, coef), ...)); mono = ((atom, exp), ...) sorted by atom id
def as_poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


RULES = {}   # atom -> (exp, replacement poly): atom**exp rewrites to poly


def norm(p):
    """dict -> term"""
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))))


def mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if not r[m]:
            del r[m]
    return r


def p_mul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mulmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
            if not r[m]:
                del r[m]
    return reduce(r)


def reduce(p):
    if not RULES:
        return p
    again = True
    while again:
        again = False
        for m in list(p):
            for a, e in m:
                r = RULES.get(a)
                if r and e >= r[0]:
                    c = p.pop(m)
                    rest = tuple((b, f) if b is not a else (b, f - r[0]) for b, f in m if not (b is a and f == r[0]))
                    for m2, c2 in p_mul({rest: c}, r[1]).items():
                        p[m2] = p.get(m2, 0) + c2
                        if not p[m2]:
                            del p[m2]
                    again = True
                    break
            if again:
                break
    return p


def add(a, b):
    return lift(lambda x, y: norm(p_add(as_poly(x), as_poly(y))), a, b)


def sub(a, b):
    return lift(lambda x, y: norm(p_add(as_poly(x), as_poly(y), -1)), a, b)


def mul(a, b):
    return lift(lambda x, y: norm(p_mul(as_poly(x), as_poly(y))), a, b)


def neg(a):
    return sub(ZERO, a)


def inv(a):
    def f(x):
        p = as_poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            return norm({tuple((s, -e) for s, e in m): 1 / c})
        if not p:
            return mk("inv", ZERO)
        # content / leading coefficient normalised
        lead = x.args[0][-1][1]
        q = norm({m: c / lead for m, c in p.items()})
        return norm({((q, -1),): 1 / lead})
    return lift(f, a)


def div(a, b):
    return mul(a, inv(b))


def eq(a, b):
    return lift(_eq, a, b)


CONSTOPS = {"num", "bool", "str", "null", "fn", "ptr", "enum"}


def is_num(t):
    return t.op in ("num", "poly") or t.op in NUMERIC or t is TRUE or t is FALSE


def _eq(x, y):
    if x is y:
        return TRUE
    if x.op in ("str", "null", "fn") and y.op in ("str", "null", "fn", "ptr") or x.op == "ptr" and y.op in ("null", "ptr", "str"):
        return FALSE
    if STREQ is not None and (x.op in STROPS or y.op in STROPS):
        r = STREQ(x, y)
        if r is not None:
            return r
    for u, v in ((x, y), (y, x)):
        if u.op in ("strcmp1", "strfind1") and v is ZERO:
            return FALSE
        if u.op == "strcmp" and v is ZERO:
            return _eq(u.args[0], u.args[1])
    if x.op == "iter" and y.op == "iter":
        if x.args[0] is y.args[0]:
            return _eq(x.args[1], y.args[1])
    if is_num(x) or is_num(y):
        p = p_add(as_poly(x), as_poly(y), -1)
        if not p:
            return TRUE
        d = norm(p)
        if d.op == "num" or signed(p):
            return FALSE
        f = rounds(p)
        if f is not None and (f[0] == 1 and 1 + f[1] > 0 or f[0] == -1 and f[1] - 1 < 0):
            return FALSE
        items = d.args[0] if d.op == "poly" else ((((d, 1),), Fraction(1)),)
        lead = items[-1][1]
        d = norm({m: c / lead for m, c in p.items()})
        return node(mk("eq0", d), TRUE, FALSE)
    if x.id > y.id:
        x, y = y, x
    return node(mk("eq", x, y), TRUE, FALSE)


def rounds(p):
    """(sign, r) if p is sign * D + r for the D >= 1 that a counted loop left early had still to go"""
    for m in p:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fin" and m[0][0].args[2] == "it" and abs(p[m]) == 1:
            f = m[0][0]
            L, k = f.args[0], f.args[1]
            c = L.args[2]
            if L.op != "loop" or not (k < len(L.args[3]) and L.args[3][k][0] == "break") or c.op != "ite" or c.args[0].op != "pos":
                return None
            D = as_poly(c.args[0].args[0])
            if c.args[1] is FALSE:
                D = p_add({(): Fraction(1)}, D, -1)
            elif c.args[1] is not TRUE:
                return None
            it = mk("it", L.args[0])
            if any(a is it for q in D for a, e in q if q != ((it, 1),)) or ((it, 1),) not in D:
                return None
            s = D.pop(((it, 1),))
            D = p_add(D, {((f, 1),): s})
            for g in (1, -1):
                r = p_add(p, D, -g)
                if all(q == () for q in r):
                    return g, r.get((), Fraction(0))
            return None
    return None


def lt(a, b, integer=False):
    """a < b"""
    return lift(lambda x, y: _pos(sub(y, x), integer), a, b)


def le(a, b, integer=False):
    return not_(lt(b, a, integer))


def signed(p, weak=False):
    """1: the polynomial over counts is > 0; -1: it is < 0 (weak: <= 0); else 0"""
    for m in p:
        if any(a.op not in ("size", "it") for a, e in m):
            return 0
    c = p.get((), 0)
    if c > 0 and all(v > 0 for v in p.values()):
        return 1
    if all(v < 0 for v in p.values()) and (c < 0 or weak):
        return -1
    return 0


def _pos(d, integer):
    if d.op == "ite":
        return lift(lambda x: _pos(x, integer), d)
    if d.op == "num":
        return boolc(d.args[0] > 0)
    if d.op == "size":
        return not_(eq(d, ZERO))
    p = as_poly(d)
    g = signed(p, True)
    if g == 1:
        return TRUE
    if g == -1:
        return FALSE
    f = rounds(p)
    if f is not None:
        if f[0] == 1 and 1 + f[1] > 0:
            return TRUE
        if f[0] == -1 and f[1] - 1 <= 0:
            return FALSE
    lead = (d.args[0] if d.op == "poly" else ((((d, 1),), Fraction(1)),))[-1][1]
    if integer:
        # scale to coprime integers
        from math import gcd
        den = 1
        for c in p.values():
            den = den * c.denominator // gcd(den, c.denominator)
        p = {m: c * den for m, c in p.items()}
        if lead < 0:
            # p > 0  <=>  not (1 - p > 0)
            q = p_add({(): Fraction(1)}, p, -1)
            return not_(_pos(norm(q), True))
        d = norm(p)
        # c*x > -k  normalisation for a single atom
        nz = {m: c for m, c in p.items() if m}
        if len(nz) == 1:
            (m, c), = nz.items()
            k = p.get((), Fraction(0))
            # c*m + k > 0  <=> m > -k/c <=> m >= floor(-k/c)+1
            b = -((-(-k / c)).__floor__()) if False else (-k / c).__floor__()
            d = norm({m: Fraction(1), (): Fraction(-b)})
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "size" and b == 0:
                return not_(eq(m[0][0], ZERO))
        return node(mk("pos", d), TRUE, FALSE)
    p = {m: c / abs(lead) for m, c in p.items()}
    return node(mk("posr", norm(p)), TRUE, FALSE)


# ---------------------------------------------------------------- traversal
def leaves(t):
    """[(condition, leaf)] of a decision term"""
    out = {}

    def rec(x, c):
        if x.op == "ite":
            a = node(x.args[0], TRUE, FALSE)
            rec(x.args[1], and_(c, a))
            rec(x.args[2], and_(c, not_(a)))
        else:
            out[x] = or_(out.get(x, FALSE), c)
    rec(t, TRUE)
    return [(c, l) for l, c in out.items()]


def leafset(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


def atoms_of(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            if x.args[0] not in out:
                out.append(x.args[0])
            st += [x.args[1], x.args[2]]
    return out


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m, memo=None):
    """replace terms by terms (m: T -> T), rebuilding normal forms"""
    if memo is None:
        memo = {}

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, T):
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            r = ite(tobool(rec(x.args[0])), rec(x.args[1]), rec(x.args[2]))
        elif x.op == "poly":
            r = ZERO
            for mono, c in x.args[0]:
                tt = num(c)
                for a, e in mono:
                    b = rec(a)
                    if e < 0:
                        b, e = inv(b), -e
                    for _ in range(e):
                        tt = mul(tt, b)
                r = add(r, tt)
        elif x.op == "eq0":
            r = eq(rec(x.args[0]), ZERO)
        elif x.op == "eq":
            r = eq(rec(x.args[0]), rec(x.args[1]))
        elif x.op in ("pos", "posr"):
            r = _pos(rec(x.args[0]), x.op == "pos")
        elif x.op in ("loop", "map"):
            # binders of iteration variables
            if x.op == "loop":
                d, outer, inner = x.args[0], x.args[1:2], x.args[2:]
                m2 = {k: v for k, v in m.items() if not (k.op in ("mu", "it", "mu'") and k.args[0] == d)}
            else:
                d, outer, inner = x.args[2].args[0], x.args[:2], x.args[3:]
                m2 = {k: v for k, v in m.items() if k is not x.args[2]}
            o2 = rec(tuple(outer))
            i2 = rec(tuple(inner)) if len(m2) == len(m) else subst(tuple(inner), m2) if m2 else tuple(inner)
            a = (d,) + o2 + i2 if x.op == "loop" else o2 + (x.args[2],) + i2
            r = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x.op, a)
        else:
            a = rec(x.args)
            r = x if all(p is q for p, q in zip(a, x.args)) else rebuild(x.op, a)
        memo[x] = r
        return r
    return rec(t)


REBUILD = {}


def rebuild(op, a):
    if op == "loop":
        return mk(op, *a)
    f = REBUILD.get(op)
    if f is not None:
        return f(*a)
    if any(isinstance(x, T) and x.op == "ite" for x in a):
        try:
            return lift(lambda *xs: mk(op, *xs), *a)
        except TooBig:
            pass
    return mk(op, *a)


def show(t, depth=7):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth - 1) for x in t) + ")"
    if not isinstance(t, T):
        return getattr(t, "q", None) or getattr(t, "n", None) or str(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.args
    if o == "num":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "str":
        return '"%s"' % a[0]
    if o == "poly":
        out = []
        for m, c in a[0][:8]:
            s = "*".join(show(x, depth - 1) + ("^%d" % e if e != 1 else "") for x, e in m)
            out.append((("%s*" % c if c != 1 else "") + s) if m else str(c))
        return " + ".join(out) + (" + …" if len(a[0]) > 8 else "")
    if o == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], depth)
        if a[1] is FALSE and a[2] is TRUE:
            return "not " + show(a[0], depth)
        return "(%s ? %s : %s)" % (show(a[0], depth - 1), show(a[1], depth - 1), show(a[2], depth - 1))
    if o == "var":
        return "%s" % (a[0].name if hasattr(a[0], "name") else a[0])
    if o == "in":
        return str(a[0])
    if o == "F":
        return "%s.%s" % (show(a[0], depth - 1), str(a[1]).split("::")[-1])
    if o == "init":
        return show(a[0], depth)
    if o == "D":
        return "*" + show(a[0], depth - 1)
    if o == "E":
        return "%s[%s]" % (show(a[0], depth - 1), show(a[1], depth - 1))
    if o == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, depth - 1) for x in a[1:]))
    if o == "mut":
        return "%s!(%s)" % (short(a[0]), ", ".join(show(x, depth - 1) for x in a[1:]))
    if o == "eq0":
        return "%s==0" % show(a[0], depth - 1)
    if o in ("pos", "posr"):
        return "%s>0" % show(a[0], depth - 1)
    return "%s(%s)" % (o, ", ".join(show(x, depth - 1) for x in a))


def short(q):
    import re
    q = str(q)
    while "<" in q:
        n = re.sub(r"<[^<>]*>", "", q)
        if n == q:
            break
        q = n
    return "::".join(q.split("::")[-2:])
