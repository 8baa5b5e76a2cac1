"""Arguments of partial functions: every call of asin, acos (and sqrt) reached from the public functions, with the path to it."""
from fractions import Fraction
from . import linear
from .eigen import EigenEngine, Unmodelled, mat, shape
from .facts import Broken, body_nodes
from .mathpairs import cases
from .terms import *

TRIG = ("asin", "acos")
SLACK = Fraction(1, 1000)


def callee(n):
    f = n.f if n.k == "call" else None
    return f.q[5:] if f is not None and f.q and f.q.startswith("std::") else f.q if f is not None else None


class Recorder(EigenEngine):
    def __init__(self, *a, names=TRIG, **k):
        EigenEngine.__init__(self, *a, **k)
        self.names = names
        self.cur = None
        self.seen = []

    def callx(self, n, st, fr):
        old, self.cur = self.cur, (st, n, fr)
        try:
            return EigenEngine.callx(self, n, st, fr)
        finally:
            self.cur = old

    def math(self, name, vs):
        if name in self.names and not self.quiet and callee(self.cur[1]) == name:
            st, n, fr = self.cur
            self.seen.append((name, st.pc, vs[0], n, fr))
        return EigenEngine.math(self, name, vs)


def free_inputs(f, dyn):
    """symbolic coefficients for every matrix or scalar parameter; dynamic ones get the given shape"""
    args, quats = {}, []
    for p in f.ps or ():
        sh = shape(p.t)
        if sh is not None:
            R, C = (dyn[0] if sh[0] is None else sh[0]), (dyn[1] if sh[1] is None else sh[1])
            es = [mk("x", p.name, k) for k in range(R * C)]
            args[p.name] = mat(R, C, es)
            if (R, C) == (4, 1):
                quats.append(es)
        elif (p.t or "").replace("const ", "").strip(" &") in ("double", "float"):
            args[p.name] = mk("x", p.name)
    return args, quats


def nonneg(p, path):
    """the polynomial of one monomial is known not to be negative"""
    if len(p) != 1:
        return False
    (m, c), = p.items()
    for a, e in m:
        if e % 2 == 0 or a.op == "fn1" and a.args[0] in ("sqrt",):
            continue
        ok = False
        for l, s in path:
            if l.op in ("posr", "pos"):
                q = as_poly(l.args[0])
                k = q.get((), Fraction(0))
                v = {mm: cc for mm, cc in q.items() if mm}
                if list(v) == [((a, 1),)]:
                    cc = v[((a, 1),)]
                    if s and cc > 0 and k <= 0 or not s and cc < 0 and k >= 0:
                        ok = True
                    if s and cc < 0 and k <= 0 or not s and cc > 0 and k >= 0:
                        c = -c
                        ok = True
        if not ok:
            return False
    return c >= 0


def squares(path):
    """a >= b >= 0 gives a^2 >= b^2 (each condition read as `one monomial >= another`)"""
    out = []
    for l, s in path:
        if l.op not in ("posr", "pos"):
            continue
        p = as_poly(l.args[0])
        if len(p) != 2 or () in p:
            continue
        if not s:
            p = {m: -c for m, c in p.items()}
        ms = list(p.items())
        for (m1, c1), (m2, c2) in ((ms[0], ms[1]), (ms[1], ms[0])):
            b = {m2: -c2}
            if nonneg(b, path):
                A, B = norm({m1: c1}), norm(b)
                out.append((mul(A, A), mul(B, B)))
    return out


def refuted(facts, path, extra):
    lits = list(path) + [(mk("posr", t), True) for t in extra]
    for a, b in facts:
        lits.append((mk("posr", sub(b, a)), False))     # not (b - a > 0)
    return linear.conflict(lits) is not None


def nonnegative(arg, pc, quats):
    """None when arg >= 0 on every path, else the failing path and leaf"""
    for path, (leaf,) in cases(arg, under=pc):
        p = as_poly(leaf)
        if all(c >= 0 and all(e % 2 == 0 for _, e in m) for m, c in p.items()) or nonneg(p, path):
            continue
        facts = squares(path) + [(num(1 + SLACK), total_squares(es)) for es in quats]
        facts += [(mul(x, x), ZERO) for x in {a for m in p for a, _ in m}]
        if not refuted(facts, path, [neg(leaf)]):
            return path, leaf
    return None


def bounded(arg, pc, quats):
    """None when |arg| <= 1 on every path, else the failing path and leaf"""
    for path, (leaf,) in cases(arg, under=pc):
        if leaf.op == "num":
            if abs(leaf.args[0]) <= 1:
                continue
            return path, leaf
        facts = squares(path)
        for es in quats:
            facts.append((num(1 + SLACK), total_squares(es)))
        sq = sub(mul(leaf, leaf), ONE)
        if all(refuted(facts, path, [t] + ([sq] if sq.op != "ite" else [])) for t in (sub(leaf, ONE), sub(neg(leaf), ONE))):
            continue
        return path, leaf
    return None


def total_squares(es):
    r = ZERO
    for e in es:
        r = add(r, mul(e, e))
    return r




def sites(P, f, names=TRIG):
    """the calls of the named functions in the body of f"""
    return [n for n in body_nodes(f) if isinstance(n, dict) and n.get("k") == "call" and callee(n) in names]


def reaches(P, names=TRIG, files=None):
    """(functions with a call of their own, functions that reach one through project functions, callers)"""
    fs = [f for f in P.functions(lambda d: d.mine and (files is None or files(d)))]
    own = {f for f in fs if sites(P, f, names)}
    callers = {}
    for f in fs:
        for n in body_nodes(f):
            if isinstance(n, dict) and n.get("k") in ("call", "new", "construct", "ctor") and n.f is not None and n.f is not f:
                callers.setdefault(n.f, set()).add(f)
    reach, todo = set(own), list(own)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in reach:
                reach.add(c)
                todo.append(c)
    return own, reach, callers


def check(P, f, names=TRIG, shapes=((3, 3), (4, 4), (3, 1))):
    """run f over symbolic inputs; [(site node, function, path, leaf, name)] of the arguments not confined"""
    err = None
    for dyn in shapes:
        e = Recorder(P, names=names)
        a, quats = free_inputs(f, dyn)
        try:
            e.root(f, a)
        except (Unmodelled, IndexError) as x:
            err = x
            continue
        bad = []
        for name, pc, arg, n, fr in e.seen:
            r = (nonnegative if name == "sqrt" else bounded)(arg, pc, quats)
            if r is not None:
                bad.append((name, n, fr.where(n), r[0], r[1]))
        return e.seen, bad
    raise Broken("%s: %s" % (f.q, err))
