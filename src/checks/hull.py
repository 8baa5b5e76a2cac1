"""N02: one more sample keeps the lower hull of all samples, and the estimate is the hull's line over the middle of the span."""
import re
import sys
from fractions import Fraction
from ..sa import equiv, vg
from ..sa.algebra import is_zero
from ..sa.facts import Broken, Program
from ..sa.mathpairs import cases, infeasible, pathtext
from ..sa.terms import *
from ..sa.vg import lift
sys.setrecursionlimit(20000)


def listed(v):
    """the elements of a list that was made by appending, or None"""
    es = []
    while v.op == "push":
        es.append(v.args[1])
        v = v.args[0]
    return es[::-1] if v.op == "new" else None


class Search:
    """std::lower_bound in a list of known length: the first element the comparison does not put before the value"""

    def __init__(self, before):
        self.before = before

    def __call__(self, e, n, st, fr):
        f = n.f
        if f.name != "lower_bound" or not f.q.startswith("std::") or len(n.a or ()) != 3:
            return None
        x, y, v = (e.rv(z, st, fr) for z in n.a)
        if not (x.op == y.op == "iter" and x.args[0] is y.args[0]):
            return None
        c = x.args[0]

        def first(l, i, j, w):
            es = listed(l)
            if es is None or i.op != "num" or j.op != "num":
                raise Broken("a search in a list of unknown length")
            i, j = int(i.args[0]), int(j.args[0])
            r = num(j)
            for k in range(j - 1, i - 1, -1):
                r = ite(self.before(es[k], w), r, num(k))
            return r
        return lift(lambda k: mk("iter", c, k), lift(first, e.load(st, c), x.args[1], y.args[1], v)), False


def cross(a, b, c):
    """positive when c is above the line from a to b"""
    return sub(mul(sub(b[0], a[0]), sub(c[1], a[1])), mul(sub(b[1], a[1]), sub(c[0], a[0])))


def root(P, f, args, models=(), pre=TRUE):
    e = vg.Engine(P, models=models, unfold=True)
    r = e.root(f, args, pre=pre)
    r.engine = e
    return r


def setting(kind):
    P = Program([r"witness/time_hull\.cpp"])
    fs = {f.name: f for f in P.functions() if f.rel and f.rel.endswith("time_hull.cpp")}
    if not all(w in fs for w in ("before_" + kind, "x_of", "y_of")):
        raise Broken("witnesses missing in time_hull.cpp")

    def field(name):
        p = mk("x", "point")
        v = root(P, fs[name], {fs[name].ps[0].name: p}).value
        return lambda e: subst(v, {p: e})
    f = fs["before_" + kind]
    p, m = mk("x", "point"), mk("x", "middle")
    v = root(P, f, {f.ps[0].name: p, f.ps[1].name: m}).value
    return P, fs, field("x_of"), field("y_of"), Search(lambda e, w: subst(v, {p: e, m: w}))


def same_segment(kind):
    """the segment remembered is the one the search in the points yields, for zero to four points before the sample"""
    P, fs, X, Y, search = setting(kind)
    for n in range(5):
        f, g = fs["got_%s_%d" % (kind, n)], fs["ref_%s_%d" % (kind, n)]
        a = {p.name: mk("x", p.name) for p in f.ps}
        xs = [a["x%d" % k] for k in range(n)] + [a["nx"]]
        pre = and_(*[lt(p, q, kind == "L") for p, q in zip(xs, xs[1:])])
        if n > 1:
            pre = and_(pre, root(P, fs["middle_" + kind], {"x0": a["x0"], "nx": a["nx"]}).value)
        u, v = (root(P, w, a, [search], pre) for w in (f, g))
        if any(ok is FALSE for path, (ok,) in cases(u.pc, under=pre)):
            return False
        for path, (s, t) in cases(u.value, v.value, under=and_(pre, u.pc, v.pc)):
            if s is not t:
                return False
    return True


def n02(out):
    out.rule("The source of the correction is evaluated for a stored hull of zero to four symbolic points and one further symbolic sample, loops unfolded until no path is left. In every feasible case the points kept "
             "are the first k of the old ones and the sample, where the sample is not below the line of the last two old points kept and not above the line from the last one kept through the first one dropped; with the "
             "old points convex this is the lower hull. The value returned is that of the line through the two kept points around the middle of the first and last remote time, or the local time while fewer than three are kept.")
    out.assumption("arithmetic is exact; stored remote times increase (the check on entry enforces it, decided by T03); more than four stored points behave like four (the loop looks at the last two only)")
    P, fs, X, Y, search = setting("D")
    for n in range(5):
        f, g = fs.get("hull_%d" % n), fs.get("local_%d" % n)
        if f is None or g is None:
            raise Broken("witnesses missing in time_hull.cpp")
        a = {p.name: mk("x", p.name) for p in f.ps}
        old = [(a["x%d" % k], a["y%d" % k]) for k in range(n)]
        new = (a["nx"], a["ny"])
        pre = and_(*[lt(p[0], q[0]) for p, q in zip(old + [new], (old + [new])[1:])])
        r, q = (root(P, w, a, [search], pre) for w in (f, g))
        t = equiv.target(P, f)
        out.analysed(functions=[f.name, g.name, t.q], obligations=2)
        # the old points are strictly convex or on a line
        pre = and_(pre, *[not_(lt(cross(p, q, s), ZERO)) for p, q, s in zip(old, old[1:], old[2:])])

        def bad(path, msg):
            out.violation("hull", t.q, t.where, "a hull of %d points, when %s: %s" % (n, pathtext([p for p in path if p[0] not in given])[:300], msg))

        def possible(path, c):
            return any(not infeasible(path + p) for p, _ in cases(under=c))
        given = set(vg.atoms_of(pre)) if hasattr(vg, "atoms_of") else set()
        refused = [p for p, (ok,) in cases(r.pc, under=pre) if ok is FALSE]
        if refused:
            bad(refused[0], "the sample is refused")
            continue
        for path, (v, w) in cases(r.value, q.value, under=and_(pre, r.pc, q.pc)):
            out.analysed(paths=1)
            es = listed(v)
            if es is None:
                raise Broken("the points kept are not known")
            got = [(X(e), Y(e)) for e in es]
            k = len(got) - 1
            if k < 0 or k > n or any(not is_zero(sub(u, w)) for p, q in zip(got, old[:k] + [new]) for u, w in zip(p, q)):
                bad(path, "the points kept are not the first ones and the sample")
            elif n and not k:
                bad(path, "the first point is dropped")
            elif k > 1 and possible(path, lt(cross(old[k - 2], old[k - 1], new), ZERO)):
                bad(path, "point %d is kept although it can be above the line to the sample" % (k - 1))
            elif 0 < k < n and possible(path, lt(ZERO, cross(old[k - 1], old[k], new))):
                bad(path, "point %d is dropped although it can be below the line to the sample" % k)
            elif k < 2:
                if is_zero(sub(w, a["ny"])):
                    continue
                bad(path, "with fewer than three points kept the estimate is not the local time")
            else:
                middle = mul(num(Fraction(1, 2)), add(old[0][0], a["nx"]))
                line = lambda p, q: add(p[1], mul(mul(sub(q[1], p[1]), inv(sub(q[0], p[0]))), sub(a["nx"], p[0])))
                fit = [(p, q) for p, q in zip(got, got[1:]) if is_zero(sub(w, line(p, q)))]
                if any(not possible(path, lt(middle, p[0])) and not possible(path, lt(q[0], middle)) for p, q in fit):
                    continue
                bad(path, "the estimate is not that of the line through the points kept around the middle" + (": the line taken need not be over it" if fit else ""))
            break


CHECKS = {"N02": n02}
