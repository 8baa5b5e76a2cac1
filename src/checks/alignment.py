"""N01: alignment of matched points returns the best rigid motion. K10: random transformations, units of angles."""
import itertools
import math
import re
import sys
from fractions import Fraction
from ..sa import equiv, mathpairs
from ..sa.algebra import RULES, is_zero
from ..sa.eigen import det, dims, entries, mat, rows_of, total
from ..sa.facts import Broken
from ..sa.mathpairs import cases, infeasible, pathtext
from ..sa.terms import *
from ..sa.vg import elem, order
from .kinematics import program
sys.setrecursionlimit(20000)


def x(name, k):
    return mk("x", name, k)


def matrix(name, n):
    return mat(n, n, [x(name, k) for k in range(n * n)])


def at(m, i, j):
    return entries(m)[i + j * dims(m)[0]]


def product(a, b):
    R, K, C = dims(a)[0], dims(a)[1], dims(b)[1]
    return mat(R, C, [total(mul(at(a, i, k), at(b, k, j)) for k in range(K)) for j in range(C) for i in range(R)])


def tr(a):
    R, C = dims(a)
    return mat(C, R, [at(a, i, j) for i in range(R) for j in range(C)])


def same(a, b):
    return dims(a) == dims(b) and all(is_zero(sub(u, v)) for u, v in zip(entries(a), entries(b)))


def times(c, m):
    return mat(*dims(m), [mul(num(c), e) for e in entries(m)])


def points(f, letter):
    """the columns a witness was given"""
    ns = sorted(p.name for p in f.ps if re.search(r"(^|_)%s\d$" % letter, p.name))
    return [mat(3, 1, [x(n, k) for k in range(3)]) for n in ns]


def motion(f, r, bad):
    A, B = points(f, "a"), points(f, "b")
    K = len(A)
    mean = lambda ps: mat(3, 1, [mul(num(Fraction(1, K)), total(entries(p)[i] for p in ps)) for i in range(3)])
    ca, cb = mean(A), mean(B)
    minus = lambda p, c: mat(3, 1, [sub(u, v) for u, v in zip(entries(p), entries(c))])
    H = mat(3, 3, [total(mul(entries(minus(a, ca))[i], entries(minus(b, cb))[j]) for a, b in zip(A, B)) for j in range(3) for i in range(3)])
    if len(r.engine.factored) != 1:
        raise Broken("%d matrices are decomposed" % len(r.engine.factored))
    G = r.engine.factored[0]
    U, V = matrix("matrixU0", 3), matrix("matrixV0", 3)
    scales = [Fraction(1), Fraction(1, K), Fraction(K)] + ([Fraction(1, K - 1)] if K > 1 else [])
    if any(same(G, times(c, H)) for c in scales):
        L, R = U, V
    elif any(same(G, times(c, tr(H))) for c in scales):
        L, R = V, U
    else:
        i = next(k for k in range(9) if not is_zero(sub(entries(G)[k], entries(H)[k])))
        return bad("the matrix decomposed is not the sum of (a - mean a)(b - mean b)^T over the pairs: coefficient (%d,%d) is %s instead of %s" % (i % 3, i // 3, show(entries(G)[i], 4)[:200], show(entries(H)[i], 4)[:200]))
    dl, dr = det(rows_of(L)), det(rows_of(R))
    dd = mul(dl, dr)
    signs = {}
    for a, b in itertools.product((1, -1), repeat=2):
        for t, v in ((dl, a), (dr, b), (dd, a * b)):
            signs.setdefault((a, b), []).append((t, v))
    best = lambda s: product(product(L, mat(3, 3, [ONE, ZERO, ZERO, ZERO, ONE, ZERO, ZERO, ZERO, s])), tr(R))
    for path, (m,) in cases(r.value, under=r.pc):
        if dims(m) != (4, 4):
            raise Broken("the motion is no 4x4 matrix")
        C = mat(3, 3, [at(m, i, j) for j in range(3) for i in range(3)])
        t = mat(3, 1, [at(m, i, 3) for i in range(3)])
        for j in range(4):
            if not is_zero(sub(at(m, 3, j), ONE if j == 3 else ZERO)):
                return bad("the last row of the motion is not (0,0,0,1)")
        turned = product(C, cb)
        if not same(t, mat(3, 1, [sub(u, v) for u, v in zip(entries(ca), entries(turned))])):
            return bad("when %s: the motion does not take the mean of the second points to the mean of the first" % pathtext(path)[:200])
        if same(C, best(dd)):
            continue
        s = next((k for k in (1, -1) if same(C, best(num(k)))), None)
        if s is None:
            return bad("when %s: the rotation is not U diag(1,1,+-1) V^T: coefficient (0,0) is %s" % (pathtext(path)[:200], show(at(C, 0, 0), 4)[:200]))
        for (a, b), known in signs.items():
            if a * b == s:
                continue
            # orthogonal factors have determinant 1 or -1
            ok = True
            for c, holds in path:
                if c.op in ("posr", "eq0"):
                    for d, v in known:
                        for k in (1, -1):
                            if is_zero(sub(c.args[0], mul(num(k), d))) and holds != ((k * v > 0) if c.op == "posr" else False):
                                ok = False
            if ok:
                return bad("when %s, the determinants of the factors being %d and %d: the result mirrors" % (pathtext(path)[:200], a, b))


def rotation(f, r, bad):
    A, B = points(f, "a"), points(f, "b")
    ws = sorted(p.name for p in f.ps if re.search(r"_w\d$", p.name))
    W = [mk("x", n) for n in ws] or [ONE] * len(A)
    if len(r.engine.factored) != 1:
        raise Broken("%d matrices are decomposed" % len(r.engine.factored))
    G = r.engine.factored[0]
    # the solver reads the lower triangle
    G = mat(4, 4, [at(G, max(i, j), min(i, j)) for j in range(4) for i in range(4)])
    lam = [x("eigenvalues0", k) for k in range(4)]
    sorted_ = [(mk("posr", sub(lam[k], lam[k + 1])), False) for k in range(3)]
    q = [x("q", k) for k in range(4)]
    unit = {(): Fraction(1)}
    for e in q[:3]:
        unit[((e, 2),)] = Fraction(-1)
    RULES[q[3]] = (2, unit)
    cols = [[x("eigenvectors0", j * 4 + i) for i in range(4)] for j in range(4)]
    quad = total(mul(mul(q[i], at(G, i, j)), q[j]) for i in range(4) for j in range(4))
    n = 0
    for path, (m,) in cases(r.value, under=r.pc):
        if infeasible(path + sorted_):
            continue
        n += 1
        if dims(m) != (3, 3):
            raise Broken("the rotation is no 3x3 matrix")
        used = {t.args[1] // 4 for t in order(m) if t.op == "x" and t.args[0] == "eigenvectors0"}
        if len(used) != 1:
            return bad("when %s: the rotation is made of %d eigenvectors" % (pathtext(path)[:200], len(used)))
        j = used.pop()
        for k in range(4):
            if k != j and not infeasible(path + sorted_ + [(mk("posr", sub(lam[k], lam[j])), True)]):
                return bad("when %s: the eigenvector taken need not be that of the largest eigenvalue" % pathtext(path)[:200])
        length = mk("fn1", "sqrt", total(mul(e, e) for e in cols[j]))
        C = subst(subst(m, {length: ONE}), dict(zip(cols[j], q)))
        if any(t in cols[j] for t in order(C)):
            raise Broken("the eigenvector is not replaced")
        if not same(product(C, tr(C)), mat(3, 3, [ONE if a == b else ZERO for a in range(3) for b in range(3)])) or not is_zero(sub(det(rows_of(C)), ONE)):
            return bad("when %s: a unit eigenvector yields no rotation matrix" % pathtext(path)[:200])
        gain = total(mul(w, total(mul(entries(a)[i], mul(at(C, i, k), entries(b)[k])) for i in range(3) for k in range(3))) for w, a, b in zip(W, A, B))
        if not any(is_zero(sub(gain, mul(num(c), quad))) for c in (Fraction(1), Fraction(1, 2), Fraction(2), Fraction(1, 4), Fraction(4))):
            return bad("when %s: the quadratic form decomposed, at a quaternion, is not the sum of w a^T C b over the pairs for the rotation C of that quaternion" % pathtext(path)[:200])
    if not n:
        raise Broken("no case to compare")


def n01(out):
    out.rule("The source of the alignment functions is evaluated over symbolic points into the matrix that is decomposed and the result as a function of the factors. Points: the matrix is the sum of "
             "(a - mean a)(b - mean b)^T, the rotation is U diag(1,1,det U det V) V^T of its factors in every feasible case, and the translation takes mean to mean - the optimum for every such matrix. "
             "Directions: the quadratic form decomposed is, at every unit quaternion, the weighted sum of a^T C b for the rotation C that is made of that quaternion, and the eigenvector is that of the largest eigenvalue.")
    out.assumption("Eigen's decompositions deliver orthogonal factors, singular values in decreasing and eigenvalues in increasing order; one to four pairs of points, one to three of directions (the loops treat all columns alike)")
    out.assumption("arithmetic is exact; weights are positive, directions have length one")
    P = program("kin_alignment.cpp")
    n = 0
    for f in P.functions():
        if not (f.rel and f.rel.endswith("kin_alignment.cpp") and re.match("align_|rotate_", f.name or "")):
            continue
        n += 1
        r = mathpairs.run(P, f)
        t = equiv.target(P, f)
        out.analysed(functions=[f.name, t.q], obligations=1)

        def bad(msg):
            out.violation("alignment", t.q, t.where, "%s: %s" % (f.name, msg))
        if any(ok for ok, in [(p,) for p, (v,) in cases(r.pc) if v is FALSE]):
            bad("refuses matched points when %s" % pathtext([p for p, (v,) in cases(r.pc) if v is FALSE][0])[:300])
            continue
        (motion if f.name.startswith("align") else rotation)(f, r, bad)
    if n < 8:
        raise Broken("witnesses missing in kin_alignment.cpp")


def vanishes(path):
    """the path requires a random direction to be zero"""
    for a, holds in path:
        if a.op != "posr" or holds:
            continue
        p = dict(as_poly(a.args[0]))
        const = p.pop((), Fraction(0))
        lin, quad = {}, {}
        for m, c in p.items():
            if len(m) != 1 or m[0][0].op != "rand" or m[0][1] not in (1, 2):
                break
            (lin if m[0][1] == 1 else quad)[m[0][0]] = c
        else:
            if quad and set(lin) <= set(quad) and const == sum((lin.get(r, Fraction(0))**2 / (4 * c) for r, c in quad.items()), Fraction(0)):
                return True
    return False


def drawn(length2, bound, name):
    """the squared length is that of a number drawn between minus the bound and the bound: the reason why not"""
    draws = [t for t in order(length2) if t.op == "call" and re.search(r"random::(randLU|uniform)$", str(t.args[0]))]
    ends = [ZERO, bound, neg(bound)]
    for d in draws:
        c = None
        if d.args[0].endswith("randLU") and len(d.args) == 3 and all(any(is_zero(sub(e, k)) for k in ends) for e in d.args[1:]):
            c = d
        if d.args[0].endswith("uniform") and len(d.args) == 1:
            c = mul(d, bound)
        if c is not None and is_zero(sub(length2, mul(c, c))):
            return None
    return "the squared length of the %s is %s, not that of a draw between zero and the bound" % (name, show(length2, 4)[:200])


def k10(out):
    out.rule("The source of the random transformations is evaluated with every random number an unknown: the quaternion has unit length as an identity, and with bounds the squared length of the translation (of the rotation vector handed to "
             "axisAngle2quat) is the square of a number drawn between zero and the bound. angleMod subtracts a whole number of turns, the number being the rounded one; the two conversions of units are linear with the factors pi/180 and 180/pi to 1e-12.")
    out.assumption("uniform() lies in [0,1) and randLU between its bounds (R02); the random direction is not zero; axisAngle2quat yields the rotation of its argument (K01, K02, K08)")
    P = program("kin_random.cpp")
    n = 0
    for f in P.functions():
        if not (f.rel and f.rel.endswith("kin_random.cpp") and re.match("unit_|translation_|mod$|degrees_", f.name or "")):
            continue
        n += 1
        r = mathpairs.run(P, f, inline=(lambda g: g.name != "axisAngle2quat"))
        t = equiv.target(P, f)
        out.analysed(functions=[f.name, t.q], obligations=1)

        def bad(msg):
            out.violation("random", t.q, t.where, "%s: %s" % (f.name, msg))
        for path, (v,) in cases(r.value, under=r.pc):
            if vanishes(path):
                continue
            if f.name.startswith("unit_"):
                if v.op == "call" and "axisAngle2quat" in str(v.args[0]):
                    continue
                es = entries(v) if v.op == "mat" else [elem(v, num(k)) for k in range(4)]
                src = {t.args[0] for e in es for t in order(e) if t.op == "elem"}
                if src and all(s.op == "call" and "axisAngle2quat" in str(s.args[0]) for s in src) and len(src) == 1 and all(e.op == "elem" for e in es):
                    s = src.pop()
                    if "bounded" in f.name:
                        a = s.args[1]
                        b = entries(a) if a.op == "mat" else list(s.args[1:])
                        for q, (l2,) in cases(total(mul(e, e) for e in b)):
                            why = None if vanishes(q) else drawn(l2, mk("x", "pos_r"), "rotation vector")
                            if why:
                                bad(why)
                    continue
                if not is_zero(sub(total(mul(e, e) for e in es), ONE)):
                    bad("when %s: the quaternion does not have unit length" % pathtext(path))
                elif "bounded" in f.name and not all(is_zero(e) for e in es[:3]):
                    if any(t.op == "call" and re.search(r"random::", str(t.args[0])) for e in es for t in order(e)):
                        raise Broken("the rotation is not made of a rotation vector")
                    bad("the angle of the rotation is not bounded")
            elif f.name.startswith("translation_"):
                why = drawn(total(mul(e, e) for e in entries(v)), mk("x", "pos_t"), "translation")
                if why:
                    bad("when %s: %s" % (pathtext(path), why))
            elif f.name == "mod":
                a = mk("x", f.ps[0].name)
                d = sub(a, v)
                name = lambda t: re.sub(r"<.*", "", str(t.args[0])).split("::")[-1] if t.op in ("call", "fn1") else t.op
                rest = [t for t in order(d) if name(t) in ("round", "lround", "llround", "rint", "nearbyint", "floor")]
                if not path and not rest and any(name(t) in ("trunc", "ceil") for t in order(d)):
                    bad("the number of turns is not rounded: %s" % show(v, 5)[:200])
                    continue
                if len(rest) != 1:
                    raise Broken("angleMod: %s" % show(v, 5))
                whole = rest[0]
                of = whole.args[-1]
                if name(whole) == "floor":
                    of = sub(of, num(Fraction(1, 2)))
                c, turns = coefficient(d, whole), coefficient(of, a)
                if c is None or turns is None or abs(float(c) - 2 * math.pi) > 1e-12 or abs(float(turns) - 1 / (2 * math.pi)) > 1e-12:
                    bad("what is subtracted is not the rounded number of turns: %s" % show(v, 5)[:200])
            else:
                c = coefficient(v, mk("x", f.ps[0].name))
                w = math.pi / 180 if f.name == "degrees_to" else 180 / math.pi
                if c is None or abs(float(c) / w - 1) > 1e-12:
                    bad("the conversion is %s" % show(v, 5)[:200])
    if n < 10:
        raise Broken("witnesses missing in kin_random.cpp")


def coefficient(v, x):
    """c where v is c x, else None"""
    p = {m: c for m, c in as_poly(v).items() if c}
    return p.get(((x, 1),)) if list(p) == [((x, 1),)] else None


CHECKS = {"N01": n01, "K10": k10}
