"""Witness pairs over real functions: both sides are evaluated to coefficient terms and compared by the algebraic zero test."""
import re
from fractions import Fraction
from . import equiv, linear, vg
from .algebra import TooHard, deriv, is_zero, series
from .eigen import EigenEngine, MARKS, Unmodelled, entries, marked, mat, positive, positive_atom, shape, total, trig
from .facts import Broken
from .terms import *
from .vg import bare


def inputs(f, tag=""):
    """symbolic arguments of a witness: coefficients as atoms; `unit_` parameters have norm one"""
    args = {}
    for p in f.ps or ():
        sh = shape(p.t)
        if sh is not None and None not in sh:
            es = [mk("x", "%s%s" % (tag, p.name), k) for k in range(sh[0] * sh[1])]
            if p.name.startswith("unit_"):
                es = [mk("x", "%s%s" % (tag, p.name), k) for k in range(len(es))]
                r = {(): Fraction(1)}
                for e in es[:-1]:
                    r[((e, 2),)] = Fraction(-1)
                RULES[es[-1]] = (2, r)
            if p.name.startswith("sym_"):
                n = sh[0]
                es = [es[min(i, j) + max(i, j) * n] for j in range(n) for i in range(n)]
            args[p.name] = mat(sh[0], sh[1], es)
        elif bare(p.t) in ("double", "float"):
            a = args[p.name] = mk("x", "%s%s" % (tag, p.name))
            for k in ("pos", "angle", "acute", "turn"):
                if p.name.startswith(k + "_") or k == "pos" and p.name == "d_t":
                    MARKS[a] = k
    return args


def recognised(a, memo={}):
    """a condition on an expression that is the cosine or sine of a marked angle, as a condition on that cosine or sine"""
    if a.op != "posr" or not MARKS or not any(e < 0 for m in as_poly(a.args[0]) for _, e in m):
        return a
    if a not in memo:
        memo[a] = a
        for th in marked(("turn", "acute", "angle")):
            for f in ("cos", "sin"):
                t = trig(f, th)
                for b in (1, -1, 2, -2, 4, -4, Fraction(1, 2), Fraction(-1, 2)):
                    for c in (b, -b):
                        u = add(mul(num(b), t), num(c))
                        if memo[a] is a and is_zero(sub(a.args[0], u)):
                            memo[a] = mk("posr", u)
    return memo[a]


def without_positive_factor(t):
    """the polynomial divided by the positive factors that all its monomials share: positive inputs, and inverses of squares"""
    p = as_poly(t)
    if not p:
        return t
    ms = [dict(m) for m in p]
    for a in ms[0]:
        es = [m.get(a, 0) for m in ms]
        if min(es) > 0 and positive_atom(a):
            k = min(es)
        elif max(es) < 0:
            k = max(es) if positive_atom(a) else -(-max(es) // 2 * 2)
        else:
            continue
        for m in ms:
            m[a] -= k
    return norm({tuple((a, m[a]) for a, _ in o if m[a]): c for m, (o, c) in zip(ms, p.items())})


def as_single(t):
    """the x whose square (times a positive number) this is"""
    p = as_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and len(m) == 1 and m[0][1] % 2 == 0:
            return m[0][0]


def infeasible(path):
    """the conditions contradict each other, given squares, sines and the ranges of the inputs"""
    lits = [(recognised(a), s) for a, s in path]
    for a, s in list(lits):
        if a.op == "posr" and a.args[0].op == "fn1" and a.args[0].args[0] == "sqrt":
            lits.append((mk("posr", a.args[0].args[1]), s))
    if any(a is FALSE and s or a is TRUE and not s for a, s in lits):
        return True
    if linear.conflict(lits) is not None:
        return True
    for a, s in list(lits):
        if a.op == "posr" and a.args[0].op != "num":
            b = without_positive_factor(a.args[0])
            if b is not a.args[0]:
                if b.op != "num":
                    lits.append((mk("posr", b), s))
                elif (b.args[0] > 0) != s:
                    return True
    monos, atoms = set(), set()
    for a, s in lits:
        if a.op in ("posr", "eq0"):
            for m in as_poly(a.args[0]):
                if m:
                    monos.add(m)
                    atoms.update(x for x, _ in m)
    more = []
    nonzero = {as_single(a.args[0]) for a, s in lits if a.op == "posr" and s} - {None}
    for m in monos:
        if all(e % 2 == 0 and x in nonzero or positive_atom(x) for x, e in m):
            more.append((mk("posr", norm({m: Fraction(1)})), True))
        elif all(e % 2 == 0 or positive_atom(x) for x, e in m):
            more.append((mk("posr", norm({m: Fraction(-1)})), False))
    for x in atoms:
        if x.op == "fn1" and x.args[0] in ("sin", "cos"):
            more += [(mk("posr", sub(x, ONE)), False), (mk("posr", sub(neg(ONE), x)), False)]
            th = x.args[1]
            if MARKS.get(th) == "acute" and x.args[0] == "sin" or MARKS.get(th) == "turn" and x.args[0] == "cos":
                more += [(mk("posr", sub(ONE, x)), True), (mk("posr", add(ONE, x)), True)]
        if positive_atom(x):
            more.append((mk("posr", x), True))
    for x, (k, r) in list(RULES.items()):
        if x.op == "x":
            for e in [x] + [m[0][0] for m in r if m]:
                if e in atoms:
                    more += [(mk("posr", sub(e, ONE)), False), (mk("posr", sub(neg(ONE), e)), False)]
        if x.op == "x" and any(m in monos for m in r if m):
            more.append((mk("posr", norm({m: -c for m, c in r.items()})), False))
    return (bool(more) or len(lits) > len(path)) and linear.conflict(lits + more) is not None


def run(P, f, inline=None, tag="", pre=TRUE, st=None, models=()):
    e = EigenEngine(P, inline=inline, models=models)
    a = inputs(f, tag)
    for p in f.ps or ():
        if p.name.startswith("nonzero_"):
            es = entries(a[p.name]) if shape(p.t) is not None else [a[p.name]]
            pre = and_(pre, lt(ZERO, total(mul(x, x) for x in es)))
    r = e.root(f, a, pre=pre, st=st)
    r.engine = e
    r.args = a
    return r


def cases(*ts, under=TRUE):
    """[(path, leaves)] over the joint gates of some terms where `under` holds"""
    out = []

    def rec(xs, path):
        m, v = BIG, None
        for x in xs:
            if x.op == "ite" and x.args[0].id < m:
                m, v = x.args[0].id, x.args[0]
        if v is None:
            if xs[0] is TRUE and not infeasible(path):
                out.append((path, xs[1:]))
                if len(out) > 3000:
                    raise TooHard("too many cases")
            return
        if xs[0] is FALSE:
            return
        for s in (True, False):
            rec(tuple(cof(x, v, s) for x in xs), path + [(v, s)])
    rec((under,) + tuple(ts), [])
    return out


def assume(path):
    """a substitution that the equations decided on a path allow: x == c"""
    m = {}
    path = [(mk("posr", without_positive_factor(a.args[0])) if a.op == "posr" else a, s) for a, s in path]
    below = {a.args[0] for a, s in path if a.op == "posr" and not s}
    for a, s in path:
        if s and a.op == "eq0" or not s and a.op == "posr" and neg(a.args[0]) in below:
            p = as_poly(a.args[0])
            lin = [(mm, c) for mm, c in p.items() if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op in ("x", "elem")]
            if len(lin) == 1 and all(mm == () or mm == lin[0][0] for mm in p):
                m[lin[0][0][0][0]] = num(-p.get((), Fraction(0)) / lin[0][1])
    return m


def pathtext(path):
    return " & ".join(("" if s else "!") + show(a, 4) for a, s in path)[:400] or "always"


def coefs(t):
    if t.op == "mat":
        return [("(%d,%d)" % (k % t.args[0], k // t.args[0]), e) for k, e in enumerate(entries(t))]
    if t.op == "with":
        out = []
        for k, v in t.args[1]:
            out += [(".%s%s" % (str(k).split("::")[-1], n), e) for n, e in coefs(v)]
        return out
    return [("", t)]


def compare(u, v, sgn=False):
    """name of the first coefficient in which two leaves differ, or None"""
    a, b = coefs(u), coefs(v)
    if len(a) != len(b):
        return "shape", u, v
    for (n, x), (_, y) in zip(a, b):
        if x is y:
            continue
        if not is_zero(sub(x, y)):
            return n, x, y
    return None


def small(path):
    """a case below a switching threshold: something is less than a small positive constant, or a length is zero"""
    for a, s in path:
        if a.op == "posr" and s:
            p = as_poly(a.args[0])
            c = p.get((), Fraction(0))
            rest = [v for m, v in p.items() if m]
            k = max((abs(v) for v in rest), default=Fraction(1))
            if 0 < c < k / 100:
                return True
        if a.op == "eq0" and s and a.args[0].op == "fn1" and a.args[0].args[0] == "sqrt":
            return True
    return False


# exponential and logarithm of rotations, which pairs named via_ treat as two unknown functions (they have their own obligations)
EXPLOG = re.compile(r"::(quat2AxisAngle|axisAngle2quat)$")


def decide(out, P, pair, key=None, inline=None, say=None, anchor=None, models=()):
    tag = pair.name + "."
    if inline is None and pair.name.startswith("via_"):
        inline = lambda f: not EXPLOG.search(f.q or "")
    a = run(P, pair.lhs, inline, tag, models=models)
    b = run(P, pair.rhs, inline, tag, models=models)
    tgt = anchor or equiv.target(P, pair.lhs)
    out.analysed(obligations=1)
    out.analysed(functions=sorted({q for q in a.engine.inlined if q and "lhs_" not in q}))

    def bad(msg):
        out.violation(key or "identity", tgt.q, tgt.where, "%s: %s" % (pair.name, (say + ": " if say else "") + msg))
        return False
    general = pair.name.startswith("general_")
    if not pair.name.startswith("value_") and not equiv.same(a.pc, b.pc) and not all(general and small(p) or x is y for p, (x, y) in cases(a.pc, b.pc)):
        w, x, y = equiv.where_differ(a.pc, b.pc)
        return bad("when %s: returns normally = %s instead of %s" % (w[:300], show(x), show(y)))
    n = 0
    memo = {}
    for path, (u, v) in cases(a.value, b.value, under=and_(a.pc, b.pc)):
        if general and small(path):
            continue
        n += 1
        if (u, v) in memo and memo[u, v] is None:
            continue
        d = memo[u, v] = compare(u, v)
        if d is not None:
            m = assume(path)
            if m:
                d = compare(subst(u, m), subst(v, m))
        if d is not None:
            return bad("when %s: coefficient %s is %s instead of %s" % (pathtext(path), d[0], show(d[1], 5)[:300], show(d[2], 5)[:300]))
    if not n:
        raise Broken(pair.name + ": no case to compare")
    out.analysed(cases=n)
    return True


# ---------------------------------------------------------------- Jacobians
def freeatoms(f, args):
    """the atoms of the parameters d_*, in order"""
    out = []
    for p in f.ps or ():
        if p.name.startswith("d_"):
            t = args[p.name]
            out += list(entries(t)) if t.op == "mat" else [t]
    return out


def onmanifold(f, tag):
    """{free atom: atom obeying the norm} for d_unit_ parameters"""
    m = {}
    for p in f.ps or ():
        if p.name.startswith("d_unit_"):
            n = shape(p.t)[0] * shape(p.t)[1]
            es = [mk("x", "%sunit %s" % (tag, p.name), k) for k in range(n)]
            RULES[es[-1]] = (2, dict([((), Fraction(1))] + [(((e, 2),), Fraction(-1)) for e in es[:-1]]))
            for k in range(n):
                m[mk("x", "%s%s" % (tag, p.name), k)] = es[k]
    return m


def decide_jacobian(out, P, name, val, jac):
    """jac_ returns the partial derivatives of val_ in the d_ parameters (d_ scalar alone: the derivative of every coefficient);
    names starting with at0_ compare at d_ = 0"""
    tag = name + "."
    a, b = run(P, val, None, tag), run(P, jac, None, tag)
    tgt = equiv.target(P, val if "::" in (equiv.target(P, val).q or "") else jac)
    tj = equiv.target(P, jac)
    out.analysed(obligations=1)
    out.analysed(functions=sorted({q for e in (a.engine, b.engine) for q in e.inlined if q and not re.search(r"\b(val|jac)_", q)}))
    d = freeatoms(val, a.args)
    m = onmanifold(val, tag)
    at0 = {x: ZERO for x in d} if name.startswith("at0_") else None
    n = 0
    for path, (u, v) in cases(a.value, b.value, under=and_(a.pc, b.pc)):
        if at0 is None and small(path):
            continue
        if at0 is not None and (not atzero(path, d) or small(restrict(path, at0))):
            continue
        if m and infeasible(restrict(path, m) + [(mk("posr", sub(ONE, y)), True) for x in m.values() for y in (x, neg(x))]):
            continue    # only at a pole of the sphere
        x = assume(path)
        us, vs = entries(tomat1(u)), entries(tomat1(v))
        k = len(us)
        if len(d) == 1 and len(vs) == k:
            want = [(i, 0, i) for i in range(k)]
        elif len(vs) == k * len(d):
            want = [(i, j, j * k + i) for j in range(len(d)) for i in range(k)]
        else:
            raise Broken("%s: a value of %d and %d inputs with a Jacobian of %d" % (name, k, len(d), len(vs)))
        n += 1
        for i, j, l in want:
            if at0 is not None and len(d) == 1:
                try:
                    g = subst(deriv(us[i], d[0]), at0)
                    if contains(g, lambda y: y.op == "inv"):
                        raise TooHard("a pole at zero")
                except (ZeroDivisionError, TooHard):
                    s = series(us[i], d[0], 2)
                    if min([q for q in s if s[q] is not ZERO], default=0) < 0:
                        raise TooHard("a pole at zero")
                    g = s.get(1, ZERO)
                w = subst(vs[l], at0)
            else:
                g = deriv(us[i], d[j])
                w = vs[l]
                if at0 is not None:
                    g, w = subst(g, at0), subst(w, at0)
            if m:
                g, w = subst(g, m), subst(w, m)
            if x:
                g, w = subst(g, x), subst(w, x)
            if g is w or is_zero(sub(g, w)):
                continue
            out.violation("jacobian", tj.q, tj.where, "%s: when %s: the derivative of coefficient %d with respect to %s is %s, the Jacobian has %s"
                          % (name, pathtext(path), i, show(d[j]), show(g, 5)[:300], show(w, 5)[:300]))
            return False
    if not n:
        raise Broken(name + ": no case to compare")
    out.analysed(cases=n)
    return True


def restrict(path, m):
    """the conditions of a path after a substitution"""
    out = []
    for c, s in path:
        try:
            c = subst(c, m)
        except (ZeroDivisionError, TooHard):
            continue
        if c.op == "ite" and c.args[1] is TRUE and c.args[2] is FALSE:
            c = c.args[0]
        elif c.op == "ite" and c.args[1] is FALSE and c.args[2] is TRUE:
            c, s = c.args[0], not s
        out.append((c, s))
    return out


def tomat1(t):
    return t if t.op == "mat" else mat(1, 1, [t])


def atzero(path, d):
    """the case that holds around d = 0 (d small and positive)"""
    if len(d) != 1:
        return True
    for a, s in path:
        if a.op in ("posr", "eq0") and contains(a.args[0], lambda y: y is d[0]):
            f = series(a.args[0], d[0], 3)
            k = min([q for q in f if f[q] is not ZERO], default=None)
            if k is None:
                v = ZERO
            else:
                v = f[k]
            if a.op == "eq0":
                if (k is None) != s:
                    return False
                continue
            if v.op != "num":
                if (positive(v)) and not s or positive(neg(v)) and s:
                    return False
                continue
            if (k is not None and v.args[0] > 0) != s:
                return False
    return True


# ---------------------------------------------------------------- switches to a series
def threshold(a):
    """a condition `something < small positive constant`, or a length equal to zero"""
    return small([(a, True)]) or a.op == "posr" and small([(mk("posr", a.args[0]), True)])


def decide_switch(out, P, name, f, order=7):
    """sm_NAME(pos_r or r, ...): every case below a threshold on r must continue the case above it"""
    tag = name + "."
    a = run(P, f, None, tag)
    tgt = equiv.target(P, f)
    out.analysed(obligations=1)
    out.analysed(functions=sorted({q for q in a.engine.inlined if q and "sm_" not in q.split("::")[-1]}))
    r = next((a.args[p.name] for p in f.ps if p.name in ("r", "pos_r")), None)
    if r is None:
        raise Broken(name + ": no parameter r")
    cs = [(path, v) for path, (v,) in cases(a.value, under=a.pc)]
    lo = [(p, v) for p, v in cs if small(p)]
    hi = [(p, v) for p, v in cs if not small(p)]
    if not lo or not hi:
        out.analysed(without_switch=[name])
        if not cs:
            raise Broken(name + ": no case")
    for p, v in lo:
        # only small magnitudes may take the branch
        for s in (ONE, neg(ONE)):
            far = (mk("posr", sub(mul(s, r), num(Fraction(1, 50)))), True)
            if not infeasible(list(p) + [far]):
                out.violation("switch-range", tgt.q, tgt.where, "%s: the branch for small angles is taken when %s, which admits %s" % (name, pathtext(p), "large angles" if s is ONE else "negative angles of any size"))
                return False
        lits = [(x, s) for x, s in p if not threshold(x)]
        n = 0
        for q, w in hi:
            mlits = [(x, s) for x, s in q if not threshold(x)]
            if infeasible(lits + mlits):
                continue
            n += 1
            z = any(x.op == "eq0" and s for x, s in p)
            for (nm, x), (_, y) in zip(coefs(v), coefs(w)):
                sx, sy = series(x, r, order), series(y, r, order)
                D = 0 if z else max([k for c, t in coefs(v) for k in [degree(t, r)]], default=0)
                d0 = degree(x, r)
                lead = min([k for k in sy if sy[k] is not ZERO and k <= D], default=None)
                for k in sorted(set(sx) | set(sy)):
                    if k > D and (z or not leftover(sub(sx.get(k, ZERO), sy.get(k, ZERO)), k, tau(p, r), 0 if name.startswith("abs_") else d0, lead)):
                        continue
                    if not is_zero(sub(sx.get(k, ZERO), sy.get(k, ZERO))):
                        out.violation("switch-series", tgt.q, tgt.where, "%s: when %s: the term of order %d of coefficient %s is %s, the general formula has %s"
                                      % (name, pathtext(p), k, nm, show(sx.get(k, ZERO), 5)[:200], show(sy.get(k, ZERO), 5)[:200]))
                        return False
        if not n:
            raise Broken("%s: no general case next to %s" % (name, pathtext(p)))
        out.analysed(cases=n)
    return True


def tau(path, r):
    """the threshold on r of a case for small angles"""
    out = []
    for a, s in path:
        if s and small([(a, s)]) and a.op == "posr":
            p = as_poly(a.args[0])
            c = p.get((), Fraction(0))
            ms = [(m, v) for m, v in p.items() if m]
            if len(ms) != 1 or len(ms[0][0]) != 1 or ms[0][0][0][0] is not r:
                raise Broken("threshold " + show(a, 4))
            out.append(float(c / abs(ms[0][1])) ** (1.0 / ms[0][0][0][1]))
    return min(out) if out else 0.0


def leftover(c, k, t, d0, lead):
    """is the neglected term c*r^k too large at the threshold t?  Coefficients that carry r: relative to their leading term"""
    b = float(sum(abs(v) for v in as_poly(c).values()))
    if d0 and lead is not None:
        return b * t ** (k - lead) > 1e-10
    return b * t ** k > 1e-10


def degree(t, x):
    """degree in x where t is a polynomial in it, 0 for the parts that are not"""
    return max([e for m in as_poly(t) for a, e in m if a is x], default=0)


def decide_all(out, P, unit, sel=None, **kw):
    fs = {}
    for f in P.functions():
        if f.rel and f.rel.endswith(unit) and f.name:
            fs[f.name] = f
    jobs = []
    for n, f in sorted(fs.items()):
        k, _, x = n.partition("_")
        if sel is not None and not re.search(sel, x):
            continue
        if k == "lhs":
            if "rhs_" + x not in fs:
                raise Broken("witness without counterpart: " + n)
            jobs.append((x, lambda f=f, x=x: decide(out, P, equiv.Pair(P, x, f, fs["rhs_" + x]), **kw)))
        elif k == "val":
            jobs.append((x, lambda f=f, x=x: decide_jacobian(out, P, x, f, fs["jac_" + x])))
        elif k == "sm":
            jobs.append((x, lambda f=f, x=x: decide_switch(out, P, x, f)))
    if not jobs:
        raise Broken("no witness in " + unit)
    for x, go in jobs:
        out.analysed(pairs=[x])
        try:
            go()
        except (TooHard, TooBig, Unmodelled) as e:
            raise Broken("%s: %s" % (x, e))
