"""Equality of two compositions of library calls, decided on their gated values.

A witness unit holds pairs lhs_NAME / rhs_NAME over the same parameters: lhs uses the operation under test, rhs states
what the property says it is.  Both are analysed by the value-graph engine; nothing is executed.  The pair agrees when
the conditions of normal return, the returned values and the final states of everything reachable from the parameters
are the same terms."""
import re
from .facts import Broken, walk
from . import linear, vg
from .terms import *


def axioms(*ts):
    """what the interpreted conditions in the given terms say about each other"""
    ats = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "ite":
                ats.add(x.args[0])
    ats = sorted(ats, key=lambda a: a.id)
    A = TRUE
    sig = []
    for t in set(x for a in ats for x in subterms(a)):
        # a file name extension is empty or begins with a dot
        if t.op == "call" and str(t.args[0]).endswith("path::extension"):
            for v in set(x for a in ats for x in subterms(a) if x.op == "init" and x.args[0].op == "D" and t in x.args[0].args[0].args):
                A = and_(A, or_(eq(vg.size(v), ZERO), eq(vg.elem(v, ZERO), num(46))))
                ats += [y for y in atoms_of(A) if y not in ats]
    for a in ats:
        if a.op in ("eq0", "pos", "posr"):
            p = as_poly(a.args[0])
            sig.append((a, p))
    n = 0
    for a in ats:
        if a.op == "prefixof":
            d = sub(lift(vg.size, a.args[1]), lift(vg.size, a.args[0]))
            A = and_(A, or_(not_(node(a, TRUE, FALSE)), not_(lt(d, ZERO, True))))
            A = and_(A, or_(not_(eq(lift(vg.size, a.args[0]), ZERO)), node(a, TRUE, FALSE)))
        if a.op == "eq":
            A = and_(A, or_(not_(node(a, TRUE, FALSE)), eq(vg.size(a.args[0]), vg.size(a.args[1]))))
    # equal keys are in a map together
    hs = [a for a in ats if a.op == "has" and len(a.args) == 2]
    for a in ats:
        if a.op == "eq":
            for x in hs:
                for y in hs:
                    if x.args[0] is y.args[0] and x.args[1] is a.args[0] and y.args[1] is a.args[1]:
                        u, v = node(x, TRUE, FALSE), node(y, TRUE, FALSE)
                        A = and_(A, or_(not_(node(a, TRUE, FALSE)), ite(u, v, not_(v))))
    for i, (a, p) in enumerate(sig):
        for b, q in sig[i + 1:]:
            if n > 400:
                break
            A = and_(A, rel(a, p, b, q))
            n += 1
    return A


def rel(a, p, b, q):
    """constraint between two sign atoms over proportional linear forms (up to constants)"""
    if a.op == "eq" or b.op == "eq":
        return TRUE
    pa = {m: c for m, c in p.items() if m}
    qa = {m: c for m, c in q.items() if m}
    if set(pa) != set(qa) or not pa:
        return TRUE
    m0 = next(iter(pa))
    k = qa[m0] / pa[m0]
    if any(qa[m] != k * pa[m] for m in pa):
        return TRUE
    # p = u + c ; q = k*(u) + d
    c = p.get((), Fraction(0))
    d = q.get((), Fraction(0))
    ta, tb = node(a, TRUE, FALSE), node(b, TRUE, FALSE)
    intg = a.op == "pos" or b.op == "pos"
    A = TRUE
    # sample the line u at the points that matter and keep the sign vectors that occur
    pts = sorted({-c, -d / k})
    cand = []
    for x in pts:
        cand.append(x)
    lo, hi = pts[0], pts[-1]
    cand += [lo - 1, hi + 1]
    if intg:
        cand += [x + s for x in pts for s in (-1, 1)]
    else:
        cand += [(lo + hi) / 2]
    poss = FALSE
    for x in cand:
        va = x + c
        vb = k * x + d
        sa = (va == 0) if a.op == "eq0" else va > 0
        sb = (vb == 0) if b.op == "eq0" else vb > 0
        poss = or_(poss, and_(ta if sa else not_(ta), tb if sb else not_(tb)))
    return poss


def scalar(d):
    t = getattr(d, "t", None) or "["
    return "[" not in t and "*" not in t


def renamed(t):
    """fresh objects named by the order in which the value mentions them, not by when they were made"""
    order, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += reversed(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "in" and str(x.args[0]).startswith("new"):
            if x not in order:
                order[x] = mk("in", "new#%d:%s" % (len(order), str(x.args[0]).split(":", 1)[1]), *x.args[1:])
        if x.op == "undef" and x.args[0].op == "var" and (x.args[0].args[0] == "tmp" or scalar(x.args[0].args[0])):
            order.setdefault(x, mk("undef", "tmp#%d" % len(order)))
        st += [y for y in reversed(x.args) if isinstance(y, (T, tuple))]
    return subst(t, order) if order else t


def same(a, b, under=TRUE):
    """equal wherever `under` holds"""
    if a is b or same1(a, b, under):
        return True
    x, y = renamed(a), renamed(b)
    return (x is not a or y is not b) and same1(x, y, under)


def diff(x, y):
    """the gate decisions of one case in which the two differ, with the two values there"""
    path = []
    while x.op == "ite" or y.op == "ite":
        v = min((topid(t) for t in (x, y) if t.op == "ite"))
        at = (x if x.op == "ite" and topid(x) == v else y).args[0]
        for s in (True, False):
            x2, y2 = cof(x, at, s), cof(y, at, s)
            if x2 is not y2:
                path.append((at, s))
                x, y = x2, y2
                break
        else:
            break
    return path, x, y


def settle(a, b, under):
    """(equal?, remaining case): cases whose linear conditions contradict each other are discarded one by one"""
    k = mk("#differs")
    x, y = ite(under, a, k), ite(under, b, k)
    if x is y:
        return True, None
    A = and_(under, axioms(x, y))
    for _ in range(400):
        x, y = ite(A, a, k), ite(A, b, k)
        if x is y:
            return True, None
        path, u, v = diff(x, y)
        core = linear.conflict(path)
        if core is None:
            return False, (path, u, v)
        c = FALSE
        for i in core:
            g = node(path[i][0], TRUE, FALSE)
            c = or_(c, not_(g) if path[i][1] else g)
        A = and_(A, c)
    return False, (path, u, v)


def where_differ(a, b, under=TRUE):
    """a case (conjunction of gate decisions) in which the two differ, with the two values there"""
    ok, w = settle(renamed(a), renamed(b), under)
    if ok:
        return "always", a, b
    return " & ".join(("" if s else "!") + show(at, 5) for at, s in w[0]) or "always", w[1], w[2]


def same1(a, b, under):
    return settle(a, b, under)[0]


def allfields(rec):
    """the data members of a class and of its bases, or None if a base is not in the repository"""
    out = []
    for b in rec.bases or ():
        if b is None or not b.mine:
            return None
        fs = allfields(b)
        if fs is None:
            return None
        out += fs
    return out + list(rec.fields or ())


def fieldwise(P, e, fn, l, x, y):
    """[(field, its value in x, its value in y)] of two values of one class, or None"""
    rec = None
    if l is not None and l.op == "in" and re.match(r"p\d+$", str(l.args[0])):
        rec = e.rec_of(vg.bare(fn.ps[int(l.args[0][1:])].t))
    elif l is not None and l is vg.THIS and fn.cls is not None:
        rec = e.rec_of(fn.cls.ty or fn.cls.q)
    if rec is None:
        derived = {id(b) for r in P.records for b in r.bases or () if b is not None}
        for t in list(leafset(x)) + list(leafset(y)):
            if t.op == "with":
                rec = next((r for r in P.records if r.mine and not r.dep and r.fields and id(r) not in derived and any(f.q == t.args[1][0][0] for f in r.fields)), None)
                break
    if rec is None or not rec.mine:
        return None
    fs = allfields(rec)
    if not fs:
        return None
    return [(f.q, lift(lambda v: vg.proj(v, f.q), x), lift(lambda v: vg.proj(v, f.q), y)) for f in fs]


def visible(l):
    r = vg.root_of(l)
    x = r
    while x.op == "D":
        inner = x.args[0]
        # the memory behind a pointer found in something visible
        return True
    return x.op == "glob" or x.op == "in" and not str(x.args[0]).startswith("new")


class Pair:
    def __init__(self, P, name, lhs, rhs):
        self.P, self.name, self.lhs, self.rhs = P, name, lhs, rhs


def pairs(P, unit):
    fs = {}
    for f in P.functions():
        if f.rel and f.rel.endswith(unit) and f.name and re.match(r"(lhs|rhs)_", f.name):
            fs[f.name] = f
    out = []
    for n in sorted(fs):
        if n.startswith("lhs_"):
            r = "rhs_" + n[4:]
            if r not in fs:
                raise Broken("witness without counterpart: " + n)
            out.append(Pair(P, n[4:], fs[n], fs[r]))
    if not out:
        raise Broken("no witness pairs in " + unit)
    return out


def target(P, lhs):
    """the repository function the left side exercises: the last one called in its body"""
    best = None
    for n in walk(lhs.body):
        if n.k in ("call", "ctor") and n.f is not None and n.f.mine and n.f.body is not None and "witness/" not in (n.f.rel or ""):
            if n.f.name and re.match(r"operator [a-z]", n.f.name):
                continue
            if best is None or n.k == "call" and best.k == "ctor":
                best = n
    return best.f if best is not None else lhs


def run(P, f, **kw):
    e = vg.Engine(P, **kw)
    r = e.root(f)
    r.engine = e
    return r


def trace(res, callbacks=True, calls=None):
    """what is handed to caller-supplied functions (and to the named library functions), in order, as one gated list"""
    t = mk("end")
    for ev in reversed(res.events):
        if not (callbacks and ev.kind == "indirect" or calls and ev.kind == "call" and re.search(calls, ev.fn.q)):
            continue
        one = lift(lambda *xs: mk("then", *xs), ev.term, t)
        t = ite(ev.pc, one, t)
    return t


def decide(out, P, pair, effects=True, key=None, ignore=None, throws=False, anchor=None, say=None, callbacks=False, calls=None, calls_on_return=False, only_throws=None, **kw):
    a = run(P, pair.lhs, **kw)
    b = run(P, pair.rhs, **kw)
    tgt = anchor or target(P, pair.lhs)
    out.analysed(obligations=1)
    out.analysed(functions=sorted({f.q for f in a.engine.inlined if hasattr(f, "q") and f.mine}) if a.engine.inlined else [])
    key = key or "value.differs"

    def bad(msg):
        out.violation(key, tgt.q, tgt.where, "%s: %s" % (pair.name, (say + ": " if say else "") + msg))
    if only_throws:
        throws, effects = "state", False
    elif not same(a.pc, b.pc):
        w, x, y = where_differ(a.pc, b.pc)
        bad("when %s: returns normally = %s instead of %s" % (w[:500], show(x), show(y)))
        return False
    if not only_throws and not same(a.value, b.value, a.pc):
        w, x, y = where_differ(a.value, b.value, a.pc)
        bad("when %s: yields %s instead of %s" % (w[:500], show(x, 7)[:600], show(y, 7)[:600]))
        return False
    ok = True
    ta, tb = trace(a, callbacks, calls), trace(b, callbacks, calls)
    tpc = a.pc if calls_on_return else TRUE
    if not only_throws and not same(ta, tb, tpc):
        w, x, y = where_differ(ta, tb, tpc)
        bad("when %s: calls %s instead of %s" % (w[:500], show(x, 9)[:500], show(y, 9)[:500]))
        ok = False
    if throws:
        ta = {}
        for res, d in ((a, 0), (b, 1)):
            for t in res.throws:
                ta.setdefault(t[1], [FALSE, FALSE])
                ta[t[1]][d] = or_(ta[t[1]][d], t[0].pc)
        for ty, (x, y) in ta.items():
            if only_throws and not re.search(only_throws, ty):
                continue
            if not same(x, y):
                bad("throws %s under %s instead of %s" % (ty, show(x, 6), show(y, 6)))
                ok = False
                continue
            if throws != "state":
                continue
            # what the exception leaves behind
            both = [[r for r in res.throws if r[1] == ty] for res in (a, b)]
            locs = {l for rs in both for r in rs for l in r[0].mem if visible(l) and (ignore is None or not ignore(l))}
            for l in sorted(locs, key=lambda t: t.id):
                vs = []
                for res, rs in zip((a, b), both):
                    v = mk("never")
                    for r in rs:
                        v = ite(r[0].pc, res.engine.load(r[0], l), v)
                    vs.append(v)
                if not same(*vs, x):
                    w, u, v = where_differ(*vs, x)
                    bad("when %s: %s is thrown leaving %s as %s instead of %s" % (w[:300], ty, show(l), show(u, 7)[:400], show(v, 7)[:400]))
                    ok = False
                    break
    if effects:
        locs = [l for l in set(a.st.mem) | set(b.st.mem) if visible(l) and (ignore is None or not ignore(l))]
        for l in sorted(locs, key=lambda t: t.id):
            x, y = a.engine.load(a.st, l), b.engine.load(b.st, l)
            if not same(x, y, a.pc):
                for q, u, v in fieldwise(pair.P, a.engine, pair.lhs, l, x, y) or [("", x, y)]:
                    if not same(u, v, a.pc):
                        x, y = u, v
                        break
                else:
                    continue
                w, x, y = where_differ(x, y, a.pc)
                bad("when %s: leaves %s as %s instead of %s" % (w[:500], show(l), show(x, 7)[:500], show(y, 7)[:500]))
                ok = False
                break
    return ok
