"""S01, E01: what is saved is read back, and equality looks at everything.

The archive is a list the analysis knows: `<<` appends (name, type, value), `>>` takes the first entry."""
import re
import sys
from ..sa import eigen, equiv, vg
from ..sa.facts import Broken, Program, walk
from ..sa.terms import *
sys.setrecursionlimit(20000)

TAPE = vg.obj("tape")


def leafval(st, e, l):
    return e.load(st, l)


def fields(e, t, l):
    """the locations of a value's parts: the fields of a class of the repository, its bases first"""
    rec = e.rec_of(t)
    if rec is None or not rec.mine or rec.fields is None:
        return [l]
    out = []
    for b in rec.bases or ():
        if b is not None and b.mine:
            out += fields(e, b.ty or b.q, l)
    for f in rec.fields:
        out += fields(e, f.t, vg.F(l, f.q or f.name))
    return out


def item(e, a, st, fr):
    """(name, type, location, count) of what is handed to the archive"""
    l = e.lv(a, st, fr)
    t = vg.bare(a.t)
    v = e.load(st, l)
    name = mk("noname")
    while True:
        m = re.match(r"(?:const )?boost::serialization::nvp<(.*)>$", t.strip())
        if not m:
            break
        t = vg.bare(m.group(1))
        if v.op == "nvp":
            name, l = v.args
            v = e.load(st, l)
    n = None
    if v.op == "arraywrap":
        l, n = v.args
        t = "array"
    t = re.sub(r"^const | const$", "", t.strip())
    return name, t, l, n


def model(e, n, st, fr):
    f = n.f
    q = vg.shortq(f.q)
    cls = vg.bare(f.cls.ty or f.cls.q) if f.cls is not None else ""
    if "Eigen::" in f.q:
        if f.name in ("array", "matrix", "eval") and not n.a and n.o is not None and f.cls is not None and re.search(r"\b(Matrix|Array|Dense)Base\b", f.cls.q):
            return e.load(st, e.recv_loc(n, st, fr)), False
        if f.name in ("operator==", "operator!=", "cwiseEqual", "cwiseNotEqual") and len(n.a) == 1:
            x, y = e.load(st, e.recv_loc(n, st, fr)), e.rv(n.a[0], st, fr)
            same = f.name in ("operator==", "cwiseEqual")
            if f.name[:4] == "cwis" or "Array" in (f.cls.q if f.cls is not None else ""):
                # one truth value per coefficient
                return lift(lambda p, q: mk("call", "entries " + ("equal" if same else "differ"), *sorted((p, q), key=lambda t: t.id)), x, y), False
            v = lift(lambda p, q: node(mk("call", "matrices equal", *sorted((p, q), key=lambda t: t.id)), TRUE, FALSE), x, y)
            return (v if same else not_(v)), False
        if f.name in ("all", "any") and not n.a and n.o is not None:
            v = e.load(st, e.recv_loc(n, st, fr))
            want = "entries " + ("equal" if f.name == "all" else "differ")
            if all(l.op == "call" and l.args[0] == want for l in leafset(v)):
                v = lift(lambda p: node(mk("call", "matrices equal", *p.args[1:]), TRUE, FALSE), v)
                return (v if f.name == "all" else not_(v)), False
    if q.endswith("serialization::make_nvp"):
        return mk("nvp", e.rv(n.a[0], st, fr), e.lv(n.a[1], st, fr)), False
    if q.endswith("serialization::base_object"):
        return e.lv(n.a[0], st, fr), True
    if q.endswith("serialization::make_array"):
        p = e.rv(n.a[0], st, fr)
        return mk("arraywrap", vg.deref(p), e.rv(n.a[1], st, fr)), False
    if cls.startswith("Tape<") and f.name in ("operator<<", "operator>>", "operator&"):
        me = e.lv(n.o, st, fr)
        loading = cls.startswith("Tape<true")
        name, t, l, cnt = item(e, n.a[0], st, fr)
        if f.name == ("operator<<" if loading else "operator>>"):
            st.mem[TAPE] = mk("tape", mk("wrongway"))
            return me, True
        old = st.mem.get(TAPE, mk("tape"))
        ls = fields(e, t, l)
        if not loading:
            vals = [e.load(st, x) for x in ls]
            if cnt is not None:
                vals = [cnt] + vals
            st.mem[TAPE] = lift(lambda o, *vs: mk("tape", *o.args, mk("item", name, t, *vs)), old, *vals)
            return me, True
        k = len(ls) + (cnt is not None)

        def part(i):
            def g(o):
                if o.args and o.args[0].op == "item":
                    it = o.args[0]
                    if it.args[0] is name and it.args[1] == t and len(it.args) == 2 + k:
                        return it.args[2 + i]
                return mk("misread", name, t, o.args[0] if o.args else mk("end"))
            return lift(g, old)
        off = 0
        if cnt is not None:
            off = 1
            good = eq(part(0), cnt)
        for i, x in enumerate(ls):
            v = part(off + i)
            if cnt is not None:
                v = ite(good, v, mk("misread", name, t, mk("count")))
            e.store(st, x, v)
        st.mem[TAPE] = lift(lambda o: mk("tape", *o.args[1:]), old)
        return me, True
    return None


def isfield(t, who):
    """does the term mention the field of the parameter"""
    return any(x is who for x in subterms(t))


LIB = [r"^sm_kinematics/", r"^sm_common/"]


def s01(out):
    out.rule("(a) For each serialisable type, saving to and loading from an archive - a list that yields what was appended in the order appended, entry by entry "
             "with its tag and type - leaves the target equal to a copy of the source, for arbitrary contents. "
             "(b) For each isBinaryEqual, the value is a conjunction that contains, for every data member of the class and of its bases, an exact comparison involving that "
             "member of both objects, and nothing else that could make equal objects unequal. (c) The comparison macros applied to pointers have the value of their definition.")
    unit = "serial_types.cpp"
    P = Program(LIB + [r"witness/serial_types\.cpp"])
    for p in equiv.pairs(P, unit):
        out.analysed(pairs=[p.name])
        left = equiv.run(P, p.lhs, models=[model]).st.mem.get(TAPE)
        if left is not None and left is not mk("tape"):
            tgt = equiv.target(P, p.lhs)
            out.violation("archive.left", tgt.q, tgt.where, "%s: after loading, the archive still holds %s" % (p.name, show(left, 6)[:400]))
        equiv.decide(out, P, p, models=[model], ignore=lambda l: vg.root_of(l) is TAPE or vg.root_of(l).op == "glob")
    seen = set()
    for f in P.functions():
        if not (f.rel and f.rel.endswith(unit) and f.name and f.name.startswith("equal_")):
            continue
        out.analysed(pairs=[f.name], obligations=1)
        equality(out, P, f, seen)
    for f in P.functions():
        if f.name == "isBinaryEqual" and f.mine and f.body is not None and f.cls is not None and not f.dep and "witness/" not in (f.rel or "") and f.q not in seen:
            # one that no witness exercises: decided on the member itself
            out.analysed(pairs=[f.q], obligations=1)
            equality(out, P, f, seen)


INEXACT = re.compile(r"(isApprox\w*|isZero|isMuchSmallerThan|isOnes|isConstant|isIdentity|isMuchSmaller\w*|\w*[aA]pprox\w*|all|any)$")


def lastname(q):
    """the name of the function, without the classes it belongs to and template arguments"""
    depth, out = 0, ""
    for c in q:
        depth += c == "<"
        if not depth:
            out += c
        depth -= c == ">"
    return out.split("::")[-1]


def tolerant(at):
    """a comparison that also holds for values that differ a little, or differ in some entries"""
    return any(isinstance(t.args[0], str) and INEXACT.match(lastname(t.args[0])) for t in subterms(at) if t.args and isinstance(t, T))


def equality(out, P, f, seen):
    r = equiv.run(P, f, models=[model])
    seen |= {q for q in r.engine.inlined if q.endswith("isBinaryEqual")} | {f.q}
    e = r.engine
    member = f.name == "isBinaryEqual"
    t = vg.bare(f.ps[0].t)
    rec = e.rec_of(t)
    a, b = (vg.THIS if member else vg.obj("p0")), vg.obj("p0" if member else "p1")
    target = f
    if not member:
        target = equiv.target(P, f)
    v, want = r.value, TRUE
    for fl in fields_of(rec):
        x, y = vg.F(a, fl.q), vg.F(b, fl.q)
        if vg.bare(fl.t) in ARITH:
            want = and_(want, e.numeq(e.load(vg.St(), x), e.load(vg.St(), y)))
            continue
        hit = False
        for at in atoms_of(v):
            if at.op in ("pos", "posr") or tolerant(at) or not (isfield(at, x) and isfield(at, y)):
                continue
            lit = node(at, TRUE, FALSE)
            for c in (lit, not_(lit)):
                if and_(v, not_(c)) is FALSE:
                    hit, want = True, and_(want, c)
                    break
            if hit:
                break
        if not hit and rec_parts(e, fl.t):
            # a member of one of the library's own classes, compared part by part
            for g in rec_parts(e, fl.t):
                want = and_(want, e.numeq(e.load(vg.St(), vg.F(x, g.q)), e.load(vg.St(), vg.F(y, g.q))))
            continue
        if not hit:
            out.violation("equality.member", target.q, target.where, "two objects that differ in %s only compare equal" % fl.q)
    if not equiv.same(v, want):
        w, x, y = equiv.where_differ(v, want)
        out.violation("equality.value", target.q, target.where, "when %s: objects equal in all other members compare as %s instead of %s" % (w[:300], show(x, 5)[:300], show(y, 5)[:300]))


ARITH = {"bool", "char", "int", "unsigned int", "long", "unsigned long", "float", "double", "short", "unsigned short", "long long", "unsigned long long"}


def rec_parts(e, t):
    rec = e.rec_of(t)
    if rec is None or not rec.mine or not rec.fields:
        return None
    fs = fields_of(rec)
    return fs if all(vg.bare(f.t) in ARITH for f in fs) else None


def fields_of(rec):
    out = []
    for b in rec.bases or ():
        if b is not None and b.mine:
            out += fields_of(b)
    return out + list(rec.fields or ())


# ---------------------------------------------------------------- matrices
def dim(e, st, l, t, which):
    d = eigen.shape(t)
    k = d[which] if d else None
    return num(k) if k is not None else e.load(st, vg.F(l, ("rows", "cols")[which]))


def made(e, n, l, st, fr):
    """a matrix given its numbers of rows and columns, or another one"""
    t = vg.bare(n.t or "")
    d = eigen.shape(t)
    if d is None or None not in d or not re.match(r"Eigen::Matrix<", eigen.strip(t)):
        return False
    a = n.a or ()
    if len(a) == 2 and all(vg.bare(x.t) in vg.INT_T for x in a):
        for k, x in enumerate(a):
            if d[k] is None:
                e.store(st, vg.F(l, ("rows", "cols")[k]), e.rv(x, st, fr))
        e.store(st, vg.F(l, "coefficients"), mk("unset", *[e.rv(x, st, fr) for k, x in enumerate(a) if d[k] is None]))
        return True
    return False


FILLED = {"Zero": ZERO, "Ones": ONE, "setZero": ZERO, "setOnes": ONE}


def filled(e, st, l, t, n, fr):
    """a matrix all of whose coefficients are one value"""
    d = eigen.shape(t)
    a = [e.rv(x, st, fr) for x in n.a]
    v = FILLED.get(n.f.name)
    if v is None:
        v = a.pop()
    if len(a) == 1:
        a = [a[0], num(d[1])] if d[1] is not None else [num(d[0]), a[0]]
    for k, x in enumerate(a):
        if d[k] is None:
            e.store(st, vg.F(l, ("rows", "cols")[k]), x)
    e.store(st, vg.F(l, "coefficients"), v)


def matrices(e, n, st, fr):
    """a matrix is its dimensions and its coefficients in storage order"""
    f = n.f
    if not f.mine and n.o is None and "Eigen::" in f.q and f.name in ("Constant", "Zero", "Ones"):
        m = re.search(r"^(?:const )?Eigen::CwiseNullaryOp<Eigen::internal::scalar_\w+_op<.*?>, (Eigen::Matrix<.*)>$", vg.bare(n.t))
        if m and eigen.shape(m.group(1)) is not None:
            l = e.temp(mk("new", m.group(1)), st)
            filled(e, st, l, m.group(1), n, fr)
            return e.load(st, l), False
    if f.mine or n.o is None or "Eigen::" not in f.q:
        return None
    t = vg.bare(n.o.t)
    if vg.isptr(n.o.t):
        return None
    name = f.name
    if eigen.parse(eigen.strip(t))[0] == "Eigen::Transform" and name in ("matrix", "affine"):
        return vg.F(e.lv(n.o, st, fr), "m_matrix"), True
    if eigen.shape(t) is None:
        return None
    l = e.lv(n.o, st, fr)
    if name == "operator=" and len(n.a) == 1 and eigen.shape(vg.bare(n.a[0].t)) is not None:
        v = e.rv(n.a[0], st, fr)
        if v.op not in ("call", "obj"):
            e.store(st, l, v)
            return l, True
    if name in ("derived", "eval", "matrix", "const_cast_derived") and not n.a:
        return l, True
    if name == "col" and len(n.a) == 1 and e.rv(n.a[0], st, fr) is ZERO and and_(st.pc, not_(e.numeq(dim(e, st, l, t, 1), ONE))) is FALSE:
        return l, True
    if name in ("setConstant", "setZero", "setOnes"):
        filled(e, st, l, t, n, fr)
        return l, True
    if name == "rows":
        return dim(e, st, l, t, 0), False
    if name == "cols":
        return dim(e, st, l, t, 1), False
    if name == "size":
        return mul(dim(e, st, l, t, 0), dim(e, st, l, t, 1)), False
    if name == "data":
        return vg.ptr(vg.F(l, "coefficients")), False
    if name in ("operator()", "coeffRef", "coeff", "operator[]"):
        if all(e.rv(a, st, fr) is ZERO for a in n.a):
            # the first coefficient exists
            some = and_(*[lt(ZERO, dim(e, st, l, t, k), True) for k in (0, 1)])
            bad = st.copy()
            bad.pc = and_(st.pc, not_(some))
            if bad.pc is not FALSE:
                fr.throws.append((bad, "no such coefficient", None))
            st.pc = and_(st.pc, some)
            return vg.F(l, "coefficients"), True
        return None
    if name in ("resize", "conservativeResize") and len(n.a) <= 2:
        d = eigen.shape(t)
        args = []
        for a in n.a:
            args.append(None if "NoChange_t" in a.t else e.rv(a, st, fr))
        if len(args) == 1:
            args = [args[0], num(d[1])] if d[1] is not None else [num(d[0]), args[0]]
        for k, v in enumerate(args):
            if v is not None and d[k] is None:
                e.store(st, vg.F(l, ("rows", "cols")[k]), v)
        e.store(st, vg.F(l, "coefficients"), mk("unset", *[v for v in args if v is not None]))
        return VOID, False
    return None


matrices.made = made


def dimcases(da):
    """no rows, no columns, or some of both: what is substituted and what is known in addition"""
    out = []
    r, c = da
    if r.op != "num":
        out.append(({r: ZERO}, not_(lt(c, ZERO, True))))
    if c.op != "num":
        out.append(({c: ZERO}, lt(ZERO, r, True)))
    n = mul(r, c)
    out.append(({}, and_(lt(ZERO, r, True), lt(ZERO, c, True), lt(ZERO, n, True), not_(vg.Engine.numeq(n, ZERO)))))
    return out


def left(v, under, bad):
    if not equiv.same(v, mk("tape"), under):
        w, x, y = equiv.where_differ(v, mk("tape"), under)
        bad("archive.left", "when %s: the archive still holds %s" % (w[:300], show(x, 5)[:300]))


def matrixcase(e, r, a, b, tb, da, sb, case, facts, bad):
    want = TRUE
    for k in (0, 1):
        if sb[k] is not None:
            want = and_(want, e.numeq(da[k], num(sb[k])))
    pc = subst(r.pc, case) if case else r.pc
    if not equiv.same(pc, want, facts):
        w, x, y = equiv.where_differ(pc, want, facts)
        bad("matrix.refuses", "when %s: the load returns normally = %s instead of %s" % (w[:300], show(x), show(y)))
        return False
    # where the load succeeds, the source has the target's fixed dimensions
    case = dict(case)
    for k in (0, 1):
        if sb[k] is not None and da[k].op != "num":
            case[da[k]] = num(sb[k])

    def at(t):
        return subst(t, case) if case else t
    under = and_(at(pc), at(facts))
    if under is FALSE:
        return True
    da = [at(d) for d in da]
    ok = True
    for k in (0, 1):
        v = at(dim(e, r.st, b, tb, k))
        if not equiv.same(v, da[k], under):
            w, x, y = equiv.where_differ(v, da[k], under)
            bad("matrix.size", "when %s: the loaded matrix has %s %s instead of %s" % (w[:300], show(x), ("rows", "columns")[k], show(y)))
            ok = False
    if ZERO not in da:
        v, w0 = at(e.load(r.st, vg.F(b, "coefficients"))), e.load(vg.St(), vg.F(a, "coefficients"))
        if not equiv.same(v, w0, under):
            w, x, y = equiv.where_differ(v, w0, under)
            bad("matrix.coefficients", "when %s: the loaded coefficients are %s instead of %s" % (w[:300], show(x, 6)[:300], show(y)))
            ok = False
    left(at(r.st.mem.get(TAPE, mk("tape"))), under, bad)
    return ok


def e01(out):
    out.rule("Saving a matrix of one type to an archive - a list that yields what was appended in the order appended, entry by entry with its tag and type - and loading "
             "it into a matrix of another: the load returns normally exactly when the target's fixed dimensions are those of the source, for all row and column counts "
             "including zero; then the dimensions and, when there are any, the coefficients are those of the source, the archive is used up, and no coefficient "
             "that does not exist is touched.")
    unit = "eigen_serial.cpp"
    P = Program([r"^sm_eigen/include/sm/eigen/serialization\.hpp", r"^sm_common/", r"witness/eigen_serial\.cpp"])
    n = 0
    for f in P.functions():
        if not (f.rel and f.rel.endswith(unit) and f.name) or not re.match("round_|transform_", f.name):
            continue
        n += 1
        out.analysed(pairs=[f.name], obligations=1)
        r = equiv.run(P, f, models=[model, matrices])
        e = r.engine
        loads = [x for x in walk(f.body) if x.k == "call" and x.f is not None and x.f.mine and x.f.name in ("load", "serialize")]
        tgt = loads[-1].f if loads else f
        a, b = vg.obj("p0"), vg.obj("p1")
        st0 = vg.St()

        def bad(key, msg):
            out.violation(key, tgt.q, tgt.where, "%s: %s" % (f.name, msg))
        if f.name.startswith("transform"):
            want = TRUE
            got = e.load(r.st, vg.F(b, "m_matrix"))
            if not equiv.same(got, e.load(st0, vg.F(a, "m_matrix"))):
                bad("matrix.transform", "the loaded matrix is " + show(got, 6)[:300])
        else:
            ta, tb = (vg.bare(p.t) for p in f.ps)
            da = [dim(e, st0, a, ta, k) for k in (0, 1)]
            sb = eigen.shape(tb)
            for case, facts in dimcases(da):
                if not matrixcase(e, r, a, b, tb, [subst(d, case) if case else d for d in da], sb, case, facts, bad):
                    break
            continue
        left(r.st.mem.get(TAPE, mk("tape")), r.pc, bad)
    if n < 26:
        raise Broken("witnesses missing in " + unit)


CHECKS = {"S01": s01, "E01": e01}
