"""M01-M03: the matrix archive.

A file is a list of runs of bytes, each with its length and what it holds: a write appends one, a read takes the first."""
import re
import sys
from ..sa import eigen, equiv, vg
from ..sa.facts import Broken, Program, walk
from ..sa.terms import *
from ..sa.narrow import narrowing
from .serial import dim, matrices
sys.setrecursionlimit(20000)

FILE = vg.obj("file")
STREAM = re.compile(r"std::(__cxx11::)?basic_(i|o|io|if|of|f|is|os|i?stringst|o?stringst|strings?t?)?(stream|tream|ios|ream)")


def isstream(t):
    return bool(re.match(r"(const )?std::(__cxx11::)?(basic_)?(i|o|io|if|of|f|ostring|istring|string)?stream\b|(const )?std::(basic_)?ios(_base)?\b", vg.bare(t).rstrip(" *&")))


def runs(st):
    return st.mem.get(FILE, mk("runs"))


def blank(t):
    return t.op == "num" and t.args[0] in (32, 9, 10, 11, 12, 13)


def trimmed(e, fn):
    """values without blanks at their ends: the checked names"""
    return {vg.obj("p%d" % i) for i, p in enumerate(fn.ps or ()) if re.match("name", p.name or "")}


def trim(v, side="both"):
    def f(x):
        if x.op == "cat":
            xs = list(x.args)
            while xs and side != "right" and xs[0].op == "rep" and blank(xs[0].args[1]):
                xs.pop(0)
            while xs and side != "left" and xs[-1].op == "rep" and blank(xs[-1].args[1]):
                xs.pop()
            if not xs:
                return string("")
            return f(xs[0]) if len(xs) == 1 else mk("trim", side, vg._catn(xs))
        if x.op == "init" and re.match("name", names.get(x.args[0], "")):
            return x
        return mk("trim", side, x)
    return lift(f, v)


names = {}


def padded(v, w, fill, left=False):
    n = lift(vg.size, v)
    if w is ZERO:
        return v, lambda: n

    def one(x, w, fill):
        pad = vg.rep(sub(w, vg.size(x)), fill)
        long_ = vg._catn([x, pad] if left else [pad, x])
        return ite(lt(w, vg.size(x), True), x, long_)
    return lift(one, v, w, fill), lambda: ite(lt(w, n, True), n, w)


def simp(e, st, t):
    return e.simp(t, vg.literals(st.pc))


STREAMS = vg.obj("streams")
streams = {}


def ghost(l, what):
    """what is known about a stream outlives it"""
    k = "%s of %d" % (what, l.id)
    streams[k] = (what, l)
    return vg.F(STREAMS, k)


def bad(e, st, l):
    return tobool(e.load(st, ghost(l, "bad")))


def fails(e, st, l, ok, n, fr):
    """an operation on the stream, which may fail"""
    was = bad(e, st, l)
    good = and_(not_(was), tobool(ok))
    e.store(st, ghost(l, "bad"), not_(good))
    if st.mem.get(vg.F(l, "throwing")) is TRUE:
        s = st.copy()
        s.pc = and_(s.pc, not_(good))
        if not s.dead:
            fr.throws.append((s, "std::ios_base::failure", mk("exc", "std::ios_base::failure"), fr.where(n), fr))
        st.pc = and_(st.pc, good)
    return good


def put(e, st, n, v, l, nd, fr):
    n, v = simp(e, st, n), simp(e, st, v)
    st.mem[FILE] = lift(lambda o, k, x: mk("runs", *(o.args if o.op == "runs" else (o,)), mk("bytes", k, x)), runs(st), n, v)
    if e.faults is not None:
        fails(e, st, l, lift(lambda o: mk("accepted", o), runs(st)), nd, fr)
        e.store(st, ghost(l, "pending"), TRUE)


def take(e, st, n, l, nd, fr):
    n = simp(e, st, n)
    old = runs(st)

    def val(o, k):
        if o.op != "runs" or o.args and o.args[0].op != "bytes":
            return mk("call", "taken", o, k), mk("call", "rest", o, k)
        m, v = ZERO, string("")
        for i, x in enumerate(o.args):
            m = add(m, x.args[0])
            v = vg._catn([v, x.args[1]]) if i else x.args[1]
            d = sub(m, k)
            if d is ZERO:
                return v, mk("runs", *o.args[i + 1:])
            if i + 1 == len(o.args) or vg.nonneg(d):
                return ite(e.numeq(m, k), v, mk("misread", k, m)), mk("runs", *o.args[i + 1:])
        return mk("misread", k, mk("end")), o
    st.mem[FILE] = lift(lambda o, k: val(o, k)[1], old, n)
    v = lift(lambda o, k: val(o, k)[0], old, n)
    if e.faults is not None:
        st.mem[vg.F(l, "count")] = n
        good = fails(e, st, l, lift(lambda o: mk("complete", o), old), nd, fr)
        st.mem[vg.F(l, "eof")] = ite(good, eof(st, l), lift(lambda o: tobool(mk("ateof", o)), old))
        v = ite(good, v, mk("garbage", old))
    return v


def eof(st, l):
    return st.mem.get(vg.F(l, "eof"), FALSE)


def extent(e, st, l, a):
    """the number of bytes of the object at l, where the source says so"""
    if l.op == "F" and l.args[1] == "coefficients":
        return mul(num(8), mul(e.load(st, vg.F(l.args[0], "rows")), e.load(st, vg.F(l.args[0], "cols"))))
    while a.k in ("cast", "paren") and a.e is not None:
        a = a.e
    t = vg.bare(a.t or "")
    if vg.isptr(t):
        k = e.szof(vg.bare(re.sub(r"\*\s*(const)?$", "", t).strip()))
        if k and k > 1:
            return num(k)
    return None


def stored(e, st, p, n, a):
    """the n bytes that lie in memory behind a pointer"""
    def f(x, n):
        if x.op != "ptr":
            return x if not vg.isstr(x) and x.op != "init" else vg.substr(x, ZERO, n)
        l = x.args[0]
        if l.op == "E" and l.args[1] is ZERO:
            return vg.substr(e.load(st, l.args[0]), ZERO, n)
        v = e.load(st, l)
        k = extent(e, st, l, a)
        return v if k is None else ite(e.numeq(k, n), v, mk("part", v, n))
    return lift(f, p, n)


def pointer(e, a, st, fr):
    if "[" in (a.t or "") and a.k in ("ref", "mem", "idx"):
        return lift(lambda x: vg.ptr(vg.E(x, ZERO)), e.lv(a, st, fr))
    return e.rv(a, st, fr)


def fillin(e, st, p, n, v, a):
    def text(l):
        old = e.load(st, l)
        if l.op == "var" and "[" in (getattr(l.args[0], "t", "") or ""):
            # a buffer of characters: a string if the byte after what is read is zero
            return v if vg.elem(old, n) is ZERO else mk("unterminated", v)
        rest = lift(lambda k: sub(k, n), lift(vg.size, old))
        return lift(lambda r: vg._catn([v, vg.rep(r, ZERO)]) if vg.nonneg(r) else ite(e.numeq(r, ZERO), v, mk("partly", old, v)), rest)

    def go(x, cond):
        if x.op != "ptr":
            raise Broken("reading into " + show(x))
        l = x.args[0]
        if l.op == "E" and l.args[1] is ZERO:
            return e.store(st, l.args[0], text(l.args[0]))
        if l.op == "var" and "[" in (getattr(l.args[0], "t", "") or ""):
            return e.store(st, l, text(l))
        k = extent(e, st, l, a)
        e.store(st, l, v if k is None else ite(e.numeq(k, n), v, mk("part", v, n)))
        if l.op == "F" and l.args[1] == "coefficients":
            m = l.args[0]
            r, c, k = (e.load(st, vg.F(m, x)) for x in ("rows", "cols", "coefficients"))
            if k.op == "init" and k.args[0].op == "F":
                src = k.args[0].args[0]
                s0 = vg.St()
                if r is e.load(s0, vg.F(src, "rows")) and c is e.load(s0, vg.F(src, "cols")):
                    e.store(st, m, e.load(s0, src))
    for c, x in leaves(p):
        go(x, c)


def model(e, n, st, fr):
    f = n.f
    q = vg.shortq(f.q)
    name = f.name
    if re.search(r"algorithm::trim(_left|_right)?(_copy)?$", q) and n.a:
        side = "left" if "left" in name else "right" if "right" in name else "both"
        if name.endswith("copy"):
            return trim(e.rv(n.a[0], st, fr), side), False
        l = e.lv(n.a[0], st, fr)
        e.store(st, l, trim(e.load(st, l), side))
        return VOID, False
    if f.mine:
        return None
    if e.faults is not None and name in ("resize", "reserve", "conservativeResize", "setZero", "assign"):
        for a in n.a or ():
            if vg.bare(a.t) in vg.INT_T and garbage(e.rv(a, st, fr), st.pc):
                e.faults.append((fr.fn, fr.where(n), "%s uses a number that may not have been read completely" % name))
    if n.o is not None and name == "resize" and n.a and re.match("(const )?std::(__cxx11::)?(basic_)?string", vg.bare(n.o.t)):
        l = e.recv_loc(n, st, fr)
        old = e.load(st, l)
        e.store(st, l, lift(lambda k: vg.rep(k, mk("rest", old)), e.rv(n.a[0], st, fr)))
        return VOID, False
    if name in ("setw", "setfill") and q.startswith("std::"):
        return mk(name, e.rv(n.a[0], st, fr)), False
    if n.o is not None and isstream(n.o.t):
        l = e.recv_loc(n, st, fr)
        if name == "write":
            p = pointer(e, n.a[0], st, fr)
            k = e.rv(n.a[1], st, fr)
            put(e, st, k, stored(e, st, p, simp(e, st, k), n.a[0]), l, n, fr)
            return l, True
        if name == "put":
            put(e, st, ONE, e.rv(n.a[0], st, fr), l, n, fr)
            return l, True
        if name == "read":
            p = pointer(e, n.a[0], st, fr)
            k = e.rv(n.a[1], st, fr)
            fillin(e, st, p, simp(e, st, k), take(e, st, k, l, n, fr), n.a[0])
            return l, True
        if name == "get" and len(n.a) <= 1:
            v = take(e, st, ONE, l, n, fr)
            if n.a:
                e.store(st, e.lv(n.a[0], st, fr), v)
                return l, True
            return v, False
        if name in ("width", "fill"):
            k = vg.F(l, name)
            old = st.mem.get(k, ZERO if name == "width" else num(32))
            if n.a:
                st.mem[k] = e.rv(n.a[0], st, fr)
            return old, False
        sick = bad(e, st, l) if e.faults is not None else FALSE
        if name == "good":
            return not_(or_(sick, eof(st, l))) if e.faults is not None else TRUE, False
        if name in ("operator bool", "is_open"):
            return not_(sick), False
        if name in ("fail", "bad", "operator!"):
            return sick, False
        if name == "gcount":
            k = st.mem.get(vg.F(l, "count"), ZERO)
            return ite(sick, sub(k, ONE), k), False
        if name == "peek":
            none = lift(lambda o: TRUE if not o.args else FALSE, runs(st))
            if e.faults is not None:
                sick = not_(fails(e, st, l, lift(lambda o: mk("peeked", o), runs(st)), n, fr))
            st.mem[vg.F(l, "eof")] = ite(sick, eof(st, l), none)
            return ite(or_(sick, none), num(-1), num(65)), False
        if name == "eof":
            return eof(st, l), False
        if name in ("close", "flush") and e.faults is not None:
            fails(e, st, l, lift(lambda o: mk("flushed", o), runs(st)), n, fr)
            e.store(st, ghost(l, "pending"), FALSE)
        if name == "clear" and e.faults is not None and and_(st.pc, sick) is not FALSE:
            e.faults.append((fr.fn, fr.where(n), "a failure of the stream is forgotten"))
        if name == "exceptions" and n.a:
            st.mem[vg.F(l, "throwing")] = TRUE
        if name in ("close", "flush", "clear", "setstate", "exceptions", "open"):
            return VOID, False
        if name == "operator<<" and n.a:
            return inserted(e, l, n.a[0], st, fr, n), True
    if name == "operator<<" and len(n.a) == 2 and isstream(n.a[0].t):
        l = e.lv(n.a[0], st, fr)
        if root_is_log(l):
            return None
        return inserted(e, l, n.a[1], st, fr, n), True
    return None


def root_is_log(l):
    r = vg.root_of(l)
    return r.op == "glob" or r.op == "var" and "stringstream" in (getattr(r.args[0], "t", "") or "")


def inserted(e, l, a, st, fr, nd):
    v = e.rv(a, st, fr)
    if v.op in ("setw", "setfill"):
        st.mem[vg.F(l, "width" if v.op == "setw" else "fill")] = v.args[0]
        return l
    if v.op == "fn":
        nm = str(v)
        for k in ("left", "right", "internal"):
            if re.search(r"::%s\b" % k, nm):
                st.mem[vg.F(l, "adjust")] = mk(k)
        return l
    if vg.bare(a.t) == "char":
        v = e.chr(v)
    w = st.mem.get(vg.F(l, "width"), ZERO)
    fill = st.mem.get(vg.F(l, "fill"), num(32))
    val, k = padded(v, w, fill, st.mem.get(vg.F(l, "adjust")) is mk("left"))
    put(e, st, k(), val, l, nd, fr)
    if w is not ZERO:
        st.mem[vg.F(l, "width")] = ZERO
    return l


ARCHIVE = [r"^sm_matrix_archive/"]


def m03(out):
    out.rule("For each operation that stores under a name, for arbitrary archives, names and values: after normal return no name denotes both a matrix and a string "
             "unless another name did so before, the name stored under is present and no other name appears, and the name has passed the check; "
             "clearing a name leaves nothing under it. Decided as equality of the values of witness functions over the maps.")
    unit = "archive_names.cpp"
    P = Program(ARCHIVE + [r"witness/archive_names\.cpp"])
    for p in equiv.pairs(P, unit):
        out.analysed(pairs=[p.name])
        equiv.decide(out, P, p)


def constant(n):
    while n is not None and n.k in ("cast", "paren"):
        n = n.e
    return n is None or n.k in ("int", "char", "sizeof", "uett", "trait") or n.cv is not None


def products(out, P):
    """a number of bytes or coefficients is not computed in 32 bits"""
    for f in P.functions():
        if not f.mine or f.body is None or not re.search("MatrixArchive", f.q or ""):
            continue
        for n in walk(f.body):
            if n.k == "bin" and n.op == "*" and vg.bare(n.t) in ("int", "unsigned int", "short", "unsigned short") and not constant(n.x) and not constant(n.y):
                out.violation("archive.product", f.q, f.where, "the product of two counts is computed in %s: the size of a large matrix overflows" % vg.bare(n.t))
            if n.k == "cast" and n.ck == "IntegralCast" and vg.bare(n.t) in ("int", "unsigned int") and n.e is not None:
                e = n.e
                while e.k == "paren":
                    e = e.e
                if e.k == "bin" and e.op == "*" and not (constant(e.x) or constant(e.y)):
                    out.violation("archive.product", f.q, f.where, "the product of two counts is cut off to %s: the size of a large matrix overflows" % vg.bare(n.t))
        out.analysed(functions=[f.q])


def m01(out):
    out.rule("A file is a list of runs of bytes, each with a length and what it holds. Composing the writer of a block with the reader of a block yields the same name, kind, "
             "dimensions and contents for every valid name, matrix and string, and leaves the file used up; loading a file of several blocks has the effect of storing each of "
             "them whose name is asked for; saving emits a block for each entry asked for.")
    unit = "archive_files.cpp"
    P = Program(ARCHIVE + [r"witness/archive_files\.cpp"])
    products(out, P)
    for p in equiv.pairs(P, unit):
        out.analysed(pairs=[p.name])
        names.clear()
        for i, q in enumerate(p.lhs.ps):
            names[vg.obj("p%d" % i)] = q.name
        a = equiv.run(P, p.lhs, models=[model, matrices])
        rest = runs(a.st)
        saves = re.match("save|append", p.name)
        if not saves and not equiv.same(rest, mk("runs"), a.pc):
            w, x, y = equiv.where_differ(rest, mk("runs"), a.pc)
            t = equiv.target(P, p.lhs)
            out.violation("archive.left", t.q, t.where, "%s: when %s: unread parts remain: %s" % (p.name, w[:300], show(x, 5)[:400]))
        equiv.decide(out, P, p, models=[model, matrices], ignore=lambda l: hidden(l) and not (saves and l is FILE))


def hidden(l):
    r = vg.root_of(l)
    if r is FILE or r.op == "glob":
        return True
    return l.op == "F" and l.args[1] in ("eof", "width", "fill", "adjust")


def garbage(v, pc):
    """can v contain what an incomplete read left?"""
    seen = set()

    def rec(v):
        if isinstance(v, tuple):
            return any(rec(x) for x in v)
        if not isinstance(v, T) or v in seen:
            return False
        seen.add(v)
        if v.op == "ite":
            return any(rec(x) for x in leafset(constrain(v, pc)))
        return v.op == "garbage" or rec(v.args)
    return v is not None and rec(v)


def m02(out):
    out.rule("Every operation on a stream may fail at every point of the file: a read then yields garbage and the stream stays in a failed state. In each operation that loads "
             "or saves a file: on normal return no operation on its stream can have failed, what was written has been flushed or the file closed before the state was "
             "checked, no size comes from an incomplete read, and no incompletely read value reaches the archive even when an exception is thrown.")
    unit = "archive_files.cpp"
    P = Program(ARCHIVE + [r"witness/archive_files\.cpp"])
    for p in equiv.pairs(P, unit):
        if not re.match("save|append|load", p.name):
            continue
        out.analysed(pairs=[p.name])
        names.clear()
        for i, q in enumerate(p.lhs.ps):
            names[vg.obj("p%d" % i)] = q.name
        e = vg.Engine(P, models=[model, matrices])
        e.faults = []
        given = [vg.obj("p%d" % i) for i, q in enumerate(p.lhs.ps) if p.name.startswith("saveTo") and isstream(q.t)]
        st = vg.St()
        for l in given:
            st.mem[ghost(l, "bad")] = FALSE
        r = e.root(p.lhs, st=st)
        t = equiv.target(P, p.lhs)
        out.analysed(paths=1 + len(r.throws))
        for f, where, text in e.faults:
            out.violation("archive.use", f.q, where, "%s: %s" % (p.name, text))
        own = {streams[l.args[1]][1] for l in r.st.mem if l.op == "F" and l.args[0] is STREAMS}
        own = {l for l in own if vg.root_of(l).op == "var" or l in given}
        if not own:
            raise Broken("%s opens no stream" % p.name)
        for l in own:
            for what, text in (("bad", "returns normally although an operation on %s failed"), ("pending", "returns normally without having flushed what was written to %s")):
                if what == "pending" and l in given:
                    continue
                v = r.st.mem.get(ghost(l, what))
                if v is not None and and_(r.pc, tobool(v)) is not FALSE:
                    w = equiv.cond(and_(r.pc, tobool(v))) if hasattr(equiv, "cond") else show(and_(r.pc, tobool(v)), 5)
                    out.violation("archive." + what, t.q, t.where, "%s: %s (%s)" % (p.name, text % show(l), w[:400]))
        for st, where in [(r.st, t.where)] + [(x[0], x[3]) for x in r.throws]:
            for l, v in st.mem.items():
                if vg.root_of(l) is vg.obj("p0") and garbage(v, st.pc):
                    out.violation("archive.garbage", t.q, where, "%s: leaves %s with a value that may not have been read completely" % (p.name, show(l)))


def rounded(out, P):
    """no value is rounded to single precision"""
    for f in P.functions():
        if f.mine and f.body is not None and re.search("^sm::MatrixArchive::", f.q or ""):
            for n, a, b in narrowing(f):
                if b == "float" and "double" in a:
                    out.violation("archive.rounded", f.q, f.where, "a value is rounded from %s to %s" % (a, b))
            out.analysed(functions=[f.q])


def m04(out):
    out.rule("Each operation that hands out an entry is compared with a lookup in the map of its kind for arbitrary archives and names: same entry, refused exactly when the "
             "name is absent or the entry has another shape. Each operation that stores leaves exactly the given value under the name; created matrices have the "
             "size asked for and take the place of an existing one only on request; counts and iterators are those of the maps.")
    unit = "archive_values.cpp"
    P = Program(ARCHIVE + [r"witness/archive_values\.cpp"])
    rounded(out, P)
    for p in equiv.pairs(P, unit):
        out.analysed(pairs=[p.name])
        equiv.decide(out, P, p, models=[matrices], ignore=lambda l: bool(re.match("set|create|scalar|other|.*alias", p.name)) and vg.root_of(l) is vg.obj("p0"))


CHECKS = {"M04": m04, "M01": m01, "M02": m02, "M03": m03}
