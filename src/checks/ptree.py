"""P01-P05: property trees."""
import re
from ..sa import vg
from ..sa.facts import Program, Broken
from ..sa.terms import *
from .valuestore import pairs, RULE

LIB = [r"^sm_property_tree/src/"]
TYPES = ("Bool", "Int", "Double", "String")


def p01(out):
    out.rule(RULE)
    out.assumption("boost::property_tree::ptree's const operations leave the tree unchanged; unresolved operations are functions of their receiver and arguments")
    pairs(out, "eq_boostptree.cpp", LIB, throws=True)
    # handles: a read-only access must leave the implementation object as it was
    pairs(out, "eq_ptree.cpp", LIB, only=lambda n: not re.match(r"set|wchild[A-Z]|children|cchildren", n))


def p02(out):
    out.rule(RULE)
    out.assumption("unresolved operations of the underlying implementation are functions of their receiver and arguments")
    pairs(out, "eq_ptree.cpp", LIB)
    pairs(out, "eq_boostptree.cpp", LIB, only=lambda n: re.match(r"get|set|wgetd", n))


def p04(out):
    out.rule(RULE + " Here the calls made to Boost's format readers and writers, with their arguments and conditions, are compared as well.")
    out.assumption("a file name extension is empty or begins with a dot")
    pairs(out, "eq_formats.cpp", LIB, calls=r"boost::property_tree::.*(read|write)_(xml|ini|info|json)", throws=True)


def p03(out):
    """every use of the implementation object is under the condition that there is one"""
    out.rule("For every member function of the generic property tree handles (ConstPropertyTree, PropertyTree), analysed with all library functions inlined: "
             "each call on the object behind the implementation pointer happens only under the condition that the pointer is not null, and under the opposite condition the function "
             "leaves by throwing the library's exception.")
    P = Program(LIB)
    n = 0
    for rn in ("sm::ConstPropertyTree", "sm::PropertyTree"):
        rec = P.record(rn)[0]
        for m in P.methods(rec):
            if m.body is None or not m.mine or m.ctor or m.dtor or m.static:
                continue
            e = vg.Engine(P)
            r = e.root(m)
            uses = [ev for ev in r.events if ev.recv is not None and ev.kind == "call" and ev.fn is not None and ev.fn.cls
                    and "PropertyTreeImplementation" in (ev.fn.cls.q or "")]
            for ev in uses:
                n += 1
                out.analysed(calls=["%s in %s" % (ev.fn.q, m.q)])
                if ev.recv.op != "D":
                    raise Broken("%s: the underlying tree is not reached through a pointer" % m.q)
                null = not_(tobool(ev.recv.args[0]))
                if and_(ev.pc, null) is not FALSE:
                    out.violation("null.use", m.q, ev.frame.where(ev.node), "uses the underlying tree without having verified that there is one")
                elif and_(null, r.pc) is not FALSE:
                    out.violation("null.silent", m.q, m.where, "returns normally although there is no underlying tree")
                for t in r.throws:
                    if and_(t[0].pc, null) is not FALSE and t[1] not in ("sm::ConstPropertyTree::Exception", "sm::PropertyTree::Exception"):
                        out.violation("null.type", m.q, m.where, "throws %s instead of the library's exception when there is no underlying tree" % t[1])
            out.analysed(functions=[m.q])
    if n == 0:
        raise Broken("anchor vanished: no use of the implementation object found")


LIBOPS = ("load", "update", "getString", "getChildren", "resolveFullFilePath")


def p05(out):
    out.rule("The loader's file-list operation is analysed with its helpers inlined (a helper that calls itself is left as a call). Per list element, in ascending order: "
             "the file is loaded from the path resolved for that element; the recursive call for its parents, made exactly when the parents entry of the loaded tree is not empty, gets the comma-separated parents list and that path, "
             "happens after the load and after the element was recorded as visited, and before the loaded tree is merged or becomes the start of the result; the merge creates missing keys exactly when the name does not end in '!'.")
    out.assumption("BoostPropertyTree::update(with, ..) gives every value of `with` precedence")
    P = Program(LIB)
    fs = [f for f in P.find(r"sm::BoostPropertyTreeLoader::readFilesAndMergeIntoPropertyTree") if f.ps and "vector" in f.ps[0].t and f.body is not None]
    if not fs:
        raise Broken("anchor vanished: readFilesAndMergeIntoPropertyTree(vector)")
    f = fs[0]
    e = vg.Engine(P, inline=lambda g: g.name not in LIBOPS)
    r = e.root(f)
    evs = r.events
    loads = [(i, v) for i, v in enumerate(evs) if v.kind == "call" and v.fn.name == "load" and "PropertyTree" in v.fn.q]
    ups = [(i, v) for i, v in enumerate(evs) if v.kind == "call" and v.fn.name == "update" and "PropertyTree" in v.fn.q]
    recs = [(i, v) for i, v in enumerate(evs) if v.kind == "call" and v.fn.mine and v.fn.body is not None and v.fn.name not in LIBOPS and v.fn.q in e.inlined]
    ins = [(i, v) for i, v in enumerate(evs) if v.kind == "insert"]
    if not loads:
        raise Broken("anchor vanished: the loader loads nothing")
    if not ups:
        out.violation("merge.missing", f.q, f.where, "loaded files are never merged")

    def bad(key, v, msg):
        out.violation(key, v.frame.fn.q if v is not None else f.q, v.frame.where(v.node) if v is not None else f.where, msg)
    for i, L in loads:
        out.analysed(loads=[L.frame.where(L.node)])
        path = L.args[0]
        idx = sorted({t for t in subterms(path) if t.op == "elem" and t.args[1].op != "poly" and contains(t.args[1], lambda x: x.op == "it")}, key=lambda t: t.id)
        its = [t for t in subterms(path) if t.op == "elem" and contains(t.args[1], lambda x: x.op == "it" or x.op == "mu")]
        its = [t for t in its if not any(t is not u and contains(t, lambda x: x is u) for u in its)]
        if not its or any(t.args[1] is not mk("it", 0) for t in its):
            bad("order", L, "the files of a list are not processed one by one from the first to the last")
            continue
        el = its[0]
        if and_(L.pc, eq(vg.size(el), ZERO)) is not FALSE:
            bad("empty", L, "an empty list entry is loaded")
        res = [t for t in subterms(path) if t.op == "call" and str(t.args[0]).endswith("resolveFullFilePath")]
        if not res:
            bad("resolve", L, "the file name is not resolved against the search paths and the naming file")
        loaded = [t for t in subterms(mk("x", *[x for v in evs for x in v.args if isinstance(x, T)])) if t.op == "mut" and str(t.args[0]).endswith("::load")]
        after = [(j, R) for j, R in recs if j > i]
        if not after:
            bad("parents.missing", L, "the parents named by a loaded file are not loaded")
            continue
        for j, R in recs:
            out.analysed(recursive_calls=[R.frame.where(R.node)])
            if j < i:
                bad("parents.early", R, "parents are read before the file that names them is loaded")
                continue
            lists = [x for x in R.args if isinstance(x, T) and contains(x, lambda t: t.op == "call" and str(t.args[0]).endswith("::getString"))]
            if not lists:
                bad("parents.list", R, "the list of parents does not come from the loaded file")
                continue
            if not any(contains(x, lambda t: t.op == "str" and t.args[0] == "parents") for x in lists):
                bad("parents.key", R, "the parents are not read from the entry 'parents'")
            # called exactly under: loaded here, and parents not empty
            gs = [t for t in subterms(R.pc) if t.op == "eq0" and contains(t, lambda x: x.op == "size") and contains(t, lambda x: x.op == "call" and str(x.args[0]).endswith("::getString"))]
            if not gs:
                bad("parents.empty", R, "parents are loaded although none are named")
            rel = [x for x in R.args if isinstance(x, T) and x not in lists and same_under(x, resolved(path), R.pc)]
            if not rel:
                bad("parents.relative", R, "parents are not resolved relative to the file that names them")
            if not any(k < j and and_(R.pc, not_(v.pc)) is FALSE for k, v in ins):
                bad("visited", R, "a file is not recorded as visited before its parents are loaded, so a cycle of parents never ends")
            for k, U in ups:
                if k < j:
                    bad("merge.early", U, "a file is merged before its parents")
    for k, U in ups:
        out.analysed(merges=[U.frame.where(U.node)])
        if not contains(U.args[0], lambda t: t.op == "mut" and str(t.args[0]).endswith("::load")):
            bad("merge.what", U, "what is merged is not the tree loaded from the file")
        if len(U.args) > 1:
            last = [t for t in atoms_of(U.args[1]) if t.op == "eq0" and contains(t, lambda x: x.op == "elem")]
            i, L = loads[0]
            el = [t for t in subterms(L.args[0]) if t.op == "elem" and t.args[1] is mk("it", 0)]
            if el:
                bang = eq(vg.elem(el[0], sub(vg.size(el[0]), ONE)), num(33))
                if not same_under(U.args[1], not_(bang), U.pc):
                    bad("merge.create", U, "missing keys are not created exactly when the name does not end in '!'")
        if len(U.args) > 2 and same_under(U.args[2], TRUE, U.pc):
            bad("merge.empty", U, "empty values of a later file do not override")


def resolved(path):
    """the resolved name inside the path that is loaded"""
    def f(t):
        return t.args[1] if t.op == "new" and len(t.args) == 2 else t
    return lift(f, path)


def same_under(a, b, pc):
    k = mk("#x")
    return ite(pc, a, k) is ite(pc, b, k)


CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05}
